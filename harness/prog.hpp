// What the generated printing programs (tools/gen_prog.py) are made of: facets, filters, arguments, ranges, tr-strings.
#ifndef PROG_HPP
#define PROG_HPP
#include <string_view>
#include <list>
#include <set>
#include <vector>
#include <functional>
#include "print.hpp"
#include "items.hpp"
#include "any_wc.hpp"
namespace vt { inline namespace VT_ENTRY(unit_) {
// ---- errors in tr-strings
inline std::vector<std::string>& te_log() { static std::vector<std::string> v; return v; }
struct te_rec { using category = strf::tr_error_notifier_c; int id = 0;
    template <typename CS> void handle(const typename CS::code_unit* s, std::ptrdiff_t n, CS cs, std::ptrdiff_t pos) noexcept {
        if (!s || !cs.name() || pos < 0 || pos >= n || s[pos] != static_cast<typename CS::code_unit>('{')) { te_log().push_back("[-1,0,0]"); return; }
        te_log().push_back("[" + std::to_string(id) + "," + std::to_string(pos) + "," + std::to_string(n) + "]"); } };
// ---- facets
struct f_case { int k = static_cast<int>(gen.below(3)); strf::lettercase f() const { return case_of(k); } std::string json(const char* on) const { return fcase(k, on); } };
template <int B> struct f_np { punct_spec p = random_punct(B != 10); strf::numpunct<B> f() const { return make_punct<B>(p); } std::string json(const char* on) const { return fpunct(B, p, on); } };
struct f_wc { int k = static_cast<int>(gen.below(3)); any_wc f() const { return any_wc{k}; } std::string json(const char* on) const { return fwcalc(k, on); } };
struct f_te { int id = gen.range(1, 9); te_rec f() const { return te_rec{id}; } std::string json(const char* on) const { return ev().str("c", "te").raw("on", on).num("v", id).done(); } };
// ---- filters: sets of the types of arguments
enum : unsigned { T_short = 1, T_int = 2, T_long = 4, T_llong = 8, T_ushort = 16, T_uint = 32, T_ulong = 64, T_ullong = 128, T_bool = 256, T_ptr = 512, T_chr = 1024, T_c32 = 2048,
    T_s8 = 4096, T_s8t = 8192, T_s16 = 16384, T_s32 = 32768, T_sw = 65536, T_float = 1u << 17, T_double = 1u << 18 };
template <typename S, typename U> constexpr bool is_str() { return std::is_base_of<strf::string_input_tag<S>, U>::value; }
template <typename U, bool = std::is_class<U>::value> struct tbit { static constexpr unsigned v = is_str<char, U>() ? T_s8 : is_str<char8_t, U>() ? T_s8t : is_str<char16_t, U>() ? T_s16 : is_str<char32_t, U>() ? T_s32 : is_str<wchar_t, U>() ? T_sw : 0; };
template <typename U, bool B> constexpr unsigned tbit<U, B>::v;
template <typename U> struct tbit<U, false> { static constexpr unsigned v =
    std::is_same<U, short>::value ? T_short : std::is_same<U, int>::value ? T_int : std::is_same<U, long>::value ? T_long : std::is_same<U, long long>::value ? T_llong :
    std::is_same<U, unsigned short>::value ? T_ushort : std::is_same<U, unsigned>::value ? T_uint : std::is_same<U, unsigned long>::value ? T_ulong : std::is_same<U, unsigned long long>::value ? T_ullong :
    std::is_same<U, bool>::value ? T_bool : std::is_same<U, const void*>::value ? T_ptr : std::is_same<U, float>::value ? T_float : std::is_same<U, double>::value ? T_double :
    std::is_same<U, char32_t>::value ? T_c32 : std::is_same<U, char>::value || std::is_same<U, char8_t>::value || std::is_same<U, char16_t>::value || std::is_same<U, wchar_t>::value ? T_chr : 0; };
template <unsigned M> struct flt { template <typename U> struct pred : std::integral_constant<bool, (tbit<U>::v & M) != 0> {}; };
// ---- arguments: a() gives the argument, j describes it
template <typename F> struct fitem { std::string j; F a; };
template <typename F> fitem<F> mkf(std::string j, F f) { return {std::move(j), std::move(f)}; }
template <typename T> std::shared_ptr<T> keep(T t) { return std::make_shared<T>(std::move(t)); }
using str_t = std::basic_string<ch_t>; using view_t = std::basic_string_view<ch_t>;
inline std::string jc(bool c32, long long v, int n, const align& f) { return ev().str("k", "chr").str("ty", c32 || std::is_same<ch_t, char32_t>::value ? "char32" : "char").num("v", v).num("n", n).raw("f", f.json()).done(); }
inline std::string jb(bool v, const align& f) { return ev().str("k", "bool").boolean("v", v).raw("f", f.json()).done(); }
inline std::string jp(std::size_t v, const align& f) { return ev().str("k", "ptr").raw("v", bytes_le(v)).raw("f", f.json()).done(); }
inline align small_align() { return random_align(12); }
inline str_t short_text() { auto s = str_text<ch_t>(false); if (s.size() > 40 && gen.chance(3, 4)) s.resize(40); return s; }
inline auto p_int() { auto v = random_int<int>(); return mkf(jint(v, 10, no_align()), [=] { return v; }); }
inline auto p_uint() { auto v = random_int<unsigned>(); return mkf(jint(v, 10, no_align()), [=] { return v; }); }
inline auto p_ull() { auto v = random_int<unsigned long long>(); return mkf(jint(v, 10, no_align()), [=] { return v; }); }
inline auto p_short() { auto v = random_int<short>(); align f = small_align(); return mkf(jint(v, 10, f), [=] { return strf::fmt(v).set_alignment_format(f.get()); }); }
inline auto p_punct() { auto v = random_int<long long>(); return mkf(jint(v, 10, no_align(), false, true), [=] { return !strf::dec(v); }); }
inline auto p_punctf() { auto v = random_int<long>(); align f = small_align(); int p = gen.range(0, 8), z = gen.range(0, 12); return mkf(jint(v, 10, f, false, true, p, z, "pos"), [=] { return (+!strf::fmt(v)).p(p).pad0(z).set_alignment_format(f.get()); }); }
inline auto p_hex() { auto v = random_int<unsigned>(16); align f = small_align(); return mkf(jint(v, 16, f, true, true), [=] { return !*strf::hex(v).set_alignment_format(f.get()); }); }
inline auto p_hexs() { auto v = random_int<int>(16); return mkf(jint(v, 16, no_align(), true), [=] { return *strf::hex(v); }); }
inline auto p_oct() { auto v = random_int<unsigned short>(8); return mkf(jint(v, 8, no_align(), true, true), [=] { return !*strf::oct(v); }); }
inline auto p_bin() { auto v = random_int<unsigned short>(2); return mkf(jint(v, 2, no_align(), true, true), [=] { return !*strf::bin(v); }); }
inline auto p_dbl() { auto v = random_float<double>(); return mkf(ffmt().json(v, no_align(), true), [=] { return v; }); }
inline auto p_flt() { auto v = random_float<float>(); return mkf(ffmt().json(v, no_align(), true), [=] { return v; }); }
inline auto p_dblf() { auto v = random_float<double>(); align f = small_align(); ffmt m = ffmt::random(false); return mkf(m.json(v, f), [=] { return strf::fmt(v).set_float_format(m.full()).set_alignment_format(f.get()); }); }
inline auto p_fltn() { auto v = random_float<float>(); align f = small_align(); ffmt m = ffmt::random(false); m.punct = false; return mkf(m.json(v, f), [=] { return strf::fmt(v).set_float_format(m.nopunct()).set_alignment_format(f.get()); }); }
inline auto p_bool() { bool v = gen.chance(1, 2); return mkf(jb(v, no_align()), [=] { return v; }); }
inline auto p_boolf() { bool v = gen.chance(1, 2); align f = small_align(); return mkf(jb(v, f), [=] { return strf::fmt(v).set_alignment_format(f.get()); }); }
inline auto p_chr() { ch_t c = static_cast<ch_t>(gen.range(0x20, 0x7E)); return mkf(jc(false, unit(c), 1, no_align()), [=] { return c; }); }
inline auto p_chrf() { ch_t c = static_cast<ch_t>(gen.range(0x20, 0x7E)); int n = gen.range(0, 12); align f = small_align(); return mkf(jc(false, unit(c), n, f), [=] { return strf::multi(c, n).set_alignment_format(f.get()); }); }
inline auto p_c32() { char32_t c = static_cast<char32_t>(interesting_cp(gen, true)); return mkf(jc(true, static_cast<long>(c), 1, no_align()), [=] { return c; }); }
inline auto p_ptr() { std::size_t n = random_int<unsigned long>(16); const void* v = reinterpret_cast<const void*>(n); return mkf(jp(n, no_align()), [=] { return v; }); }
inline auto p_str() { auto s = keep(short_text()); return mkf(jstr(char_name(), *s, "plain", no_align()), [=] { return view_t(*s); }); }
inline auto p_strf() { auto s = keep(short_text()); align f = small_align(); int p = gen.range(0, static_cast<int>(s->size())) * 65536; return mkf(jstr(char_name(), *s, "plain", f, &p), [=] { return strf::fmt(*s).p(strf::width_t::from_underlying(p)).set_alignment_format(f.get()); }); }
inline auto p_tr() { auto s = keep(str_text<other_t>(false)); align f = small_align(); return mkf(jstr(otn(), *s, "tr", f), [=] { return strf::fmt(*s).transcode().set_alignment_format(f.get()); }); }
inline auto p_sani() { auto s = keep(short_text()); return mkf(jstr(char_name(), *s, "sani", no_align()), [=] { return strf::sani(*s); }); }
// ---- ranges
inline std::string jrange(const std::vector<std::string>& items, const str_t& sep) { std::string r = "["; for (auto& s : items) { if (r.size() > 1) r += ','; r += s; } return ev().str("k", "range").raw("items", r + "]").units("sep", sep.begin(), sep.end()).done(); }
inline int range_len() { return gen.chance(1, 4) ? gen.range(0, 2) : gen.chance(1, 8) ? gen.range(0, 40) : gen.range(0, 8); }
inline str_t random_sep() { str_t s = gen.chance(1, 3) ? str_t{static_cast<ch_t>(','), static_cast<ch_t>(' ')} : gen.chance(1, 6) ? str_t() : str_text<ch_t>(false); auto z = s.find(ch_t()); if (z != str_t::npos) s.resize(z); return s; }
template <typename I> std::vector<I> ints_of(int base = 10) { std::vector<I> v; for (int n = range_len(); n > 0; --n) v.push_back(random_int<I>(base)); return v; }
template <typename V, typename F> std::vector<std::string> each(const V& v, F f) { std::vector<std::string> r; for (auto&& x : v) r.push_back(f(x)); return r; }
inline auto p_range_int() { auto v = keep(ints_of<int>()); return mkf(jrange(each(*v, [](int x) { return jint(x, 10, no_align()); }), str_t()), [=] { return strf::range(*v); }); }
inline auto p_range_str_sep() { auto v = keep(std::list<str_t>()); for (int n = range_len(); n > 0; --n) v->push_back(str_text<ch_t>(false)); auto s = keep(random_sep());
    return mkf(jrange(each(*v, [](const str_t& x) { return jstr(char_name(), x, "plain", no_align()); }), *s), [=] { return strf::separated_range(*v, s->c_str()); }); }
inline auto p_fmt_range_hex() { auto v = keep(ints_of<unsigned>(16)); align f = small_align(); int p = gen.range(0, 10);
    return mkf(jrange(each(*v, [&](unsigned x) { return jint(x, 16, f, true, false, p); }), str_t()), [=] { return (*strf::fmt_range(v->begin(), v->end()).hex()).p(p).set_alignment_format(f.get()); }); }
inline auto p_fmt_sep_range() { auto v = keep(ints_of<long long>()); align f = random_align(8, false); int z = gen.range(0, 10); auto s = keep(random_sep()); f.al = '^';
    return mkf(jrange(each(*v, [&](long long x) { return jint(x, 10, f, false, true, 0, z, "pos"); }), *s), [=] { return +!strf::fmt_separated_range(*v, s->c_str()).fill(f.fill).pad0(z) ^ (f.w / 65536); }); }
inline auto p_fmt_sep_strs() { auto v = keep(std::vector<str_t>()); for (int n = range_len(); n > 0; --n) v->push_back(str_text<ch_t>(false)); auto s = keep(random_sep()); align f = small_align(); int p = gen.range(0, 10) * 65536;
    return mkf(jrange(each(*v, [&](const str_t& x) { return jstr(char_name(), x, "plain", f, &p); }), *s), [=] { return strf::fmt_separated_range(v->begin(), v->end(), s->c_str()).p(strf::width_t::from_underlying(p)).set_alignment_format(f.get()); }); }
inline auto p_range_dbl() { auto v = keep(std::vector<double>()); for (int n = range_len() / 2; n > 0; --n) v->push_back(random_float<double>()); auto s = keep(random_sep());
    return mkf(jrange(each(*v, [](double x) { return ffmt().json(x, no_align(), true); }), *s), [=] { return strf::separated_range(*v, s->c_str()); }); }
inline auto p_fmt_range_flt() { auto v = keep(std::vector<float>()); for (int n = range_len() / 2; n > 0; --n) v->push_back(random_float<float>()); align f = small_align(); ffmt m = ffmt::random(false);
    return mkf(jrange(each(*v, [&](float x) { return m.json(x, f); }), str_t()), [=] { return strf::fmt_range(*v).set_float_format(m.full()).set_alignment_format(f.get()); }); }
inline auto p_range_op() { auto v = keep(ints_of<int>()); align f = small_align();
    return mkf(jrange(each(*v, [&](int x) { return jint(static_cast<unsigned>(x) / 2 + 1, 16, f); }), str_t()), [=] { return strf::range(*v, [=](int x) { return strf::hex(static_cast<unsigned>(x) / 2 + 1).set_alignment_format(f.get()); }); }); }
inline auto p_sep_range_op() { auto v = keep(ints_of<short>()); auto s = keep(random_sep()); align f = random_align(30);
    return mkf(jrange(each(*v, [&](short x) { return ev().str("k", "join").raw("args", jlist({jint(x, 10, no_align()), jc(false, ':', 1, no_align()), jb(x > 0, no_align())})).raw("f", f.json()).done(); }), *s),
        [=] { return strf::separated_range(v->begin(), v->end(), s->c_str(), [=](short x) { return strf::join_align(strf::width_t::from_underlying(f.w), f.get().alignment, f.fill)(x, static_cast<ch_t>(':'), x > 0); }); }); }
inline auto p_range_set() { auto v = keep(std::set<char32_t>()); for (int n = range_len(); n > 0; --n) v->insert(static_cast<char32_t>(interesting_cp(gen, true)));
    return mkf(jrange(each(*v, [](char32_t c) { return jc(true, static_cast<long>(c), 1, no_align()); }), str_t()), [=] { return strf::range(*v); }); }
inline auto p_sep_range_bool() { auto v = keep(std::vector<bool>()); for (int n = range_len(); n > 0; --n) v->push_back(gen.chance(1, 2)); auto s = keep(random_sep());
    return mkf(jrange(each(*v, [](bool b) { return jb(b, no_align()); }), *s), [=] { return strf::separated_range(v->begin(), v->end(), s->c_str()); }); }
inline auto p_array_sep() { struct arr { short a[4]; }; auto v = keep(arr()); for (auto& x : v->a) x = random_int<short>(); auto s = keep(random_sep());
    return mkf(jrange(each(v->a, [](short x) { return jint(x, 10, no_align()); }), *s), [=] { return strf::separated_range(v->a, s->c_str()); }); }
inline auto p_array_fmt() { struct arr { unsigned long long a[3]; }; auto v = keep(arr()); for (auto& x : v->a) x = random_int<unsigned long long>(8); align f = small_align();
    return mkf(jrange(each(v->a, [&](unsigned long long x) { return jint(x, 8, f, true); }), str_t()), [=] { return (*strf::fmt_range(v->a).oct()).set_alignment_format(f.get()); }); }
inline auto p_range_range() { auto v = keep(std::vector<std::vector<int>>()); for (int n = gen.range(0, 4); n > 0; --n) v->push_back(ints_of<int>()); auto s = keep(random_sep()), s2 = keep(random_sep());
    return mkf(jrange(each(*v, [&](const std::vector<int>& w) { return jrange(each(w, [](int x) { return jint(x, 10, no_align()); }), *s); }), *s2), [=] { return strf::separated_range(*v, s2->c_str(), [=](const std::vector<int>& w) { return strf::separated_range(w, s->c_str()); }); }); }
struct ilist3 { int v[3]; str_t sep; std::string j; ilist3() : sep(random_sep()) { for (auto& x : v) x = random_int<int>(); j = jrange(each(v, [](int x) { return jint(x, 10, no_align()); }), sep); } };
// ---- composites
inline std::string jwith(const std::string& fs, const std::string& args) { return ev().str("k", "with").raw("fs", fs).raw("args", args).done(); }
inline std::string jjoin(const align& f, const std::string& args) { return ev().str("k", "join").raw("args", args).raw("f", f.json()).done(); }
inline std::string jtr(const str_t& ts, const std::string& args) { return ev().str("k", "tr").units("ts", ts.begin(), ts.end()).raw("args", args).done(); }
inline align join_align() { align f = random_align(gen.chance(1, 4) ? 200 : 50); return f; }
inline align join_ialign() { align f = random_align(gen.chance(1, 4) ? 200 : 50, false); return f; }
inline strf::width_t W(const align& f) { return strf::width_t::from_underlying(f.w); }
// a tr-string for n arguments, often malformed
inline str_t random_tr(int n) {
    str_t s; auto put = [&](const char* p) { for (; *p; ++p) s += static_cast<ch_t>(*p); };
    auto txt = [&] { if (gen.chance(1, 2)) { static const char* t[] = {"abc", " ", "}", "-", "x: ", "12", "}}", "\n"}; put(t[gen.below(8)]); } else if (gen.chance(1, 6)) s += short_text(); else for (int k = gen.range(0, 4); k > 0; --k) { std::u32string u(1, static_cast<char32_t>(gen.chance(1, 2) ? 0x20 + gen.below(95) : interesting_cp(gen, false))); if (u[0] == U'{' && gen.chance(3, 4)) continue; s += encode_as<ch_t>(u); } };
    auto num = [&] { for (int z = gen.chance(1, 6) ? gen.range(1, 8) : 0; z > 0; --z) s += static_cast<ch_t>('0'); int k = gen.chance(1, 8) ? gen.range(0, 1200) : gen.chance(1, 12) ? -1 : gen.range(0, n + 1); put(k < 0 ? "99999999999999999999999" : std::to_string(k).c_str()); };
    for (int k = gen.chance(1, 10) ? gen.range(0, 40) : gen.range(0, 7); k > 0; --k) {
        switch (gen.below(12)) {
            case 0: case 1: case 2: put("{}"); break;
            case 3: put("{"); num(); put("}"); break;
            case 4: put("{"); num(); txt(); put("}"); break;
            case 5: put("{-"); txt(); put("}"); break;
            case 6: put("{ "); txt(); put("}"); break;
            case 7: put("{{"); break;
            case 8: if (gen.chance(1, 3)) put("{"); else txt(); break;
            default: txt();
        } }
    if (gen.chance(1, 5)) { static const char* t[] = {"{", "{0", "{1 ", "{-", "{- x", "{x", "{{", "{{{", "{9", "{}"}; put(t[gen.below(10)]); }
    return s;
}
// an exact heap block, so that reading outside the string is seen
struct ts_block { str_t s; std::unique_ptr<ch_t[]> b; explicit ts_block(int n) : s(random_tr(n)), b(new ch_t[s.size()]) { std::copy(s.begin(), s.end(), b.get()); } view_t v() const { return {b.get(), s.size()}; } };
// ---- one call, through `call(printing syntax)`
template <typename F> void emit_call(const char* cs, const std::string& fs, const std::string& args, bool line, F call) {
    ev e; results<ch_t> res; te_log().clear(); str_t s, ln;
    e.str("k", "print").str("ct", char_name()).str("cs", cs).raw("fs", fs).raw("args", args);
    call(to_sink(s, layout::random()));
    { std::string r = "["; for (auto& x : te_log()) { if (r.size() > 1) r += ','; r += x; } e.raw("te", r + "]"); }
#if VT_ASPECT == 1
    { str_t s2; long long z = -2; call(to_sized_sink(s2, layout::random(), &z)); if (line) { e.num("lz", z); } else e.raw("sz", ev::ints(std::vector<long long>{z})); res.add(line ? "line (reserve_calc)" : "reserve_calc", line && s2.size() ? s2.substr(0, s2.size() - 1) : s2); }
    { str_t s2; long long z = -2; call(to_sized_sink(s2, layout::random(), &z).reserve(gen.below(100))); res.add(line ? "line (reserve(n))" : "reserve(n)", line && s2.size() ? s2.substr(0, s2.size() - 1) : s2); }
#endif
    if (line) e.units("ln", s.begin(), s.end()); else res.add("user-defined", s);
    e.raw("outs", res.json());
    out->line(e.done());
}
} }
#endif
