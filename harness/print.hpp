// Shared by the drv_print* drivers: facets, alignment formats, destinations of every buffer layout, and one event per printing call.
// VT_ASPECT 0: text only (one destination of random buffer layout); 1: + sizes and widths computed in advance, reserve policies;
// 2: every kind of destination.  VT_CHAR selects the character type of the translation unit.
#ifndef PRINT_HPP
#define PRINT_HPP
#ifndef VT_ASPECT
#define VT_ASPECT 0
#endif
#ifndef VT_CHAR
#define VT_CHAR 0
#endif
#include <strf.hpp>
#include <strf/to_string.hpp>
#include <memory>
#include "vt.hpp"
#include "gen_text.hpp"
#include "charsets_list.hpp"
// each driver defines one entry point per character type
#define VT_ENTRY3(p, n) p##n
#define VT_ENTRY2(p, n) VT_ENTRY3(p, n)
#define VT_ENTRY(p) VT_ENTRY2(p, VT_CHAR)
namespace vt { extern out_file* out; extern rng gen; extern std::string mode; inline namespace VT_ENTRY(unit_) {
#if VT_CHAR == 0
using ch_t = char;
#elif VT_CHAR == 1
using ch_t = char16_t;
#elif VT_CHAR == 2
using ch_t = char32_t;
#elif VT_CHAR == 3
using ch_t = wchar_t;
#else
using ch_t = char8_t;
#endif
inline const char* char_name() { return VT_CHAR == 0 ? "char" : VT_CHAR == 1 ? "char16" : VT_CHAR == 2 ? "char32" : VT_CHAR == 3 ? "wchar" : "char8"; }
// ---- a destination whose buffers are separate exact heap blocks of chosen sizes (so that any overrun is seen by the sanitizer)
struct layout { int first = 64, extra = 0; static layout random() { layout l; l.first = gen.chance(1, 4) ? 64 + gen.range(0, 200) : gen.range(0, 40); l.extra = gen.chance(1, 2) ? 0 : gen.range(0, 40); return l; } };
template <typename C> class sink : public strf::destination<C> {
    std::basic_string<C>& got_; layout lay_; std::unique_ptr<C[]> buf_;
    void fresh(int n) { buf_.reset(new C[static_cast<std::size_t>(n)]); this->set_buffer_ptr(buf_.get()); this->set_buffer_end(buf_.get() + n); this->set_good(true); }
public:
    sink(std::basic_string<C>& got, layout l) : strf::destination<C>(nullptr, nullptr), got_(got), lay_(l) { fresh(l.first); }
    void recycle() override { got_.append(buf_.get(), this->buffer_ptr()); fresh(64 + lay_.extra); }
    void finish() { got_.append(buf_.get(), this->buffer_ptr()); }
};
template <typename C> struct sink_creator {
    using char_type = C; using destination_type = sink<C>; using sized_destination_type = sink<C>;
    std::basic_string<C>* got; layout lay; long long* size;
    sink<C> create() const { return sink<C>{*got, lay}; }
    sink<C> create(std::size_t n) const { if (size) *size = static_cast<long long>(n); return sink<C>{*got, lay}; }
};
template <typename C> strf::printing_syntax<sink_creator<C>, strf::no_reserve> to_sink(std::basic_string<C>& s, layout l) { return strf::printing_syntax<sink_creator<C>, strf::no_reserve>{sink_creator<C>{&s, l, nullptr}}; }
template <typename C> strf::printing_syntax<sink_creator<C>, strf::reserve_calc> to_sized_sink(std::basic_string<C>& s, layout l, long long* sz) { return strf::printing_syntax<sink_creator<C>, strf::reserve_calc>{sink_creator<C>{&s, l, sz}}; }
// ---- outputs of one event, equal ones listed once
template <typename C> struct results {
    std::vector<std::pair<std::string, std::basic_string<C>>> v;
    void add(const char* name, std::basic_string<C> s) { for (auto& p : v) if (p.second == s) { p.first += std::string(" ") + name; return; } v.emplace_back(name, std::move(s)); }
    std::string json() const { std::string r = "["; for (auto& p : v) { if (r.size() > 1) r += ','; r += ev().str("n", p.first).units("u", p.second.begin(), p.second.end()).done(); } return r + "]"; }
};
inline std::string jlist(std::initializer_list<std::string> l) { std::string r = "["; for (auto& s : l) { if (r.size() > 1) r += ','; r += s; } return r + "]"; }
} }
#if VT_ASPECT == 2
#include "dests.hpp"
#endif
namespace vt { inline namespace VT_ENTRY(unit_) {
// ---- one printing call
static void (*after_print)(ev&) = nullptr; // adds what a driver observed besides
template <typename FP, typename... A>
void emit(const char* cs, const std::string& fs, const FP& fp, const std::string& argsjson, const A&... args) {
    using C = ch_t;
    results<C> res;
    ev e;
    e.str("k", "print").str("ct", char_name()).str("cs", cs).raw("fs", fs).raw("args", argsjson);
#if VT_ASPECT == 0
    { std::basic_string<C> s; auto l = layout::random(); to_sink(s, l).with(fp)(args...); res.add("user-defined", std::move(s)); }
#elif VT_ASPECT == 1
    std::vector<long long> sizes;
    { std::basic_string<C> s; to_sink(s, layout::random()).with(fp)(args...); res.add("no_reserve", std::move(s)); }
    { std::basic_string<C> s; long long z = -2; to_sized_sink(s, layout::random(), &z).with(fp)(args...); res.add("reserve_calc", std::move(s)); sizes.push_back(z); }
    { std::basic_string<C> s; long long z = -2; to_sized_sink(s, layout::random(), &z).reserve(gen.below(100)).with(fp)(args...); res.add("reserve(n)", std::move(s)); }
    { strf::full_premeasurements p; strf::measure<C>(&p, fp, args...); sizes.push_back(p.accumulated_ssize()); e.num("wd", p.accumulated_width().underlying_value()); }
    { strf::premeasurements<strf::size_presence::yes, strf::width_presence::no> p; strf::measure<C>(&p, fp, args...); sizes.push_back(p.accumulated_ssize()); }
    { strf::premeasurements<strf::size_presence::no, strf::width_presence::yes> p; strf::measure<C>(&p, fp, args...); e.num("wd2", p.accumulated_width().underlying_value()); }
    { std::basic_string<C> s; long long z = -2; to_sized_sink(s, layout::random(), &z).with(fp).line(args...); e.num("lz", z); e.units("ln", s.begin(), s.end()); }
    e.raw("sz", ev::ints(sizes));
#else
    all_destinations<C>(res, fp, args...);
#endif
    e.raw("outs", res.json());
    if (after_print) after_print(e);
    out->line(e.done());
}
// ---- alignment formats
struct align { char32_t fill = U' '; int w = 0; char al = '>'; bool has = false;
    std::string json() const { return ev().num("fill", static_cast<long>(fill)).num("w", w).str("al", std::string(1, al)).done(); }
    strf::alignment_format get() const {
        return strf::alignment_format{fill, strf::width_t(strf::width_t::from_underlying_tag{}, w), al == '<' ? strf::text_alignment::left : al == '^' ? strf::text_alignment::center : strf::text_alignment::right};
    }
};
inline align no_align() { return align(); }
inline char32_t random_fill() {
    static const char32_t f[] = {U' ', U'*', U'~', U'0', U'-', 0x7F, 0x80, 0xB7, 0xE9, 0x3B1, 0x416, 0x5D0, 0x20AC, 0x2026, 0x3000, 0xFFFD, 0x10330, 0x1F600, 0x10FFFF, U'x'};
    return gen.chance(1, 3) ? U' ' : f[gen.below(sizeof(f) / sizeof(f[0]))];
}
inline align random_align(int maxw = 30, bool frac = true) {
    align a; a.has = true; a.fill = random_fill();
    int w = gen.chance(1, 8) ? 0 : gen.range(0, gen.chance(1, 12) ? maxw * 6 : maxw);
    a.w = w * 65536;
    if (frac && gen.chance(1, 5)) { static const int fr[] = {1, 0x7FFF, 0x8000, 0x8001, 0xFFFF, 0x4000, 0xC000}; a.w += fr[gen.below(7)]; }
    if (gen.chance(1, 50)) a.w = -a.w;
    a.al = "<>^"[gen.below(3)];
    return a;
}
// ---- facets
inline strf::lettercase case_of(int k) { return k == 0 ? strf::lettercase::lower : k == 1 ? strf::lettercase::mixed : strf::lettercase::upper; }
inline const char* case_name(int k) { static const char* n[] = {"lower", "mixed", "upper"}; return n[k]; }
inline std::string fcase(int k, const char* on = "[\"*\"]") { return ev().str("c", "case").raw("on", on).str("v", case_name(k)).done(); }
struct punct_spec { std::vector<int> g; bool fin = false; char32_t sep = U',', dec = U'.'; };
inline std::string fpunct(int base, const punct_spec& p, const char* on = "[\"*\"]") {
    return ev().str("c", "np" + std::to_string(base)).raw("on", on).raw("g", ev::ints(p.g)).boolean("fin", p.fin).num("sep", static_cast<long>(p.sep)).num("dec", static_cast<long>(p.dec)).done();
}
inline char32_t random_punct_char() {
    static const char32_t f[] = {U',', U'.', U'\'', U' ', U'_', 0x7F, 0x80, 0xA0, 0xB7, 0x66B, 0x66C, 0x2019, 0x202F, 0x20AC, 0x10FFFF, 0x1F600, 0xFFFD, 0xFFFF};
    return f[gen.below(sizeof(f) / sizeof(f[0]))];
}
inline punct_spec random_punct(bool big = false) {
    punct_spec p;
    int n = gen.range(0, 6);
    for (int i = 0; i < n; ++i) p.g.push_back(gen.range(1, big && gen.chance(1, 4) ? 30 : gen.chance(1, 2) ? 3 : 6));
    p.fin = n > 0 && gen.chance(1, 3);
    p.sep = random_punct_char(); p.dec = random_punct_char();
    return p;
}
inline strf::digits_grouping make_grouping(const punct_spec& p) {
    strf::digits_grouping_creator c;
    for (int g : p.g) c.push_high(g);
    return p.fin ? c.finish_no_more_sep() : c.finish();
}
template <int Base> strf::numpunct<Base> make_punct(const punct_spec& p) { return strf::numpunct<Base>(make_grouping(p)).thousands_sep(p.sep).decimal_point(p.dec); }
#if VT_CHAR == 0
struct cs_pick { const char* name; strf::dynamic_charset<char> cs; };
inline cs_pick random_charset() {
    static const std::vector<cs_pick> all = {
        {"UTF-8", strf::utf_t<char>().to_dynamic()},
#define X(id) {strf::id##_t<char>().name(), strf::id##_t<char>().to_dynamic()},
        VT_SB_CHARSETS(X)
#undef X
    };
    return gen.chance(1, 2) ? all[0] : all[gen.below(static_cast<unsigned>(all.size()))];
}
#else
struct cs_pick { const char* name; strf::utf_t<ch_t> cs; };
inline cs_pick random_charset() { return {strf::utf_t<ch_t>().name(), strf::utf_t<ch_t>()}; }
#endif
inline int random_wc() { return static_cast<int>(gen.below(4)); }
inline std::string fwcalc(int k, const char* on = "[\"*\"]") { static const char* n[] = {"std", "fast", "u32", "fastu32"}; return ev().str("c", "wc").raw("on", on).str("v", n[k]).done(); }
// ---- characters
inline char32_t random_cp_or_bad() {
    static const std::uint32_t w[] = {4351, 4352, 4447, 4448, 9000, 9001, 9002, 9003, 11903, 11904, 12350, 12351, 12352, 42191, 42192, 44031, 44032, 55203, 55204, 63743, 63744, 64255, 64256, 65039, 65040, 65049, 65050, 65071, 65072, 65135, 65136, 65279, 65280, 65376, 65377, 65503, 65504, 65510, 65511,
        127743, 127744, 128591, 128592, 129279, 129280, 129535, 129536, 131071, 131072, 196605, 196606, 196607, 196608, 262141, 262142, 0x3042, 0x4E00, 0xAC00};
    if (gen.chance(1, 3)) return static_cast<char32_t>(w[gen.below(sizeof(w) / sizeof(w[0]))]);
    return static_cast<char32_t>(interesting_cp(gen, true));
}
inline std::uint32_t random_any_unit32() { static const std::uint32_t e[] = {0xD800, 0xDFFF, 0x110000, 0x1FFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}; return gen.chance(1, 2) ? e[gen.below(7)] : static_cast<std::uint32_t>(gen.next()); }
inline std::uint32_t random_any_unit() { return random_any_unit32(); }
template <typename C> long long unit_val(C c) { return unit(c); }
// ---- values
template <typename I> I random_int(int base = 10) {
    using U = std::make_unsigned_t<I>;
    U u = 0;
    switch (gen.below(6)) {
        case 0: u = static_cast<U>(gen.next()); break;
        case 1: u = static_cast<U>(gen.next() >> gen.below(64)); break;
        case 2: { U p = 1; for (int k = gen.range(0, 64); k > 0; --k) p = static_cast<U>(p * static_cast<U>(base)); u = static_cast<U>(p + static_cast<U>(gen.range(-1, 1))); break; }
        case 3: { static const long long e[] = {0, 1, -1, 9, 10, 7, 8, 15, 16, 99, 100, 255, 256, 999, 1000, 9999, 10000, 32767, 32768, 65535, 65536, 99999, 100000}; u = static_cast<U>(e[gen.below(23)]); break; }
        case 4: u = static_cast<U>(gen.chance(1, 2) ? static_cast<U>(std::numeric_limits<I>::max()) - gen.below(3) : static_cast<U>(std::numeric_limits<I>::min()) + gen.below(3)); break;
        default: { U p = 0; for (int k = gen.range(1, 20); k > 0; --k) p = static_cast<U>(p * 10 + gen.below(10)); u = p; }
    }
    if (gen.chance(1, 3)) u = static_cast<U>(0 - u);
    return static_cast<I>(u);
}
template <typename I> std::string bytes_le(I v) {
    std::string r = "["; auto u = static_cast<std::make_unsigned_t<I>>(v);
    for (std::size_t i = 0; i < sizeof(I); ++i) { if (i) r += ','; r += std::to_string(static_cast<unsigned>((u >> (8 * i)) & 0xFF)); }
    return r + "]";
}
template <typename I> const char* type_name();
#define VT_TN(t, n) template <> inline const char* type_name<t>() { return n; }
VT_TN(short, "short") VT_TN(int, "int") VT_TN(long, "long") VT_TN(long long, "llong") VT_TN(unsigned short, "ushort") VT_TN(unsigned, "uint") VT_TN(unsigned long, "ulong") VT_TN(unsigned long long, "ullong")
} } // namespace vt
#endif
