// Arguments of every kind, with their description.
#ifndef ITEMS_HPP
#define ITEMS_HPP
#include "print.hpp"
#include "gen_grapheme.hpp"
#include "floats.hpp"
namespace vt { inline namespace VT_ENTRY(unit_) {
inline int long_or_short(int n) { return gen.chance(1, 6) ? gen.range(0, n * 20) : gen.range(0, n); }
template <typename A> struct item { std::string j; A a; };
template <typename A> item<A> mk(std::string j, A a) { return {std::move(j), std::move(a)}; }
template <typename S> std::basic_string<S> str_text(bool valid) {
    int n = long_or_short(20); if (!valid && gen.chance(1, 2)) return utf_text<S>(gen, n, 200);
    std::u32string t; for (int i = 0; i < n; ++i) t += gen.chance(1, 2) ? static_cast<char32_t>(gen.range(0x20, 0x7E)) : static_cast<char32_t>(interesting_cp(gen, false));
    return encode_as<S>(t);
}
template <typename S> std::string jstr(const char* st, const std::basic_string<S>& v, const char* mode, const align& f, const int* p = nullptr) {
    ev e; e.str("k", "str").str("st", st).str("ty", std::string("str.") + st).str("scs", "").units("v", v.begin(), v.end()).str("mode", mode).raw("f", f.json()); if (p) e.num("p", *p); return e.done();
}
template <typename I> std::string jint(I v, int base, const align& f, bool sb = false, bool punct = false, int prec = 0, int pad0 = 0, const char* sign = "neg") {
    return ev().str("k", "int").str("ty", type_name<I>()).boolean("sg", std::is_signed<I>::value).raw("v", bytes_le(v)).num("base", base).boolean("sb", sb).boolean("punct", punct).num("prec", prec).num("pad0", pad0).str("sign", sign).raw("f", f.json()).done(); }
inline align big_align() { return random_align(gen.chance(1, 5) ? 300 : 30); }
// ---- one argument of each kind
inline auto g_int() { int v = random_int<int>(); return mk(jint(v, 10, no_align()), v); }
inline auto g_ull() { auto v = random_int<unsigned long long>(); return mk(jint(v, 10, no_align()), v); }
inline auto g_dec() { auto v = random_int<long long>(); align f = big_align(); int p = long_or_short(30), z = long_or_short(30); return mk(jint(v, 10, f, false, true, p, z, "pos"), (+!strf::fmt(v)).p(p).pad0(z).set_alignment_format(f.get())); }
inline auto g_hex() { auto v = random_int<unsigned>(16); align f = big_align(); return mk(jint(v, 16, f, true, true), !*strf::hex(v).set_alignment_format(f.get())); }
inline auto g_bin() { auto v = random_int<unsigned long long>(2); return mk(jint(v, 2, no_align(), true, true), !*strf::bin(v)); }
inline auto g_dbl() { auto v = random_float<double>(); return mk(ffmt().json(v, no_align(), true), v); }
inline auto g_flt() { auto v = random_float<float>(); return mk(ffmt().json(v, no_align(), true), v); }
inline auto g_dblf() { auto v = random_float<double>(); align f = big_align(); ffmt m = ffmt::random(false); return mk(m.json(v, f), strf::fmt(v).set_float_format(m.full()).set_alignment_format(f.get())); }
inline auto g_fltn() { auto v = random_float<float>(); align f = big_align(); ffmt m = ffmt::random(false); m.punct = false; return mk(m.json(v, f), strf::fmt(v).set_float_format(m.nopunct()).set_alignment_format(f.get())); }
inline auto g_str() { auto s = str_text<ch_t>(false); return mk(jstr(char_name(), s, "plain", no_align()), s); }
inline auto g_strf() { auto s = str_text<ch_t>(false); align f = big_align(); int p = gen.range(0, static_cast<int>(s.size())) * 65536; return mk(jstr(char_name(), s, "plain", f, &p), std::make_pair(s, std::make_pair(f, p))); }
inline auto g_char() { ch_t c = static_cast<ch_t>(gen.range(0x20, 0x7E)); int n = long_or_short(40); return mk(ev().str("k", "chr").str("ty", std::is_same<ch_t, char32_t>::value ? "char32" : "char").num("v", unit(c)).num("n", n).raw("f", no_align().json()).done(), strf::multi(c, n)); }
inline auto g_c32() { char32_t c = static_cast<char32_t>(interesting_cp(gen, true)); align f = big_align(); int n = long_or_short(10); return mk(ev().str("k", "chr").str("ty", "char32").num("v", static_cast<long>(c)).num("n", n).raw("f", f.json()).done(), strf::multi(c, n).set_alignment_format(f.get())); }
inline auto g_bool() { bool v = gen.chance(1, 2); return mk(ev().str("k", "bool").boolean("v", v).raw("f", no_align().json()).done(), v); }
inline auto g_ptr() { std::size_t n = random_int<unsigned long>(16); const void* v = reinterpret_cast<const void*>(n); align f = big_align(); return mk(ev().str("k", "ptr").raw("v", bytes_le(n)).raw("f", f.json()).done(), strf::fmt(v).set_alignment_format(f.get())); }
using other_t = std::conditional_t<sizeof(ch_t) == 2, char, char16_t>;
inline const char* otn() { return sizeof(ch_t) == 2 ? "char" : "char16"; }
inline auto g_tr() { auto s = str_text<other_t>(false); return mk(jstr(otn(), s, "tr", no_align()), s); }
inline auto g_sani() { auto s = str_text<ch_t>(false); return mk(jstr(char_name(), s, "sani", no_align()), s); }
} }
#endif
