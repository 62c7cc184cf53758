// width_t arithmetic (C17).
#include <strf.hpp>
#include "vt.hpp"
using namespace vt;
using strf::width_t;
static out_file* out;
static rng r(1);
template <typename I> static std::string bytes(I v) {
    std::string s = "["; auto u = static_cast<std::make_unsigned_t<I>>(v);
    for (std::size_t i = 0; i < sizeof(I); ++i) { if (i) s += ','; s += std::to_string(static_cast<unsigned>((u >> (8 * i)) & 0xFF)); }
    return s + "]";
}
static width_t W(std::int32_t v) { return width_t::from_underlying(v); }
static std::int32_t value() {
    static const std::int64_t e[] = {0, 1, -1, 0x7FFF, 0x8000, 0x8001, 0xFFFF, 0x10000, 0x18000, 0x7FFFFFFF, 0x7FFFFFFE, 0x7FFF0000, 0x7FFEFFFF, 0x40000000, -0x80000000ll, -0x7FFFFFFFll, -0x7FFF0000ll, -0x8000, -0x8001, -0x7FFF, -0xFFFF, -0x10000, -0x18000, -0x10001};
    switch (r.below(4)) {
        case 0: return static_cast<std::int32_t>(e[r.below(24)]);
        case 1: return static_cast<std::int32_t>(r.next());
        case 2: return static_cast<std::int32_t>(r.next()) >> r.below(31);
        default: return (r.range(-300, 300) * 0x8000) + r.range(-1, 1);
    }
}
template <typename I> static I integer() {
    using L = std::numeric_limits<I>;
    switch (r.below(4)) {
        case 0: return r.chance(1, 2) ? static_cast<I>(L::max() - static_cast<I>(r.below(3))) : static_cast<I>(L::min() + static_cast<I>(r.below(3)));
        case 1: { auto p = static_cast<std::uint64_t>(1) << r.below(64); return static_cast<I>((r.chance(1, 2) ? p : ~p) + static_cast<std::uint64_t>(r.range(-2, 2))); }
        case 2: return static_cast<I>(static_cast<I>(r.next()) >> r.below(sizeof(I) * 8));
        default: return static_cast<I>(r.range(-40, 40));
    }
}
static void emit(const char* op, std::int32_t a, width_t got) { out->line(ev().str("op", op).raw("a", bytes(a)).boolean("i", false).raw("got", bytes(got.underlying_value())).done()); }
static void emitn(const char* op, std::int32_t a, std::int64_t got) { out->line(ev().str("op", op).raw("a", bytes(a)).boolean("i", false).raw("got", bytes(got)).done()); }
static void emit2(const char* op, std::int32_t a, std::int32_t b, std::int64_t got) { out->line(ev().str("op", op).raw("a", bytes(a)).raw("b", bytes(b)).boolean("i", false).boolean("bs", true).raw("got", bytes(got)).done()); }
template <typename I> static void emiti(const char* op, std::int32_t a, I b, std::int64_t got) { out->line(ev().str("op", op).raw("a", bytes(a)).raw("b", bytes(b)).boolean("i", true).boolean("bs", std::is_signed<I>::value).raw("got", bytes(got)).done()); }
template <typename A, typename B> static int order(const A& a, const B& b) {
    int s = a < b ? -1 : a > b ? 1 : 0;
    bool ok = (a == b) == (s == 0) && (a != b) == (s != 0) && (a <= b) == (s <= 0) && (a >= b) == (s >= 0);
    return ok ? s : 99;
}
template <typename T> static int sgn(T v) { return v < 0 ? -1 : v > 0; }
static bool fits(__int128 v) { return v >= -static_cast<__int128>(0x80000000ll) && v <= 0x7FFFFFFF; }
template <typename I> static void sat_int(std::int32_t a) { I b = integer<I>(); emiti("sat_add", a, b, strf::sat_add(W(a), b).underlying_value()); emiti("sat_add", a, b, strf::sat_add(b, W(a)).underlying_value()); emiti("sat_sub", a, b, strf::sat_sub(W(a), b).underlying_value()); }
template <typename I> static void mul_int(std::int32_t a) { I b = integer<I>(); emiti("sat_mul", a, b, strf::sat_mul(W(a), b).underlying_value()); emiti("sat_mul", a, b, strf::sat_mul(b, W(a)).underlying_value()); }
template <typename I> static void cmp_int(std::int32_t a) { I b = integer<I>(); if (r.chance(1, 3)) b = static_cast<I>(a >> 16); emiti("cmp", a, b, sgn(strf::compare(W(a), b))); emiti("rcmp", a, b, sgn(strf::compare(b, W(a)))); }
template <typename I> static void conv() { I b = integer<I>(); emiti("from", 0, b, width_t(b).underlying_value()); }
template <typename I> static void conv_cast() { I b = integer<I>(); emiti("from", 0, b, width_t::sat_cast(b).underlying_value()); }
static void one() {
    std::int32_t a = value(), b = value(); std::int16_t s = integer<std::int16_t>();
    switch (r.below(14)) {
        case 0: emit("floor", 0, W(0)); emitn("floor", a, W(a).floor()); emitn("ceil", a, W(a).ceil()); emitn("round", a, W(a).round()); emitn("nnfloor", a, W(a).non_negative_floor()); emitn("nnceil", a, W(a).non_negative_ceil()); break;
        case 1: if (fits(static_cast<__int128>(a) + b)) { emit2("add", a, b, (W(a) + W(b)).underlying_value()); width_t w = W(a); w += W(b); emit2("add", a, b, w.underlying_value()); } break;
        case 2: if (fits(static_cast<__int128>(a) - b)) { emit2("sub", a, b, (W(a) - W(b)).underlying_value()); width_t w = W(a); w -= W(b); emit2("sub", a, b, w.underlying_value()); } break;
        case 3: emit2("mul", a, b, (W(a) * W(b)).underlying_value()); emiti("mul", a, s, (W(a) * s).underlying_value()); emiti("mul", a, s, (s * W(a)).underlying_value()); break;
        case 4: if (b != 0 && fits(static_cast<__int128>(a) * 65536 / b)) { emit2("div", a, b, (W(a) / W(b)).underlying_value()); }
                if (s != 0 && fits(static_cast<__int128>(a) / s)) emiti("div", a, s, (W(a) / s).underlying_value());
                if (a != 0 && fits(static_cast<__int128>(s) * 65536 * 65536 / a)) emiti("rdiv", a, s, (s / W(a)).underlying_value()); break;
        case 5: if (a != -0x7FFFFFFF - 1) emit("neg", a, -W(a)); break;
        case 6: emit2("sat_add", a, b, strf::sat_add(W(a), W(b)).underlying_value()); emit2("sat_sub", a, b, strf::sat_sub(W(a), W(b)).underlying_value()); emit2("sat_mul", a, b, strf::sat_mul(W(a), W(b)).underlying_value()); break;
        case 7: sat_int<std::int16_t>(a); sat_int<std::int32_t>(a); sat_int<std::int64_t>(a); break;
        case 8: mul_int<std::int16_t>(a); mul_int<std::int32_t>(a); mul_int<std::int64_t>(a); mul_int<std::uint32_t>(a); mul_int<std::uint64_t>(a); break;
        case 9: cmp_int<std::int16_t>(a); cmp_int<std::int32_t>(a); cmp_int<std::int64_t>(a); cmp_int<std::uint16_t>(a); cmp_int<std::uint32_t>(a); cmp_int<std::uint64_t>(a); break;
        case 10: conv<std::int16_t>(); conv<std::int32_t>(); conv<std::int64_t>(); conv<std::uint16_t>(); conv<std::uint32_t>(); conv<std::uint64_t>(); conv_cast<std::int32_t>(); conv_cast<std::int64_t>(); conv_cast<std::uint32_t>(); conv_cast<std::uint64_t>(); break;
        case 11: if (r.chance(1, 4)) b = a; emit2("cmp", a, b, order(W(a), W(b))); break;
        case 12: if (r.chance(1, 4)) a = s * 65536; emiti("cmp", a, s, order(W(a), s)); emiti("rcmp", a, s, order(s, W(a))); break;
        default: if (fits(static_cast<__int128>(a) + s * 65536ll)) emiti("add", a, s, (r.chance(1, 2) ? W(a) + s : s + W(a)).underlying_value());
                 if (fits(static_cast<__int128>(a) - s * 65536ll)) emiti("sub", a, s, (W(a) - s).underlying_value());
                 if (fits(-static_cast<__int128>(a) + s * 65536ll)) emiti("rsub", a, s, (s - W(a)).underlying_value());
    }
}
static void literal(const char* text, width_t w) {
    std::string t = text; auto dot = t.find('.'); std::string f = dot == std::string::npos ? "" : t.substr(dot + 1);
    std::string d = "["; for (char c : f) { if (d.size() > 1) d += ','; d += c; }
    out->line(ev().str("op", "lit").raw("a", bytes(static_cast<std::int32_t>(std::atoi(t.c_str())))).raw("b", d + "]").raw("got", bytes(w.underlying_value())).done());
}
static void literals() {
    using namespace strf::width_literal;
#define L(x) literal(#x, x##_w);
    L(0) L(1) L(2) L(10) L(99) L(32767) L(0.0) L(0.5) L(0.25) L(0.75) L(.5) L(.125) L(1.) L(12.) L(0.1) L(0.2) L(0.3) L(0.7) L(0.9) L(0.99) L(0.999) L(0.9999) L(0.99999) L(0.999999) L(0.9999999) L(0.99999999) L(0.999999999) L(0.9999999999)
    L(0.99999999999) L(0.999999999999) L(0.9999999999999) L(0.99999999999999) L(0.999999999999999) L(0.9999999999999999) L(0.99999999999999999) L(0.999999999999999999) L(0.9999999999999999999)
    L(0.5000000000000) L(0.50000000000000) L(0.500000000000000) L(0.5000000000000000) L(0.50000000000000000) L(3.14159) L(3.14159265358979323846) L(2.718281828459045) L(2.71828182845904523536) L(1.41421356237309504880)
    L(0.00001) L(0.0000152587890625) L(0.00000762939453125) L(0.0000076294) L(0.0000228881835) L(0.0000228881836) L(0.00000000000000000001) L(0.000030517578125) L(32767.9999) L(32767.99999) L(32767.5) L(0.0123456789012345) L(0.01234567890123456) L(0.012345678901234567) L(7.0000152587890625) L(100.050) L(1000.001) L(0.333333333333333333333) L(0.6666666666666666666) L(5.55555555555555555)
#undef L
}
int main(int argc, char** argv) {
    args a(argc, argv); r = rng(a.seed); out_file f(a.out.c_str()); out = &f;
    literals();
    while (static_cast<long>(f.count()) < a.n) { one(); f.sync(); }
}
