// Floating point values and their description.
#ifndef FLOATS_HPP
#define FLOATS_HPP
#include <cmath>
#include <cstring>
#include <cstdlib>
#include "print.hpp"
namespace vt { inline namespace VT_ENTRY(unit_) {
template <typename F> struct bits_of { using t = std::uint64_t; };
template <> struct bits_of<float> { using t = std::uint32_t; };
template <typename F> typename bits_of<F>::t to_bits(F f) { typename bits_of<F>::t b; std::memcpy(&b, &f, sizeof b); return b; }
template <typename F> F from_bits(std::uint64_t u) { auto b = static_cast<typename bits_of<F>::t>(u); F f; std::memcpy(&f, &b, sizeof b); return f; }
template <typename F> const char* float_name() { return sizeof(F) == 8 ? "double" : "float"; }
template <typename F> F parse_f(const std::string& s) { return sizeof(F) == 8 ? static_cast<F>(std::strtod(s.c_str(), nullptr)) : static_cast<F>(std::strtof(s.c_str(), nullptr)); }
// a decimal with n significant digits
template <typename F> F random_decimal(int maxdig) {
    std::string s; int n = gen.range(1, maxdig); int style = static_cast<int>(gen.below(4));
    for (int i = 0; i < n; ++i) s += static_cast<char>(style == 0 ? '9' : style == 1 ? (i + 1 == n ? '5' : '0' + gen.range(0, 9)) : style == 2 ? (gen.chance(1, 2) ? '0' : '9') : '0' + gen.range(0, 9));
    if (style == 0 && gen.chance(1, 2)) s.back() = static_cast<char>('0' + gen.range(0, 9));
    int e = gen.chance(1, 2) ? gen.range(-8, 8) - (gen.chance(1, 2) ? n : 0) : gen.chance(1, 2) ? gen.range(-25, 25) : gen.range(sizeof(F) == 8 ? -330 : -50, sizeof(F) == 8 ? 308 : 38);
    return parse_f<F>(s + "e" + std::to_string(e));
}
template <typename F> F random_float() {
    constexpr int mb = sizeof(F) == 8 ? 52 : 23; constexpr std::uint64_t emax = sizeof(F) == 8 ? 2047 : 255, one = 1;
    F f;
    switch (gen.below(14)) {
        case 0: f = from_bits<F>(gen.next()); break;
        case 1: { std::uint64_t m = gen.next() & ((one << mb) - 1); f = from_bits<F>((static_cast<std::uint64_t>(emax / 2 + gen.below(60)) - 20) << mb | m); break; }        // moderate exponents
        case 2: f = from_bits<F>(static_cast<std::uint64_t>(gen.below(static_cast<unsigned>(emax))) << mb); break;                                                          // powers of two
        case 3: f = from_bits<F>((static_cast<std::uint64_t>(gen.below(static_cast<unsigned>(emax))) << mb) + static_cast<std::uint64_t>(gen.chance(1, 2) ? 1 : -1)); break;   // and their neighbours
        case 4: f = from_bits<F>(gen.next() & ((one << gen.range(1, mb)) - 1)); break;                                                                                     // subnormals
        case 5: { static const char* v[] = {"0", "1", "0.1", "0.5", "10", "100", "1e5", "1e6", "123456", "1e15", "1e16", "1e17", "1e22", "1e23", "9007199254740993", "5e-324", "1.7976931348623157e308", "2.2250738585072014e-308", "1.1754943508222875e-38", "3.4028234663852886e38", "0.0001", "0.00001", "0.001", "1e-5", "1e-10", "1e10", "1e99", "1e100", "1e-99", "1e-100", "0.3", "2.5", "0.125", "1.5"};
            f = parse_f<F>(v[gen.below(sizeof(v) / sizeof(v[0]))]); break; }
        case 6: { static const std::uint64_t k[] = {0, 1, 2}; std::uint64_t u = emax << mb; u += gen.chance(1, 2) ? 0 : k[gen.below(3)] ? gen.next() & ((one << mb) - 1) : one << (mb - 1); f = from_bits<F>(u); break; }   // inf, nan
        case 7: f = static_cast<F>(static_cast<double>(gen.range(0, 1000000)) / static_cast<double>(one << gen.below(12))); break;                                           // exact ties
        case 8: { std::uint64_t m = (gen.next() >> gen.range(64 - mb, 63)) << gen.below(20); m &= (one << mb) - 1; f = from_bits<F>((static_cast<std::uint64_t>(emax / 2 + gen.below(8)) - 4) << mb | m); break; }
        case 9: { std::uint64_t m = ((one << mb) - 1) & ~((one << (4 * gen.range(0, mb / 4))) - 1); if (gen.chance(1, 2)) m ^= one << gen.below(mb); std::uint64_t e = gen.chance(1, 3) ? 0 : gen.below(static_cast<unsigned>(emax)); f = from_bits<F>(e << mb | m); break; }   // ...fff (hexadecimal carries)
        default: f = random_decimal<F>(gen.chance(1, 2) ? 5 : sizeof(F) == 8 ? 17 : 9); break;
    }
    if (gen.chance(1, 3)) f = -f;
    return f;
}
template <typename F> std::string float_bytes(F f) { return bytes_le(to_bits(f)); }
struct ffmt { strf::float_notation nt = strf::float_notation::general; int prec = -1, pad0 = 0, sg = 0; bool pt = false, punct = false;
    template <typename F> std::string json(F v, const align& f, bool fast = false) const {
        static const char* n[] = {"fixed", "sci", "gen", "hex"}; static const char* sn[] = {"neg", "pos", "fill"};
        ev e; if (fast) e.boolean("fast", true); return e.str("k", "flt").str("ty", float_name<F>()).raw("v", float_bytes(v)).str("nt", n[static_cast<int>(nt)]).num("prec", prec).num("pad0", pad0).str("sign", sn[sg]).boolean("pt", pt).boolean("punct", punct).raw("f", f.json()).done(); }
    strf::showsign sign() const { return sg == 0 ? strf::showsign::negative_only : sg == 1 ? strf::showsign::positive_also : strf::showsign::fill_instead_of_positive; }
    strf::float_format full() const { strf::float_format f; f.precision = prec; f.pad0width = pad0; f.notation = nt; f.sign = sign(); f.showpoint = pt; f.punctuate = punct; return f; }
    strf::float_format_no_punct nopunct() const { strf::float_format_no_punct f; f.precision = prec; f.pad0width = pad0; f.notation = nt; f.sign = sign(); f.showpoint = pt; return f; }
    // (kf: the formats with the known finding KF-GEN-ALT too)
    static ffmt random(bool kf = true) { ffmt f = random_(); if (!kf && f.nt == strf::float_notation::general && f.prec >= 0) f.pt = false; return f; }
    static ffmt random_() { ffmt f; f.nt = static_cast<strf::float_notation>(gen.below(4)); f.prec = gen.chance(1, 3) ? (gen.chance(1, 8) ? -gen.range(1, 5) : -1) : gen.chance(1, 8) ? gen.range(0, 120) : gen.range(0, gen.chance(1, 2) ? 5 : 20);
        f.pad0 = gen.chance(1, 2) ? 0 : gen.chance(1, 8) ? gen.range(0, 120) : gen.range(0, 25); f.sg = static_cast<int>(gen.below(3)); f.pt = gen.chance(1, 3); f.punct = gen.chance(1, 2); return f; }
};
} }
#endif
