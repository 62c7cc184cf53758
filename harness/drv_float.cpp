// Floating point numbers: every notation, precision, sign, point, punctuation, padding and alignment (C16).
#include "floats.hpp"
using namespace vt;
namespace {
struct env_t {
    cs_pick cs = random_charset();
    int lc = static_cast<int>(gen.below(3));
    punct_spec p10 = random_punct(), p16 = random_punct();
    std::string fs;
    env_t() { fs = jlist({fcase(lc), fpunct(10, p10), fpunct(16, p16)}); }
    auto pack() const { return strf::pack(cs.cs, case_of(lc), make_punct<10>(p10), make_punct<16>(p16)); }
};
template <typename F> static void plain(F v) {
    env_t e; align a = gen.chance(1, 2) ? random_align() : no_align(); ffmt f;
    auto j = jlist({f.json(v, a)});
    if (gen.chance(1, 4)) { emit(strf::utf_t<ch_t>().name(), "[]", strf::pack(), jlist({f.json(v, no_align())}), v); return; }
    if (a.has) emit(e.cs.name, e.fs, e.pack(), j, strf::fmt(v).set_alignment_format(a.get()));
    else if (gen.chance(1, 2)) emit(e.cs.name, e.fs, e.pack(), j, v);
    else emit(e.cs.name, e.fs, e.pack(), j, strf::fmt(v));
}
template <typename F> static void full(F v) {
    env_t e; align a = gen.chance(1, 2) ? random_align() : no_align(); ffmt f = ffmt::random(VT_ASPECT != 1);
    auto j = jlist({f.json(v, a)});
    if (a.has) emit(e.cs.name, e.fs, e.pack(), j, strf::fmt(v).set_float_format(f.full()).set_alignment_format(a.get()));
    else emit(e.cs.name, e.fs, e.pack(), j, strf::fmt(v).set_float_format(f.full()));
}
template <typename F> static void nopunct(F v) {
    env_t e; align a = gen.chance(1, 2) ? random_align() : no_align(); ffmt f = ffmt::random(VT_ASPECT != 1); f.punct = false;
    auto j = jlist({f.json(v, a)});
    if (a.has) emit(e.cs.name, e.fs, e.pack(), j, strf::fmt(v).set_float_format(f.nopunct()).set_alignment_format(a.get()));
    else emit(e.cs.name, e.fs, e.pack(), j, strf::fmt(v).set_float_format(f.nopunct()));
}
// the functions and operators of the syntax, in several orders
template <typename F> static void syntax(F v) {
    env_t e; align a = random_align(40, false); char32_t c = a.fill; int w = a.w / 65536, p = gen.range(0, 18), z = gen.range(0, 30);
    const char* cs = e.cs.name; auto pk = e.pack(); const auto& fs = e.fs;
    align n = no_align(), nw = a; nw.fill = U' ';
    using N = strf::float_notation;
#define E(AL, CH, NT, P, Z, SG, PT, PU, expr) { auto b = AL; if (CH) b.al = CH; ffmt f; f.nt = N::NT; f.prec = P; f.pad0 = Z; f.sg = SG; f.pt = PT; f.punct = PU; emit(cs, fs, pk, jlist({f.json(v, b)}), expr); break; }
    switch (gen.below(22)) {
        case 0: E(n, 0, fixed, -1, 0, 0, false, false, strf::fixed(v))
        case 1: E(n, 0, fixed, p, 0, 0, false, false, strf::fixed(v, p))
        case 2: E(n, 0, scientific, -1, 0, 0, false, false, strf::sci(v))
        case 3: E(n, 0, scientific, p, 0, 0, false, false, strf::sci(v, p))
        case 4: E(n, 0, hex, -1, 0, 0, false, false, strf::hex(v))
        case 5: E(n, 0, general, -1, 0, 0, false, false, strf::gen(v))
        case 6: E(n, 0, general, p, 0, 0, false, false, strf::gen(v, p))
        case 7: E(n, 0, general, -1, 0, 1, false, false, +strf::fmt(v))
        case 8: E(n, 0, general, -1, 0, 2, false, false, ~strf::fmt(v))
        case 9: E(n, 0, general, -1, 0, 0, true, false, *strf::fmt(v))
        case 10: E(n, 0, general, -1, 0, 0, false, true, !strf::fmt(v))
        case 11: E(n, 0, general, -1, 0, 0, false, true, strf::punct(v))
        case 12: E(n, 0, general, -1, z, 0, false, false, strf::fmt(v).pad0(z))
        case 13: E(a, '>', fixed, p, z, 1, true, true, *+!strf::fixed(v).p(p).pad0(z).fill(c) > w)
        case 14: E(a, '<', scientific, p, z, 2, false, true, !strf::sci(v).fill_sign().p(p).fill(c).pad0(z) < w)
        case 15: E(a, '^', hex, p, z, 2, true, false, ~*strf::hex(v).p(p).pad0(z).fill(c) ^ w)
        case 16: E(a, '^', general, -1, 0, 0, false, true, strf::center(v, w, c).punct())
        case 17: E(a, '>', fixed, -1, 0, 1, false, false, +strf::right(v, w, c).fixed())
        case 18: E(a, '<', scientific, p, 0, 0, true, false, *strf::left(v, w, c).sci().p(p))
        case 19: E(nw, '>', hex, p, 0, 1, false, true, +strf::punct(v).hex().p(p) > w)
        case 20: E(n, 0, general, p, 0, 0, false, false, strf::sci(v).p(p).gen())
        default: E(n, 0, general, -1, 0, 0, false, false, strf::sci(v).p(p).set_float_format(strf::default_float_format()))
    }
#undef E
}
template <typename F> static void one() {
    F v = random_float<F>();
    switch (gen.below(10)) { case 0: plain<F>(v); break; case 1: case 2: case 3: syntax<F>(v); break; case 4: case 5: nopunct<F>(v); break; default: full<F>(v); }
}
} // namespace
void VT_ENTRY(run_float_)() { if (gen.chance(1, 3)) one<float>(); else one<double>(); }
