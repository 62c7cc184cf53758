// Integers: every expression form, type, base, sign, prefix, precision, zero padding, punctuation, alignment (C14, C15, C05, C01).
#include "print.hpp"
using namespace vt;
namespace {
template <typename I> static std::string jint(I v, int base, const char* sign, bool sb, bool punct, int prec, int pad0, const align& f) {
    return ev().str("k", "int").str("ty", type_name<I>()).boolean("sg", std::is_signed<I>::value).raw("v", bytes_le(v)).num("base", base).boolean("sb", sb).boolean("punct", punct)
        .num("prec", prec).num("pad0", pad0).str("sign", sign).raw("f", f.json()).done();
}
static int small_prec() { return gen.chance(1, 3) ? 0 : gen.chance(1, 10) ? gen.range(0, 90) : gen.range(0, 25); }
// facets used by all forms: dynamic numpuncts for all bases
struct env_t {
    cs_pick cs = random_charset();
    int lc = static_cast<int>(gen.below(3));
    punct_spec p10 = random_punct(), p16 = random_punct(true), p8 = random_punct(true), p2 = random_punct(true);
    std::string fs;
    env_t() { fs = jlist({fcase(lc), fpunct(10, p10), fpunct(16, p16), fpunct(8, p8), fpunct(2, p2)}); }
    auto pack() const { return strf::pack(cs.cs, case_of(lc), make_punct<10>(p10), make_punct<16>(p16), make_punct<8>(p8), make_punct<2>(p2)); }
};
template <int Base, bool Punct, typename I> static void static_base(I v, bool nofacets) {
    env_t e; align a = gen.chance(2, 3) ? random_align() : no_align();
    strf::int_format_static_base_and_punct<Base, Punct> f;
    f.precision = small_prec(); f.pad0width = small_prec();
    int sg = Base == 10 ? static_cast<int>(gen.below(3)) : 0;
    static const char* sn[] = {"neg", "pos", "fill"};
    f.sign = sg == 0 ? strf::showsign::negative_only : sg == 1 ? strf::showsign::positive_also : strf::showsign::fill_instead_of_positive;
    f.showbase = Base != 10 && gen.chance(1, 2);
    auto x = strf::fmt(v).set_int_format(f);
    auto j = jlist({jint(v, Base, sn[sg], f.showbase, Punct, f.precision, f.pad0width, a)});
    if (nofacets) { if (a.has) emit(strf::utf_t<ch_t>().name(), "[]", strf::pack(), j, x.set_alignment_format(a.get())); else emit(strf::utf_t<ch_t>().name(), "[]", strf::pack(), j, x); }
    else if (a.has) emit(e.cs.name, e.fs, e.pack(), j, x.set_alignment_format(a.get()));
    else emit(e.cs.name, e.fs, e.pack(), j, x);
}
template <int Base, typename I> static void simple_base(I v) {
    env_t e; align a = gen.chance(2, 3) ? random_align() : no_align();
    strf::int_format_no_pad0_nor_punct<Base> f;
    int sg = Base == 10 ? static_cast<int>(gen.below(3)) : 0;
    static const char* sn[] = {"neg", "pos", "fill"};
    f.sign = sg == 0 ? strf::showsign::negative_only : sg == 1 ? strf::showsign::positive_also : strf::showsign::fill_instead_of_positive;
    f.showbase = Base != 10 && gen.chance(1, 2);
    auto x = strf::fmt(v).set_int_format(f);
    auto j = jlist({jint(v, Base, sn[sg], f.showbase, false, 0, 0, a)});
    if (a.has) emit(e.cs.name, e.fs, e.pack(), j, x.set_alignment_format(a.get()));
    else emit(e.cs.name, e.fs, e.pack(), j, x);
}
template <typename I> static void dynamic(I v0) {
    env_t e; align a = gen.chance(2, 3) ? random_align() : no_align();
    static const int bs[] = {2, 8, 10, 16};
    strf::int_format f;
    f.base = bs[gen.below(4)];
    I v = gen.chance(1, 2) ? v0 : random_int<I>(f.base);
    f.precision = small_prec(); f.pad0width = small_prec(); f.punctuate = gen.chance(1, 2);
    int sg = static_cast<int>(gen.below(3));
    static const char* sn[] = {"neg", "pos", "fill"};
    f.sign = sg == 0 ? strf::showsign::negative_only : sg == 1 ? strf::showsign::positive_also : strf::showsign::fill_instead_of_positive;
    f.showbase = gen.chance(1, 2);
    auto x = strf::fmt(v).set_int_format(f);
    auto j = jlist({jint(v, f.base, sn[sg], f.showbase, f.punctuate, f.precision, f.pad0width, a)});
    if (a.has) emit(e.cs.name, e.fs, e.pack(), j, x.set_alignment_format(a.get()));
    else emit(e.cs.name, e.fs, e.pack(), j, x);
}
template <typename I> static void plain(I v) {
    env_t e; align a = gen.chance(1, 2) ? random_align() : no_align();
    auto j = jlist({jint(v, 10, "neg", false, false, 0, 0, a)});
    if (a.has) emit(e.cs.name, e.fs, e.pack(), j, strf::fmt(v).set_alignment_format(a.get()));
    else emit(e.cs.name, e.fs, e.pack(), j, v);
}
// the functions and operators of the syntax, in several orders
template <typename I> static void syntax(I v) {
    env_t e; align a = random_align(30, false); char32_t c = a.fill; int w = a.w / 65536, p = small_prec(), z = small_prec();
    const char* cs = e.cs.name; auto pk = e.pack(); const auto& fs = e.fs;
    align n = no_align(), nw = a; nw.fill = U' ';
#define E(AL, CH, base, sign, sb, punct, prec, pad0, expr) { auto b = AL; if (CH) b.al = CH; emit(cs, fs, pk, jlist({jint(v, base, sign, sb, punct, prec, pad0, b)}), expr); break; }
    switch (gen.below(24)) {
        case 0: E(n, 0, 16, "neg", true, false, 0, 0, *strf::hex(v))
        case 1: E(n, 0, 2, "neg", true, false, 0, 0, *strf::bin(v))
        case 2: E(n, 0, 8, "neg", true, false, 0, 0, *strf::oct(v))
        case 3: E(a, '<', 16, "neg", true, true, p, 0, *!strf::hex(v).p(p).fill(c) < w)
        case 4: E(a, '^', 8, "neg", false, true, 0, z, strf::punct(v).oct().fill(c).pad0(z) ^ w)
        case 5: E(a, '>', 10, "pos", false, true, 0, z, (+!strf::fmt(v).pad0(z)).fill(c) > w)
        case 6: E(a, '>', 10, "fill", false, false, p, z, ~strf::fmt(v).p(p).pad0(z).fill(c) > w)
        case 7: E(nw, '<', 10, "pos", false, false, 0, 0, +strf::dec(v) < w)
        case 8: E(nw, '^', 10, "fill", false, false, 0, 0, ~strf::dec(v) ^ w)
        case 9: E(n, 0, 10, "fill", false, true, 0, 0, !strf::dec(v).fill_sign())
        case 10: E(n, 0, 10, "pos", false, false, 0, 0, +strf::fmt(v))
        case 11: E(n, 0, 10, "neg", false, false, p, 0, strf::fmt(v).p(p))
        case 12: E(n, 0, 10, "neg", false, false, 0, z, strf::fmt(v).pad0(z))
        case 13: E(n, 0, 10, "neg", false, true, 0, 0, strf::punct(v))
        case 14: E(a, '>', 10, "neg", false, false, 0, 0, strf::right(v, w, c))
        case 15: E(a, '<', 10, "neg", false, false, 0, 0, strf::left(v, w, c))
        case 16: E(a, '^', 10, "neg", false, false, 0, 0, strf::center(v, w, c))
        case 17: E(a, '^', 10, "neg", false, true, 0, 0, !strf::center(v, w, c))
        case 18: E(a, '>', 16, "neg", false, false, p, 0, strf::right(v, w, c).hex().p(p))
        case 19: E(n, 0, 16, "neg", false, true, p, z, !strf::fmt(v).p(p).pad0(z).hex())
        case 20: E(n, 0, 2, "neg", true, false, p, z, *strf::fmt(v).base(2).p(p).pad0(z))
        case 21: E(n, 0, 16, "neg", true, false, 0, 0, (*strf::hex(v)).base(16))
        case 22: E(n, 0, 16, "neg", false, true, p, z, strf::punct(v).p(p).pad0(z).base(16))
        default: E(nw, '>', 16, "neg", true, false, 0, 0, *(strf::hex(v) > w))
    }
#undef E
}
template <typename I> static void one() {
    switch (mode == "punct" ? gen.range(10, 15) : gen.range(0, 16)) {
        case 0: plain<I>(random_int<I>()); break;
        case 1: simple_base<10, I>(random_int<I>()); break;
        case 2: simple_base<16, I>(random_int<I>(16)); break;
        case 3: simple_base<8, I>(random_int<I>(8)); break;
        case 4: simple_base<2, I>(random_int<I>(2)); break;
        case 5: case 6: static_base<10, false, I>(random_int<I>(), gen.chance(1, 4)); break;
        case 7: static_base<16, false, I>(random_int<I>(16), gen.chance(1, 4)); break;
        case 8: static_base<8, false, I>(random_int<I>(8), gen.chance(1, 4)); break;
        case 9: static_base<2, false, I>(random_int<I>(2), gen.chance(1, 4)); break;
        case 10: case 11: static_base<10, true, I>(random_int<I>(), gen.chance(1, 8)); break;
        case 12: static_base<16, true, I>(random_int<I>(16), gen.chance(1, 8)); break;
        case 13: static_base<8, true, I>(random_int<I>(8), gen.chance(1, 8)); break;
        case 14: static_base<2, true, I>(random_int<I>(2), gen.chance(1, 8)); break;
        default: dynamic<I>(random_int<I>()); break;
    }
}
} // namespace
void VT_ENTRY(run_int_)() {
    switch (gen.below(10)) {
#if VT_CHAR == 0
        case 0: case 1: one<short>(); break;
#elif VT_CHAR == 1
        case 0: case 1: case 2: one<unsigned>(); break;
        case 3: case 4: case 5: one<unsigned long>(); break;
#elif VT_CHAR == 2
        case 0: case 1: case 2: one<unsigned short>(); break;
        case 3: case 4: case 5: one<unsigned long long>(); break;
#elif VT_CHAR == 3
        case 0: case 1: case 2: one<long>(); break;
        case 3: case 4: case 5: one<int>(); break;
#endif
        case 6: case 7: syntax<int>(random_int<int>()); break;
        default: one<long long>(); break;
    }
}
