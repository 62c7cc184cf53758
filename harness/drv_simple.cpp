// Characters (one and many), booleans and pointers (C24, C05, C01).
#include "print.hpp"
using namespace vt;
namespace {
struct env_t {
    cs_pick cs = random_charset();
    int lc = static_cast<int>(gen.below(3)), lc2 = static_cast<int>(gen.below(3)), w = static_cast<int>(gen.below(4));
    std::string fs(const char* on2) const { return jlist({fcase(lc), fcase(lc2, on2), fwcalc(w)}); }
};
// width calculators have different types: the call is made with each of them
#define WITH_WCALC(e, CALL) switch (e.w) { \
    case 0: { auto wc = strf::std_width_calc; CALL; break; } \
    case 1: { auto wc = strf::fast_width; CALL; break; } \
    case 2: { auto wc = strf::width_as_u32len; CALL; break; } \
    default: { auto wc = strf::width_as_fast_u32len; CALL; break; } }
template <typename T> struct only { template <typename U> struct pred : std::is_same<T, U> {}; };
std::string jchr(bool c32, long long v, long long n, const align& a) { return jlist({ev().str("k", "chr").str("ty", c32 ? "char32" : "char").num("v", v).num("n", n).raw("f", a.json()).done()}); }
ch_t random_unit() {
    switch (gen.below(5)) {
        case 0: return static_cast<ch_t>(gen.range(0x20, 0x7E));
        case 1: return static_cast<ch_t>(gen.range(0, 0x9F));
        case 2: return static_cast<ch_t>(random_cp_or_bad());
        default: return static_cast<ch_t>(sizeof(ch_t) == 1 ? gen.next() : gen.chance(1, 4) ? random_any_unit() : random_cp_or_bad());
    }
}
int random_count() { return gen.chance(1, 5) ? 0 : gen.chance(1, 40) ? gen.range(0, 1500) : gen.range(0, 70); }
template <bool C32, typename T> void chars(T c) {
    env_t e; align a = random_align(); auto pk0 = e.cs.cs; int n = random_count(), w = a.w / 65536; align na = no_align(), iw = a; iw.w = w * 65536;
    auto fs = e.fs("[\"none\"]");
#define P strf::pack(pk0, wc, case_of(e.lc))
#define J(cnt, al) e.cs.name, fs, P, jchr(C32, unit_val(c), cnt, al)
    switch (gen.below(12)) {
        case 0: case 1: WITH_WCALC(e, emit(J(1, na), c)) break;
        case 2: emit(e.cs.name, "[]", strf::pack(e.cs.cs), jchr(C32, unit_val(c), 1, na), c); break;
        case 3: WITH_WCALC(e, emit(J(n, na), strf::multi(c, n))) break;
        case 4: WITH_WCALC(e, emit(J(1, a), strf::fmt(c).set_alignment_format(a.get()))) break;
        case 5: WITH_WCALC(e, emit(J(n, a), strf::multi(c, n).set_alignment_format(a.get()))) break;
        case 6: iw.al = '<'; WITH_WCALC(e, emit(J(n, iw), strf::multi(c, n).fill(a.fill) < w)) break;
        case 7: iw.al = '^'; WITH_WCALC(e, emit(J(n, iw), strf::center(c, w, a.fill).multi(n))) break;
        case 8: iw.al = '>'; WITH_WCALC(e, emit(J(1, iw), strf::right(c, w, a.fill))) break;
        default: WITH_WCALC(e, emit(J(n, a), strf::fmt(c).multi(n).set_alignment_format(a.get())))
    }
#undef J
#undef P
}
void bools() {
    env_t e; align a = random_align(); int w = a.w / 65536; align iw = a; iw.w = w * 65536; bool v = gen.chance(1, 2);
    auto j = [&](const align& f) { return jlist({ev().str("k", "bool").boolean("v", v).raw("f", f.json()).done()}); };
    auto fs = e.fs("[\"bool\"]"); auto pk = strf::pack(e.cs.cs, case_of(e.lc), strf::constrain<only<bool>::pred>(case_of(e.lc2)));
    switch (gen.below(6)) {
        case 0: emit(e.cs.name, fs, pk, j(no_align()), v); break;
        case 1: emit(e.cs.name, "[]", strf::pack(e.cs.cs), j(no_align()), v); break;
        case 2: iw.al = '>'; emit(e.cs.name, fs, pk, j(iw), strf::right(v, w, a.fill)); break;
        case 3: iw.al = '^'; emit(e.cs.name, fs, pk, j(iw), strf::fmt(v).fill(a.fill) ^ w); break;
        default: emit(e.cs.name, fs, pk, j(a), strf::fmt(v).set_alignment_format(a.get()));
    }
}
void pointers() {
    env_t e; align a = random_align(40); int w = a.w / 65536; align iw = a; iw.w = w * 65536;
    std::size_t n = random_int<unsigned long>(16); const void* v = reinterpret_cast<const void*>(n);
    auto j = [&](const align& f) { return jlist({ev().str("k", "ptr").raw("v", bytes_le(n)).raw("f", f.json()).done()}); };
    auto fs = e.fs("[\"ptr\"]"); auto pk = strf::pack(e.cs.cs, case_of(e.lc), strf::constrain<only<const void*>::pred>(case_of(e.lc2)));
    switch (gen.below(5)) {
        case 0: emit(e.cs.name, fs, pk, j(no_align()), v); break;
        case 1: emit(e.cs.name, fs, pk, j(no_align()), strf::fmt(v)); break;
        case 2: iw.al = '<'; emit(e.cs.name, fs, pk, j(iw), strf::left(v, w, a.fill)); break;
        default: emit(e.cs.name, fs, pk, j(a), strf::fmt(v).set_alignment_format(a.get()));
    }
}
} // namespace
void VT_ENTRY(run_simple_)() {
    switch (gen.below(8)) {
        case 0: bools(); break;
        case 1: pointers(); break;
        case 2: case 3: case 4: chars<std::is_same<ch_t, char32_t>::value>(random_unit()); break;
        default: chars<true>(static_cast<char32_t>(gen.chance(1, 6) ? random_any_unit32() : random_cp_or_bad()));
    }
}
