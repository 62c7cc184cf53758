// The width calculators, called directly on every charset (C18: mode "std"; C19: mode "simple").
#include <strf.hpp>
#include <memory>
#include "vt.hpp"
#include "gen_grapheme.hpp"
#include "charsets_list.hpp"
using namespace vt;
static out_file* out;
static rng r(1);
static std::string mode;
static strf::width_t W(long long u) { return strf::width_t::from_underlying(static_cast<std::int32_t>(u)); }
// limits: integers near the text's width, fractions, negative, extreme
static std::int32_t random_limit(long n) {
    static const std::int32_t fr[] = {1, 0x7FFF, 0x8000, 0x8001, 0xFFFF, 0x4000};
    std::int64_t w;
    switch (r.below(8)) {
        case 0: w = 0x7FFFFFFF; break;
        case 1: w = 0; break;
        case 2: w = r.chance(1, 2) ? -static_cast<std::int64_t>(r.below(0x7FFFFFFF)) : -static_cast<std::int64_t>(r.below(200000)); break;
        case 3: w = static_cast<std::int64_t>(n) * 65536; break;
        case 4: w = static_cast<std::int64_t>(n + r.range(-2, 2)) * 65536; break;
        default: w = static_cast<std::int64_t>(r.below(static_cast<unsigned>(2 * n + 3))) * 65536;
    }
    if (r.chance(1, 3) && w > -65536 && w < 0x7FFF0000) w += fr[r.below(6)];
    if (w > 0x7FFFFFFF) w = 0x7FFFFFFF;
    return static_cast<std::int32_t>(w);
}
template <typename CS, typename C, typename WC> static void call(const CS& cs, const WC& wc, const char* calc, const std::basic_string<C>& s) {
    // an exact heap block: reading outside is seen by the sanitizer
    std::unique_ptr<C[]> b(new C[s.size()]); std::copy(s.begin(), s.end(), b.get()); const C* p = b.get(); const C* e = p + s.size();
    const bool big = s.size() > 2000;
    for (int k = 0; k < 2; ++k) {
        long lim = random_limit(static_cast<long>(s.size() < 40000 && sizeof(C) == 1 && !big ? s.size() / 2 : s.size()));
        if (big && r.chance(1, 2)) lim = 0x7FFFFFFF - static_cast<long>(r.below(200000));
        ev x; x.str("calc", calc).str("e", cs.name()).num("lim", lim);
        if (big) x.num("big", static_cast<long>(s.size())); else x.units("in", s.begin(), s.end());
        if (k == 0) x.str("k", big ? "bigw" : "width").num("w", wc.str_width(cs, W(lim), p, e).underlying_value());
        else { auto f = wc.str_width_and_pos(cs, W(lim), p, e); x.str("k", big ? "bigf" : "fit").num("w", f.width.underlying_value()).num("n", f.ptr - p); }
        out->line(x.done());
    }
    if (!s.empty()) { C u = s[r.below(static_cast<unsigned>(s.size()))];
        out->line(ev().str("k", "unit").str("calc", calc).str("e", cs.name()).num("u", unit(u)).num("w", wc.char_width(cs, u).underlying_value()).done()); }
}
template <typename CS, typename C> static void one(const CS& cs, bool utf) {
    bool std_ = mode == "std", fast = !std_ && r.chance(1, 3);
    int n = r.chance(1, 3) ? r.range(0, 6) : r.chance(1, 2) ? 28 + r.range(0, 10) + static_cast<int>(r.below(2)) * 32 : r.range(0, 110);
    std::basic_string<C> s;
    if (!std_ && r.chance(1, 150)) s.assign(r.chance(1, 2) ? 32760 + r.below(16) : 32000 + r.below(70000), static_cast<C>('x'));
    else if (!utf) { for (int i = 0; i < n; ++i) s += static_cast<C>(r.below(256)); }
    else if (r.chance(std_ ? 4 : 2, 5)) {
        auto t = grapheme_text(r, n);
        // a cluster that spans the places where the implementation may cut the text
        if (std_ && r.chance(1, 2)) { std::size_t at = (1 + r.below(3)) * 32; if (t.size() > at) for (int k = r.range(-2, 3), j = 0; j < 4; ++j) { std::size_t q = at - 2 + static_cast<std::size_t>(j); if (q < t.size() && k > 0) t[q] = static_cast<char32_t>(r.chance(1, 2) ? 0x301 : grapheme_cp(r)); } }
        s = encode_as<C>(t);
    } else s = utf_text<C>(r, n, r.chance(1, 2) ? 300 : 0);
    if (std_) { call(cs, strf::std_width_calc, "std", s); return; }
    switch (fast && (!utf || r.chance(1, 2)) ? 2u : r.below(2)) {
        case 0: call(cs, strf::fast_width, "fast", s); break;
        case 1: call(cs, strf::width_as_u32len, "u32", s); break;
        default: // only for well-formed text
            if (utf && s.size() < 2000) s = utf_text<C>(r, n, 0);
            call(cs, strf::width_as_fast_u32len, "fastu32", s);
    }
}
int main(int argc, char** argv) {
    args a(argc, argv); r = rng(a.seed); mode = a.mode; out_file f(a.out.c_str()); out = &f;
    static const std::vector<strf::dynamic_charset<char>> sb = {
#define X(id) strf::id##_t<char>().to_dynamic(),
        VT_SB_CHARSETS(X)
#undef X
    };
    while (static_cast<long>(f.count()) < a.n) {
        switch (r.below(8)) {
            case 0: one<strf::utf_t<char>, char>(strf::utf_t<char>(), true); break;
            case 1: one<strf::dynamic_charset<char>, char>(strf::utf_t<char>().to_dynamic(), true); break;
            case 2: one<strf::utf_t<char16_t>, char16_t>(strf::utf_t<char16_t>(), true); break;
            case 3: one<strf::utf_t<char32_t>, char32_t>(strf::utf_t<char32_t>(), true); break;
            case 4: one<strf::utf_t<wchar_t>, wchar_t>(strf::utf_t<wchar_t>(), true); break;
            case 5: one<strf::utf_t<char8_t>, char8_t>(strf::utf_t<char8_t>(), true); break;
            case 6: one<strf::dynamic_charset<char>, char>(r.pick(sb), false); break;
            default: one<strf::dynamic_charset<char16_t>, char16_t>(strf::utf_t<char16_t>().to_dynamic(), true);
        }
        if (mode == "std" && r.chance(1, 4)) { char32_t c = static_cast<char32_t>(r.chance(1, 8) ? r.below(0x7FFFFFFF) : grapheme_cp(r)); out->line(ev().str("k", "cp").num("u", unit(c)).num("w", strf::std_width_calc.char32_width(c).underlying_value()).done()); }
        f.sync();
    }
}
