// Calls with several arguments of every kind, on every kind of destination (C01).
#include <string_view>
#include "print.hpp"
#include "gen_grapheme.hpp"
#include "items.hpp"
using namespace vt;
namespace {
// how an item is passed
template <typename T> const T& arg(const T& t) { return t; }
auto arg(const std::pair<std::basic_string<ch_t>, std::pair<align, int>>& x) { return strf::fmt(x.first).p(strf::width_t::from_underlying(x.second.second)).set_alignment_format(x.second.first.get()); }
template <typename... I> void call(const I&... i) {
    auto e = random_charset(); int lc = static_cast<int>(gen.below(3)); auto p10 = random_punct(), p16 = random_punct(), p2 = random_punct();
    std::string fs = jlist({ev().str("c", std::string("cs.") + char_name()).raw("on", "[\"*\"]").str("v", e.name).done(), fcase(lc), fpunct(10, p10), fpunct(16, p16), fpunct(2, p2)});
    emit(e.name, fs, strf::pack(e.cs, case_of(lc), make_punct<10>(p10), make_punct<16>(p16), make_punct<2>(p2)), jlist({i.j...}), arg(i.a)...);
}
} // namespace
void VT_ENTRY(run_all_)() {
    switch (gen.below(18)) {
        case 0: call(g_int(), g_str(), g_char()); break;
        case 1: { auto t = g_tr(); call(g_hex(), item<decltype(strf::transcode(t.a))>{t.j, strf::transcode(t.a)}, g_bool(), g_ull()); break; }
        case 2: call(g_strf(), g_ptr(), g_c32()); break;
        case 3: call(g_dec(), g_dec()); break;
        case 4: { auto t = g_sani(); call(item<decltype(strf::sani(t.a))>{t.j, strf::sani(t.a)}, g_bin()); break; }
        case 5: call(g_str(), g_str(), g_str(), g_str(), g_str()); break;
        case 6: call(g_char(), g_c32(), g_char()); break;
        case 7: call(g_int(), g_int(), g_int(), g_int(), g_int(), g_int(), g_int(), g_int()); break;
        case 8: call(g_bin(), g_strf(), g_bin()); break;
        case 9: call(g_str()); break;
        case 10: call(g_bool(), g_ptr(), g_strf(), g_hex(), g_c32(), g_dec(), g_int()); break;
        case 11: { auto t = g_tr(); align f = big_align(); t.j = jstr(otn(), t.a, "tr", f); auto x = strf::fmt(t.a).transcode().set_alignment_format(f.get()); call(item<decltype(x)>{t.j, x}, g_char()); break; }
        case 12: call(); break;
        case 13: call(g_dbl(), g_dblf()); break;
        case 14: call(g_dblf(), g_str(), g_fltn()); break;
        case 15: call(g_flt(), g_int(), g_dbl(), g_flt()); break;
        case 16: call(g_strf(), g_fltn(), g_bin(), g_dblf()); break;
        default: call(g_strf(), g_strf(), g_dec());
    }
}
