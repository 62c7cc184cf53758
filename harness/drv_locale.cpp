// strf::locale_numpunct() (C25).  localeconv and nl_langinfo are the two questions it asks the C library;
// this program answers them: either with made-up punctuation, or with that of a real locale.
#include <strf/to_string.hpp>
#include <strf/locale.hpp>
#include "vt.hpp"
#include <dlfcn.h>
#include <climits>
#include <clocale>
#include <langinfo.h>
using namespace vt;
static rng g(1);
static struct { std::string dp, ts, gr, cs; bool real = false; lconv lc; } L;
extern "C" lconv* localeconv() noexcept {
    static auto next = reinterpret_cast<lconv* (*)()>(dlsym(RTLD_NEXT, "localeconv"));
    if (L.real) return next();
    std::memset(&L.lc, 0, sizeof L.lc);
    L.lc.decimal_point = &L.dp[0]; L.lc.thousands_sep = &L.ts[0]; L.lc.grouping = &L.gr[0];
    // what the other categories say is of no consequence for numbers
    static char mdp[] = "!", mts[] = "?", mg[] = "\2";
    L.lc.mon_decimal_point = mdp; L.lc.mon_thousands_sep = mts; L.lc.mon_grouping = mg;
    return &L.lc;
}
extern "C" char* nl_langinfo(nl_item it) noexcept {
    static auto next = reinterpret_cast<char* (*)(nl_item)>(dlsym(RTLD_NEXT, "nl_langinfo"));
    static char other[] = "ISO-8859-1";
    if (L.real) return next(it);
    return it == CODESET ? &L.cs[0] : other;
}
static std::string chr() {
    static const std::vector<std::string> c = {".", ",", "'", " ", "_", "\x7F", "\x01", "\xE2\x80\xAF", "\xC2\xA0", "\xE2\x80\x99", "\xD9\xAB", "\xD9\xAC", "\xEF\xBF\xBD",
        "\xF0\x9F\x98\x80", "\xF0\x90\x80\x80", "\xF4\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xED\xA0\x80", "\xED\x9F\xBF", "\xC0\x80", "\xC1\xBF", "\xC2", "\xE2\x80", "\xE2", "\xF0\x9F\x98", "\xE0\x9F\xBF", "\xE0\xA0\x80", "\xF0\x8F\xBF\xBF", "\x80", "\xBF", "\xFF", "\xDF\xBF"};
    if (g.chance(1, 10)) return "";
    if (g.chance(1, 3)) return std::string(1, static_cast<char>(g.range(1, 255)));
    std::string s = g.pick(c);
    if (g.chance(1, 5)) s += g.pick(c);
    if (g.chance(1, 12)) s = std::string(1, static_cast<char>(g.range(0xC0, 0xF8))) + static_cast<char>(g.range(0x7F, 0xC1)) + static_cast<char>(g.range(0x7F, 0xC1)) + static_cast<char>(g.range(0x7F, 0xC1));
    return s;
}
static std::vector<int> bytes(const std::string& s) { std::vector<int> v; for (char c : s) v.push_back(static_cast<unsigned char>(c)); return v; }
static std::vector<long> u32(const std::u32string& s) { std::vector<long> v; for (auto c : s) v.push_back(static_cast<long>(c & 0x7FFFFFFF)); return v; }
int main(int argc, char** argv) {
    args a(argc, argv); g = rng(a.seed); out_file f(a.out.c_str());
    static const std::vector<std::string> sets = {"UTF-8", "ISO-8859-1", "ISO-8859-3", "ISO-8859-15", "ANSI_X3.4-1968", "UTF-16", "", "ISO-8859-2", "ISO-8859-16", "ISO-8859-14", "KOI8-R", "utf8"};
    static const std::vector<const char*> locs = {"C", "POSIX", "C.utf8", "as_IN.utf8", "de_DE.utf8", "en_US.utf8"};
    while (static_cast<long>(f.count()) < a.n) {
        L.real = g.chance(1, 6);
        if (L.real) {
            if (!setlocale(LC_NUMERIC, g.pick(locs)) || !setlocale(LC_CTYPE, g.pick(locs))) continue;
            auto* lc = localeconv();
            L.dp = lc->decimal_point; L.ts = lc->thousands_sep; L.gr = lc->grouping; L.cs = nl_langinfo(CODESET);
        } else {
            L.cs = g.chance(2, 3) ? sets[static_cast<std::size_t>(g.range(0, 3))] : g.pick(sets);
            L.dp = chr(); L.ts = chr();
            L.gr.clear();
            int cnt = g.chance(1, 10) ? 0 : g.range(1, g.chance(1, 10) ? 8 : 4);
            for (int i = 0; i < cnt; ++i) L.gr += static_cast<char>(g.chance(1, 2) ? g.range(1, 3) : g.chance(1, 12) ? g.range(1, 126) : g.range(1, 31));
            if (g.chance(1, 4) && cnt) L.gr += L.gr.back();
            if (g.chance(1, 3)) L.gr += static_cast<char>(g.chance(1, 2) ? CHAR_MAX : -1);
        }
        ev e; e.str("k", "locale").boolean("real", L.real).str("cs", L.cs.c_str()).raw("dp", ev::ints(bytes(L.dp))).raw("ts", ev::ints(bytes(L.ts))).raw("g", ev::ints(bytes(L.gr)));
        auto p = strf::locale_numpunct();
        bool eg = p.grouping().empty();
        e.num("rdp", static_cast<long>(p.decimal_point() & 0x7FFFFFFF)).num("rts", eg ? -1 : static_cast<long>(p.thousands_sep() & 0x7FFFFFFF));
        std::vector<int> seps; for (int n = 0; n <= 45; ++n) seps.push_back(p.thousands_sep_count(n));
        e.raw("seps", ev::ints(seps));
        // two numbers printed with it: an integer, and an integer and a half
        int nd = g.range(1, 15); long long v = 0; std::vector<int> ds;
        for (int i = 0; i < nd; ++i) { int d = i ? g.range(0, 9) : g.range(1, 9); ds.push_back(d); v = v * 10 + d; }
        e.raw("ds", ev::ints(ds));
        e.raw("int", ev::ints(u32(strf::to_u32string.with(p)(!strf::dec(v)))));
        e.raw("flt", ev::ints(u32(strf::to_u32string.with(p)(!strf::fixed(static_cast<double>(v) + 0.5)))));
        f.line(e.done()); f.sync();
    }
}
