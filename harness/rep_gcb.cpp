// Every code point, in every state of the cluster-boundary automaton dumped by TabGcb, followed by every class (C18).
#include <strf.hpp>
#include "tables.hpp"
using namespace vt;
struct state { std::u32string path; std::vector<long> to, br; };
int main(int argc, char** argv) {
    args a(argc, argv);
    std::ifstream f(a.aux); std::string l;
    std::vector<long> lo, cls, hs, rep, wide; std::vector<state> st;
    while (std::getline(f, l)) {
        std::string k = jstr(l, "k");
        if (k == "gcb") { lo = jarr(l, "lo"); cls = jarr(l, "cls"); hs = jarr(l, "hs"); rep = jarr(l, "rep"); }
        else if (k == "wide") wide = jarr(l, "r");
        else { state s; for (long c : jarr(l, "path")) s.path += static_cast<char32_t>(c); s.to = jarr(l, "to"); s.br = jarr(l, "br"); st.push_back(s); }
    }
    std::vector<unsigned char> C(0x110000), Wd(0x110000, 1);
    for (std::size_t i = 0; i < lo.size(); ++i) for (long c = lo[i]; c < (i + 1 < lo.size() ? lo[i + 1] : 0x110000); ++c)
        C[static_cast<std::size_t>(c)] = static_cast<unsigned char>(cls[i] ? cls[i] : (c - hs[0]) % hs[1] == 0 ? hs[2] : hs[3]);
    for (std::size_t i = 0; i + 1 < wide.size(); i += 2) for (long c = wide[i]; c <= wide[i + 1]; ++c) Wd[static_cast<std::size_t>(c)] = 2;
    std::atomic<long> done{0}, bad{0}; std::mutex mx;
    auto cs = strf::utf<char32_t>;
    const strf::width_t lim = strf::width_max;
    auto spec_width = [&](const std::u32string& t) { std::size_t s = 1; int w = 0;
        for (char32_t c : t) { auto k = static_cast<std::size_t>(C[c] - 1); if (st[s - 1].br[k]) w += Wd[c]; s = static_cast<std::size_t>(st[s - 1].to[k]); } return w; };
    auto report = [&](const char* what, const std::u32string& t, int got, int exp) {
        std::lock_guard<std::mutex> g(mx);
        if (++bad <= 20) std::printf("MISMATCH %s\n", ev().str("what", what).units("text", t.begin(), t.end()).num("got", got).num("expected", exp).done().c_str());
    };
    auto work = [&](long first, long step) {
        long n = 0;
        for (long b = first * 256; b < 0x110000; b += step * 256) for (long c = b; c < b + 256; ++c) {
            if (c >= 0xD800 && c < 0xE000) continue;
            auto ch = static_cast<char32_t>(c);
            int cw = strf::std_width_calc.char32_width(ch).underlying_value();
            if (cw != Wd[static_cast<std::size_t>(c)] * 65536) report("char32_width", std::u32string(1, ch), cw, Wd[static_cast<std::size_t>(c)] * 65536);
            for (auto& s : st) for (long r : rep) {
                std::u32string t = s.path; t += ch; t += static_cast<char32_t>(r);
                int e = spec_width(t), g = strf::std_width_calc.str_width(cs, lim, t.data(), t.data() + t.size()).underlying_value();
                if (g != e * 65536) report("str_width", t, g, e * 65536);
                ++n;
            }
            // the text of one unit of width: the position is the end of the first cluster
            { std::u32string t(1, ch); t += U"\u0301\U0001F600"; auto p = strf::std_width_calc.str_width_and_pos(cs, strf::width_t(Wd[static_cast<std::size_t>(c)]), t.data(), t.data() + 3);
              auto k = C[static_cast<std::size_t>(c)]; std::size_t s1 = static_cast<std::size_t>(st[0].to[static_cast<std::size_t>(k - 1)]); auto k2 = C[0x301], k3 = C[0x1F600];
              int e = st[s1 - 1].br[static_cast<std::size_t>(k2 - 1)] ? 1 : st[static_cast<std::size_t>(st[s1 - 1].to[static_cast<std::size_t>(k2 - 1)]) - 1].br[static_cast<std::size_t>(k3 - 1)] ? 2 : 3;
              if (p.ptr - t.data() != e) report("str_width_and_pos", t, static_cast<int>(p.ptr - t.data()), e); }
        }
        done += n;
    };
    std::vector<std::thread> th; for (long i = 0; i < 8; ++i) th.emplace_back(work, i, 8L); for (auto& t : th) t.join();
    std::printf("DONE %ld\n", done.load());
}
