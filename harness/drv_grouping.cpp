// digits_grouping, its creator, iterator and distribution, and the numpunct facets' observers (C15).
#include <strf.hpp>
#include "vt.hpp"
using namespace vt;
static rng g(1);
static void observe(ev& e, const strf::digits_grouping& x, int n) {
    std::string its = "[";
    auto it = x.get_iterator();
    for (int i = 0; i < 40 && !it.ended(); ++i) {
        if (i) its += ',';
        its += "[" + std::to_string(it.current()) + "," + (it.is_last() ? "1" : "0") + "," + (it.shall_repeat_current() ? "1" : "0") + "," + (it.is_final() ? "1" : "0") + "]";
        it.advance();
    }
    e.raw("it", its + "]");
    e.num("n", n).boolean("empty", x.empty()).boolean("any", x.any_separator(n)).num("cnt", x.separators_count(n));
    if (n > 0) {
        auto d = x.distribute(n);
        std::vector<int> low; auto lg = d.low_groups;
        for (int i = 0; i < 40 && !lg.empty(); ++i) { low.push_back(lg.highest_group()); lg.pop_high(); }
        e.num("hi", d.highest_group).num("mid", d.middle_groups_count).raw("low", ev::ints(low));
    }
    strf::numpunct<10> np(x); strf::numpunct<16> nq; nq.grouping(x);
    std::vector<int> o = {np.any_group_separation(n), np.thousands_sep_count(n), nq.any_group_separation(n), nq.thousands_sep_count(n), np.grouping() == x, nq.grouping() != x};
    e.raw("np", ev::ints(o));
}
static strf::digits_grouping ctor(const std::vector<int>& v) {
    switch (v.size()) {
        case 0: return strf::digits_grouping();
        case 1: return strf::digits_grouping(v[0]);
        case 2: return strf::digits_grouping(v[0], v[1]);
        case 3: return strf::digits_grouping(v[0], v[1], v[2]);
        case 4: return strf::digits_grouping(v[0], v[1], v[2], v[3]);
        case 5: return strf::digits_grouping(v[0], v[1], v[2], v[3], v[4]);
        case 6: return strf::digits_grouping(v[0], v[1], v[2], v[3], v[4], v[5]);
        default: return strf::digits_grouping(v[0], v[1], v[2], v[3], v[4], v[5], v[6]);
    }
}
int main(int argc, char** argv) {
    args a(argc, argv); g = rng(a.seed); out_file f(a.out.c_str());
    while (static_cast<long>(f.count()) < a.n) {
        std::vector<int> p;
        bool wild = g.chance(1, 4);
        int cnt = g.range(0, wild ? 9 : 6);
        for (int i = 0; i < cnt; ++i) p.push_back(wild && g.chance(1, 5) ? g.range(-3, 40) : g.chance(1, 3) ? g.range(1, 31) : g.range(1, 4));
        if (!p.empty() && g.chance(1, 4)) for (int k = g.range(1, 3); k > 0; --k) p.push_back(p.back());
        bool fin = g.chance(1, 3);
        int n = g.chance(1, 10) ? g.range(0, 2) : g.range(0, g.chance(1, 6) ? 400 : 70);
        int bad = 0; for (int x : p) bad += x < 1 || x > 31;
        if (p.size() > 6) bad = 1;
        ev e; e.str("k", "grouping").raw("g", ev::ints(p)).boolean("fin", fin);
        if (bad || g.chance(1, 2)) {
            strf::digits_grouping_creator c;
            for (int x : p) { if (x >= 0 && g.chance(1, 2)) c.push_high(static_cast<unsigned>(x)); else c.push_high(x); }
            e.str("via", "creator").boolean("failed", c.failed());
            auto x = fin ? c.finish_no_more_sep() : c.finish();
            observe(e, x, n);
        } else if (g.chance(1, 2)) {
            e.str("via", "string").boolean("failed", false);
            std::string s; for (int x : p) s += static_cast<char>(x);
            if (fin) s += '\xFF';
            char* exact = new char[s.size() + 1]; std::memcpy(exact, s.c_str(), s.size() + 1);
            strf::digits_grouping x(exact);
            delete[] exact;
            observe(e, x, n);
        } else {
            e.str("via", "list").boolean("failed", false);
            auto v = p; if (fin) v.push_back(-1);
            observe(e, ctor(v), n);
        }
        auto dp = static_cast<char32_t>(g.below(0x3000)), ts = static_cast<char32_t>(g.below(0x3000));
        strf::numpunct<8> np; np.decimal_point(dp).thousands_sep(ts);
        strf::no_grouping<10> ng; strf::no_grouping<10> ng0; ng.decimal_point(dp);
        strf::default_numpunct<2> d;
        std::vector<long> pp = {static_cast<long>(np.decimal_point()), static_cast<long>(np.thousands_sep()), static_cast<long>(ng.decimal_point()), static_cast<long>(ng0.decimal_point()), ng == ng0, ng.any_group_separation(n), ng.thousands_sep_count(n), ng.grouping().empty(),
            static_cast<long>(d.decimal_point()), static_cast<long>(d.thousands_sep()), d.any_group_separation(n), static_cast<long>(strf::numpunct<10>(ng).decimal_point())};
        e.num("dp", static_cast<long>(dp)).num("ts", static_cast<long>(ts)).raw("pp", ev::ints(pp));
        f.line(e.done()); f.sync();
    }
}
