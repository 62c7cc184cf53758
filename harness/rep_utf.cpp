// Exhaustive replay of the decoder/encoder automata of the specification through the UTF transcoders.
// modes: content (C06), limits (C07), notes (C08), unsafe (C10); --n 1: deeper enumeration
#include <strf.hpp>
#include "tables.hpp"
using namespace vt;
using strf::transcode_flags;
using reason = strf::transcode_stop_reason;
static report rep;
static std::string mode;
static bool deep;

template <typename C> constexpr const char* enc_name() { return sizeof(C) == 1 ? "UTF-8" : sizeof(C) == 2 ? "UTF-16" : "UTF-32"; }
struct rec : strf::transcoding_error_notifier {
    const void* base; int usz; const char* name; std::vector<std::pair<long, long>> v; bool ok = true;
    void invalid_sequence(int sz, const char* nm, const void* p, std::ptrdiff_t c) override {
        if (sz != usz || std::strcmp(nm, name)) ok = false;
        v.emplace_back((static_cast<const char*>(p) - static_cast<const char*>(base)) / usz, c);
    }
    void unsupported_codepoint(const char*, unsigned) override { ok = false; }
};
template <typename S, typename D> struct tester {
    const automaton* au[2]; const std::vector<encrow>* er; long repl[4]; int nrepl;
    std::vector<item> items; std::vector<long> out; std::vector<int> cum; // cum[k]: units after k items
    std::vector<D> buf;
    rec nt;
    explicit tester(const spec_tables& t) : buf(64) {
        for (int l = 0; l < 2; ++l) au[l] = &t.autos[l].at(enc_name<S>());
        er = &t.enc.at(enc_name<D>());
        nrepl = encode(*er, 0xFFFD, repl);
    }
    void fail(const char* what, const S* s, int n, int lax, int fl, long lim) {
        rep.bad(what, ev().str("what", what).str("src", enc_name<S>()).str("dst", enc_name<D>()).units("in", s, s + n).num("lax", lax).num("flags", fl).num("lim", lim).done());
    }
    void run(const S* s, int n, int lax) {
        using T = strf::static_transcoder<S, D, strf::get_csid_utf<S>(), strf::get_csid_utf<D>()>;
        decode(*au[lax], s, n, items);
        out.clear(); cum.assign(1, 0);
        int nbad = 0, firstbad = -1;
        for (std::size_t k = 0; k < items.size(); ++k) {
            long e[4]; int m;
            if (items[k].cp < 0) { ++nbad; if (firstbad < 0) firstbad = static_cast<int>(k); m = nrepl; out.insert(out.end(), repl, repl + m); }
            else { m = encode(*er, items[k].cp, e); out.insert(out.end(), e, e + m); }
            cum.push_back(static_cast<int>(out.size()));
        }
        if (buf.size() < out.size() + 8) buf.resize(out.size() + 8);
        auto base = lax ? transcode_flags::lax_surrogate_policy : transcode_flags::none;
        int total = static_cast<int>(out.size());
        // item index at which a call with these parameters stops
        auto expect = [&](int lim, bool sinv, int& sp, int& w, reason& st) {
            std::size_t k = 0;
            for (;; ++k) {
                if (k == items.size()) { st = reason::completed; sp = n; break; }
                if (items[k].cp < 0 && sinv) { st = reason::invalid_sequence; sp = items[k].at; break; }
                if (cum[k + 1] > lim) { st = reason::insufficient_output_space; sp = items[k].at; break; }
            }
            w = cum[k];
            return static_cast<int>(k);
        };
        auto check = [&](auto r, int lim, bool sinv) {
            int sp, w; reason st;
            expect(lim, sinv, sp, w, st);
            if (r.src_ptr - s != sp || r.dst_ptr - buf.data() != w || r.stop_reason != st) return false;
            for (int i = 0; i < w; ++i) if (unit(buf[static_cast<std::size_t>(i)]) != out[static_cast<std::size_t>(i)]) return false;
            return true;
        };
        auto check_size = [&](auto r, int lim, bool sinv) {
            int sp, w; reason st;
            expect(lim, sinv, sp, w, st);
            return r.src_ptr - s == sp && r.ssize == w && r.stop_reason == st;
        };
        if (mode == "content") {
            auto r = T::transcode(s, s + n, buf.data(), buf.data() + total + 4, nullptr, base);
            if (!check(r, total + 4, false)) fail("transcode", s, n, lax, 0, total + 4);
        } else if (mode == "limits") {
            for (int sinv = 0; sinv < (nbad ? 2 : 1); ++sinv) {
                auto fl = base | (sinv ? transcode_flags::stop_on_invalid_sequence : transcode_flags::none);
                for (int lim = 0; lim <= total + 1; ++lim) {
                    buf[static_cast<std::size_t>(lim)] = static_cast<D>(0x5A); buf[static_cast<std::size_t>(lim) + 1] = static_cast<D>(0x5A);
                    if (!check(T::transcode(s, s + n, buf.data(), buf.data() + lim, nullptr, fl), lim, sinv)
                     || buf[static_cast<std::size_t>(lim)] != static_cast<D>(0x5A)) fail("transcode limit", s, n, lax, sinv, lim);
                    if (!check_size(T::transcode_size(s, s + n, lim, fl), lim, sinv)) fail("transcode_size", s, n, lax, sinv, lim);
                }
            }
        } else if (mode == "notes") {
            for (int sinv = 0; sinv < 2; ++sinv) {
                auto fl = base | (sinv ? transcode_flags::stop_on_invalid_sequence : transcode_flags::none);
                nt.v.clear(); nt.ok = true; nt.base = s; nt.usz = sizeof(S); nt.name = enc_name<S>();
                auto r = T::transcode(s, s + n, buf.data(), buf.data() + total + 4, &nt, fl);
                bool ok = nt.ok && check(r, total + 4, sinv);
                std::size_t j = 0;
                for (auto& it : items) if (it.cp < 0) {
                    if (j >= nt.v.size() || nt.v[j].first != it.at || nt.v[j].second != it.n) { ok = false; break; }
                    ++j;
                    if (sinv) break;
                }
                if (!ok || j != nt.v.size()) fail("notifications", s, n, lax, sinv, total + 4);
            }
        } else if (nbad == 0) { // unsafe
            for (int lim = 0; lim <= total + 1; ++lim) {
                if (!check(T::unsafe_transcode(s, s + n, buf.data(), buf.data() + lim, nullptr, base), lim, false)) fail("unsafe_transcode", s, n, lax, 0, lim);
                if (!check_size(T::unsafe_transcode_size(s, s + n, lim, base), lim, false)) fail("unsafe_transcode_size", s, n, lax, 0, lim);
            }
        }
        (void)firstbad;
        ++count;
    }
    long count = 0;
};
template <typename S> struct testers {
    tester<S, char> a; tester<S, char16_t> b; tester<S, char32_t> c;
    explicit testers(const spec_tables& t) : a(t), b(t), c(t) {}
    void run(const S* s, int n) { for (int lax = 0; lax < 2; ++lax) { a.run(s, n, lax); b.run(s, n, lax); c.run(s, n, lax); } }
    ~testers() { rep.done += a.count + b.count + c.count; }
};
template <typename S> static void words(testers<S>& t, const std::vector<long>& alphabet, int len, std::vector<S>& w, int pos) {
    if (pos == len) { t.run(w.data(), len); return; }
    for (long x : alphabet) { w[static_cast<std::size_t>(pos)] = static_cast<S>(x); words(t, alphabet, len, w, pos + 1); }
}
int main(int argc, char** argv) {
    args a(argc, argv);
    mode = a.mode; deep = a.n == 1;
    spec_tables t(a.aux);
    // boundary bytes come from the automaton itself: both ends of each transition and their neighbours
    auto edges = [&](const char* enc, long max) {
        std::set<long> s;
        for (int l = 0; l < 2; ++l) for (auto& f : t.autos[l].at(enc).from) for (auto& tr : f.second) for (long x : {tr.lo - 1, tr.lo, tr.hi, tr.hi + 1}) if (x >= 0 && x <= max) s.insert(x);
        s.insert(max); s.insert('a');
        return std::vector<long>(s.begin(), s.end());
    };
    auto e8 = edges("UTF-8", 255), e16 = edges("UTF-16", 65535), e32 = edges("UTF-32", 0x7FFFFFFF);
    // UTF-8: every string of one or two bytes, every pair of leading bytes followed by a boundary byte, all boundary strings
    parallel_for(256, [&](long b0) {
        testers<char> ts(t);
        char w[5]; w[0] = static_cast<char>(b0);
        ts.run(w, 1);
        for (int b1 = 0; b1 < 256; ++b1) {
            w[1] = static_cast<char>(b1); ts.run(w, 2);
            if (deep) for (int b2 = 0; b2 < 256; ++b2) { w[2] = static_cast<char>(b2); ts.run(w, 3); }
            else if (b0 >= 0x80) for (long b2 : e8) { w[2] = static_cast<char>(b2); ts.run(w, 3); }
        }
    });
    parallel_for(static_cast<long>(e8.size()), [&](long i) {
        testers<char> ts(t);
        if (!deep && e8[static_cast<std::size_t>(i)] < 0xC0) return;
        std::vector<char> w(6);
        w[0] = static_cast<char>(e8[static_cast<std::size_t>(i)]);
        words(ts, e8, 4, w, 1);
        if (deep) { // five units over a thinner alphabet
            std::vector<long> thin; for (std::size_t k = 0; k < e8.size(); k += 2) thin.push_back(e8[k]);
            words(ts, thin, 5, w, 1);
        }
    });
    // every code point, in every encoding (surrogates too), alone and between two others
    parallel_for(0x110, [&](long hi) {
        testers<char> t8(t); testers<char16_t> t16(t); testers<char32_t> t32(t);
        for (long lo = 0; lo < 0x1000; ++lo) {
            long cp = hi * 0x1000 + lo, o[4];
            if (mode != "content" && !deep && lo % 37 && (lo & 0x3F) > 1 && (lo & 0x3F) < 0x3E) continue;
            char w8[6]; int n = encode(t.enc["UTF-8"], cp, o); for (int i = 0; i < n; ++i) w8[i] = static_cast<char>(o[i]);
            t8.run(w8, n);
            char16_t w16[3]; n = encode(t.enc["UTF-16"], cp, o); for (int i = 0; i < n; ++i) w16[i] = static_cast<char16_t>(o[i]);
            t16.run(w16, n);
            char32_t w32[1] = {static_cast<char32_t>(cp)};
            t32.run(w32, 1);
        }
    });
    // UTF-16: all boundary words of up to four units; surrogate pairs with all highs and all lows
    parallel_for(static_cast<long>(e16.size()), [&](long i) {
        testers<char16_t> ts(t);
        std::vector<char16_t> w(5);
        w[0] = static_cast<char16_t>(e16[static_cast<std::size_t>(i)]);
        for (int len = 1; len <= (deep ? 5 : 4); ++len) words(ts, e16, len, w, 1);
    });
    parallel_for(1024, [&](long h) {
        testers<char16_t> ts(t);
        char16_t w[2]; w[0] = static_cast<char16_t>(0xD800 + h);
        for (int l = deep ? 0 : static_cast<int>(h % 32); l < 2048; l += deep ? 1 : 32) { w[1] = static_cast<char16_t>(0xD800 + l); ts.run(w, 2); }
    });
    // UTF-32: boundary words and units out of range
    parallel_for(static_cast<long>(e32.size()), [&](long i) {
        testers<char32_t> ts(t);
        auto e = e32; e.push_back(0x80000000l); e.push_back(0xFFFFFFFFl); e.push_back(0xFFFFFFFEl);
        std::vector<char32_t> w(4);
        for (long x : {e32[static_cast<std::size_t>(i)], e[e.size() - 1 - static_cast<std::size_t>(i % 3)]}) { w[0] = static_cast<char32_t>(x); for (int len = 1; len <= 3; ++len) words(ts, e, len, w, 1); }
    });
    std::printf("SAMPLE {\"utf8_boundary_bytes\": %zu, \"utf16_boundary_units\": %zu}\n", e8.size(), e16.size());
    rep.finish();
    return 0;
}
