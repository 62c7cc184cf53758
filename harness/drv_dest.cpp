// Random call histories on every kind of output buffer / destination; one event per session.
#include <strf.hpp>
#include <strf/to_string.hpp>
#include <strf/to_cfile.hpp>
#include <strf/to_streambuf.hpp>
#include <strf/iterator.hpp>
#include "vt.hpp"
#include <clocale>
#include <memory>
#include <streambuf>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
using namespace vt;

static out_file* out;
static std::string mode;

// what the sink of a session has seen
struct sink_log {
    std::string rcv;       // JSON list body of units received during the current op
    bool any = false, off = false, off_now = false;
    int after = 0;         // non-empty offers made after the first refusal
    std::vector<int> sched; // accepted amounts per offer; -1: all
    std::size_t calls = 0;
    long budget = -1;      // total units accepted; -1: unlimited
    bool throws = false;
    template <typename T> std::size_t offer(const T* p, std::size_t n) {
        if (off && n > 0) ++after;
        std::size_t k = n;
        if (calls < sched.size() && sched[calls] >= 0 && static_cast<std::size_t>(sched[calls]) < k) k = static_cast<std::size_t>(sched[calls]);
        if (n > 0) ++calls;
        if (budget >= 0 && static_cast<std::size_t>(budget) < k) k = static_cast<std::size_t>(budget);
        if (budget >= 0) budget -= static_cast<long>(k);
        for (std::size_t i = 0; i < k; ++i) { if (any) rcv += ','; rcv += std::to_string(unit(p[i])); any = true; }
        if (k < n) { off = off_now = true; if (throws) throw 1; }
        return k;
    }
    void begin_op() { rcv.clear(); any = false; off_now = false; }
};

// --- user-defined output buffer: base class do_write, buffer of any legal size -----------------
template <typename T, unsigned L>
struct user_buffer final : strf::output_buffer<T, L> {
    T* store; std::size_t size; sink_log& log; bool finished = false;
    user_buffer(std::size_t n, sink_log& l) : strf::output_buffer<T, L>(nullptr, nullptr), store(new T[n]), size(n), log(l) {
        this->set_buffer_ptr(store); this->set_buffer_end(store + n);
    }
    ~user_buffer() override { delete[] store; }
    void recycle() override {
        if (this->good()) {
            auto n = static_cast<std::size_t>(this->buffer_ptr() - store);
            if (log.offer(store, n) != n) this->set_good(false);
        }
        this->set_buffer_ptr(store);
    }
    void fin() { recycle(); this->set_good(false); }
};
template <typename C>
struct limited_streambuf : std::basic_streambuf<C> {
    sink_log& log;
    explicit limited_streambuf(sink_log& l) : log(l) {}
    std::streamsize xsputn(const C* s, std::streamsize n) override { return static_cast<std::streamsize>(log.offer(s, static_cast<std::size_t>(n))); }
    typename std::basic_streambuf<C>::int_type overflow(typename std::basic_streambuf<C>::int_type c) override {
        C x = std::char_traits<C>::to_char_type(c);
        return log.offer(&x, 1) == 1 ? c : std::char_traits<C>::eof();
    }
};
template <typename C> struct cookie { sink_log* log; std::string pending; };
template <typename C> static ssize_t cookie_write(void* ck, const char* p, size_t n) {
    auto* c = static_cast<cookie<C>*>(ck);
    std::vector<C> v(n / sizeof(C));
    if (!v.empty()) std::memcpy(v.data(), p, v.size() * sizeof(C));
    return static_cast<ssize_t>(c->log->offer(v.data(), v.size()) * sizeof(C));
}
template <typename C> static FILE* open_cookie(cookie<C>& c) {
    cookie_io_functions_t f{};
    f.write = cookie_write<C>;
    FILE* fp = fopencookie(&c, "w", f);
    std::setvbuf(fp, nullptr, _IONBF, 0);
    return fp;
}
// allocator failing on demand
static long alloc_left = -1;
template <typename T> struct tight_alloc {
    using value_type = T;
    tight_alloc() = default;
    template <typename U> tight_alloc(const tight_alloc<U>&) {}
    T* allocate(std::size_t n) { if (alloc_left == 0) throw std::bad_alloc(); if (alloc_left > 0) --alloc_left; return static_cast<T*>(std::malloc(n * sizeof(T))); }
    void deallocate(T* p, std::size_t) { std::free(p); }
    bool operator==(const tight_alloc&) const { return true; }
    bool operator!=(const tight_alloc&) const { return false; }
};

static int next_unit = 0;
template <typename C> static C fresh() { next_unit = (next_unit + 1) % 94; return static_cast<C>(33 + next_unit); }

template <typename C> static std::string fin_sunk(const std::string& rcv, bool none) { (void)none; return "[" + rcv + "]"; }

// one op on the destination; returns its JSON (without observations)
template <typename C, unsigned L>
static void do_op(rng& r, strf::output_buffer<C, L>& d, std::size_t bs, ev& e, bool ascii = false) {
    constexpr int minsp = 1 << L;
    auto some = [&](int big) {
        int n;
        switch (r.below(7)) {
            case 0: n = 0; break;
            case 1: n = 1; break;
            case 2: n = static_cast<int>(d.buffer_space()); break;
            case 3: n = static_cast<int>(d.buffer_space()) + 1; break;
            case 4: n = static_cast<int>(bs) + r.range(0, 2); break;
            case 5: n = r.range(0, big); break;
            default: n = r.range(0, 6); break;
        }
        if (n > 260) n = 260;
        std::vector<C> v(static_cast<std::size_t>(n));
        for (auto& x : v) x = fresh<C>();
        return v;
    };
    switch (r.below(12)) {
        case 0: case 1: { C c = fresh<C>(); e.str("op", "put").units("d", &c, &c + 1); strf::put(d, c); break; }
        case 2: case 3: case 4: {
            auto v = some(150);
            e.str("op", "write").units("d", v.begin(), v.end());
            C* cp = static_cast<C*>(std::malloc((v.size() + 1) * sizeof(C)));
            if (!v.empty()) std::memcpy(cp, v.data(), v.size() * sizeof(C));
            if (r.chance(1, 2)) d.write(cp, v.size()); else d.write(cp, static_cast<std::ptrdiff_t>(v.size()));
            std::free(cp);
            break;
        }
        case 5: { // ensure, then store directly and advance
            int n = r.range(0, minsp);
            int k = r.chance(1, 3) ? n : r.range(0, n);
            std::vector<C> v; for (int i = 0; i < k; ++i) v.push_back(fresh<C>());
            e.str("op", "direct").num("n", n).units("d", v.begin(), v.end());
            d.ensure(n);
            bool ok = static_cast<long>(d.buffer_space()) >= n;
            e.boolean("room", ok);
            if (ok) {
                for (int i = 0; i < k; ++i) d.buffer_ptr()[i] = v[static_cast<std::size_t>(i)];
                switch (r.below(3)) { case 0: d.advance_to(d.buffer_ptr() + k); break; case 1: d.advance(k); break; default: for (int i = 0; i < k; ++i) d.advance(); }
            }
            break;
        }
        case 6: { int n = r.range(0, minsp); e.str("op", "ensure").num("n", n); if (r.chance(1, 2)) d.ensure(n); else d.ensure(static_cast<std::size_t>(n)); break; }
        case 7: { e.str("op", "recycle"); if (r.chance(1, 2)) d.recycle(); else d.flush(); break; }
        case 8: { auto v = some(20); e.str("op", "iter").units("d", v.begin(), v.end()); auto it = strf::make_iterator<C>(d); for (C c : v) { *it = c; ++it; } break; }
        case 9: case 10: {
            if constexpr (L >= 3) {
                auto v = some(150);
                // fill with a code point of one to four units
                static const char32_t cps[] = {U'a', 0xE9, 0x20AC, 0x1F600, U'z'};
                char32_t cp = ascii || r.chance(1, 3) ? U'a' + r.below(26) : cps[r.below(5)];
                strf::utf_t<C> cs;
                C buf[8]; C* be = cs.encode_char(buf, cp);
                std::vector<C> all;
                int cnt = static_cast<int>(v.size()) / (r.chance(1, 2) ? 1 : static_cast<int>(be - buf));
                for (int i = 0; i < cnt; ++i) all.insert(all.end(), buf, be);
                e.str("op", "fill").num("u", be - buf).units("d", all.begin(), all.end());
                cs.encode_fill(d, cnt, cp);
                break;
            } else { e.str("op", "recycle"); d.recycle(); break; }
        }
        default: {
            if constexpr (std::is_same<C, char>::value) {
                auto v = some(100);
                for (auto& c : v) if (!c) c = 'x';
                std::string s(v.begin(), v.end());
                e.str("op", "write").units("d", s.begin(), s.end());
                strf::write(d, s.c_str());
            } else { C c = fresh<C>(); e.str("op", "put").units("d", &c, &c + 1); strf::put(d, c); }
            break;
        }
    }
}

// F: finish(ev&) logs the result and returns; delta(): units visible downstream now
template <typename C, unsigned L, typename F, typename D>
static std::string history(rng& r, strf::output_buffer<C, L>& d, std::size_t bs, sink_log& log, F finish, D poll, int nops, bool do_finish) {
    std::string steps = "[";
    bool first = true;
    auto step = [&](ev& e, bool threw) {
        poll();
        e.raw("o", ev().boolean("g", d.good()).num("sp", static_cast<long>(d.buffer_end() - d.buffer_ptr())).raw("rcv", "[" + log.rcv + "]").boolean("off", log.off_now).num("after", log.after).boolean("threw", threw).done());
        if (!first) steps += ",";
        first = false;
        steps += e.done();
    };
    for (int i = 0; i < nops; ++i) {
        log.begin_op();
        ev e;
        bool threw = false;
        try { do_op(r, d, bs, e); } catch (...) { threw = true; }
        step(e, threw);
    }
    if (do_finish) {
        int k = r.chance(1, 5) ? 2 : 1;
        while (k--) {
            log.begin_op();
            ev e; e.str("op", "finish");
            bool threw = false;
            try { finish(e); } catch (...) { threw = true; }
            step(e, threw);
            if (k || r.chance(1, 4)) for (int i = r.range(0, 3); i > 0; --i) {
                log.begin_op(); ev e2;
                bool t2 = false;
                try { do_op(r, d, bs, e2); } catch (...) { t2 = true; }
                step(e2, t2);
            }
        }
    }
    return steps + "]";
}
static void sched(rng& r, sink_log& l, bool fails) {
    if (!fails) return;
    if (r.chance(1, 2)) l.budget = r.range(0, 200);
    else { int k = r.range(1, 6); for (int i = 0; i < k; ++i) l.sched.push_back(r.chance(1, 2) ? -1 : r.range(0, 70)); }
}
static void emit(const char* kind, long cap, int min, std::size_t usz, bool done, const std::string& steps, const std::string& end) {
    ev e; e.str("k", "dest").str("kind", kind).num("cap", cap).num("min", min).num("usz", static_cast<long>(usz)).boolean("fin", done).raw("steps", steps).raw("end", end);
    out->line(e.done());
}
static std::string end_obs(sink_log& l) { return ev().raw("rcv", "[" + l.rcv + "]").boolean("off", l.off_now).num("after", l.after).done(); }

template <typename T, unsigned L> static void s_user(rng& r, bool fails) {
    sink_log log; sched(r, log, fails);
    std::size_t sz = (std::size_t{1} << L) + (r.chance(1, 2) ? 0 : r.below(40));
    std::string st;
    bool f = r.chance(3, 4);
    { user_buffer<T, L> d(sz, log);
      st = history<T, L>(r, d, sz, log, [&](ev& e) { d.fin(); e.raw("res", ev().boolean("none", true).done()); }, [] {}, r.range(1, 14), f);
      log.begin_op(); }
    emit("user", 0, 1 << L, sizeof(T), f, st, end_obs(log));
}
template <typename T> static void s_bounded(rng& r, bool cstr) {
    int cap;
    switch (r.below(5)) { case 0: cap = cstr ? 1 : 0; break; case 1: cap = 1 + static_cast<int>(r.below(4)); break; case 2: cap = r.range(60, 70); break; case 3: cap = r.range(1, 300); break; default: cap = r.range(1, 30); }
    T* mem = static_cast<T*>(std::malloc(sizeof(T) * static_cast<std::size_t>(cap ? cap : 1)));
    for (int i = 0; i < cap; ++i) mem[i] = static_cast<T>(1);
    sink_log log;
    bool f = r.chance(9, 10);
    std::string st;
    auto run = [&](auto& d, auto fin) { st = history<T, 6>(r, d, static_cast<std::size_t>(cap), log, fin, [] {}, r.range(0, 9), f); };
    if (cstr) {
        auto go = [&](strf::basic_cstr_destination<T>& d) {
            run(d, [&](ev& e) { auto x = d.finish(); e.raw("res", ev().num("p", x.ptr - mem).boolean("t", x.truncated).done()); }); };
        if (r.chance(1, 2)) { strf::basic_cstr_destination<T> d(mem, mem + cap); go(d); } else { strf::basic_cstr_destination<T> d(mem, cap); go(d); }
    } else {
        auto go = [&](strf::array_destination<T>& d) {
            run(d, [&](ev& e) { auto x = d.finish(); e.raw("res", ev().num("p", x.ptr - mem).boolean("t", x.truncated).done()); }); };
        if (r.chance(1, 2)) { strf::array_destination<T> d(mem, mem + cap); go(d); } else { strf::array_destination<T> d(mem, cap); go(d); }
    }
    emit(cstr ? "cstr" : "array", cap, 64, sizeof(T), f, st, ev().units("mem", mem, mem + cap).done());
    std::free(mem);
}
template <typename T> static void s_discarder(rng& r) {
    sink_log log;
    strf::discarder<T> d;
    std::string st = history<T, 6>(r, d, 64, log, [](ev&) {}, [] {}, r.range(1, 10), false);
    emit("discarder", 0, 64, sizeof(T), false, st, "{}");
}
template <typename T> static void s_appender(rng& r) {
    sink_log log;
    using S = std::basic_string<T, std::char_traits<T>, tight_alloc<T>>;
    S s;
    alloc_left = -1;
    int pre = r.chance(1, 2) ? 0 : r.range(0, 20);
    for (int i = 0; i < pre; ++i) s += static_cast<T>('#');
    std::size_t seen = s.size();
    bool intact = true;
    auto poll = [&] {
        if (s.size() < seen) { intact = false; return; }
        for (; seen < s.size(); ++seen) { if (log.any) log.rcv += ','; log.rcv += std::to_string(unit(s[seen])); log.any = true; }
        for (int i = 0; i < pre; ++i) if (s[static_cast<std::size_t>(i)] != static_cast<T>('#')) intact = false;
    };
    bool f = r.chance(3, 4);
    std::string st;
    auto go = [&](strf::basic_string_appender<T, std::char_traits<T>, tight_alloc<T>>& d) {
        if (r.chance(1, 3)) alloc_left = static_cast<long>(r.below(3));
        st = history<T, 6>(r, d, 64, log, [&](ev& e) { e.raw("res", ev().boolean("none", true).done()); d.finish(); }, poll, r.range(1, 12), f);
        log.begin_op(); };
    if (r.chance(1, 2)) { strf::basic_string_appender<T, std::char_traits<T>, tight_alloc<T>> d(s); go(d); }
    else { strf::basic_string_appender<T, std::char_traits<T>, tight_alloc<T>> d(s, r.below(300)); go(d); }
    log.begin_op();
    poll();
    emit("appender", 0, 64, sizeof(T), f, st, ev().raw("rcv", "[" + log.rcv + "]").boolean("off", false).num("after", 0).boolean("intact", intact).boolean("tight", alloc_left >= 0).done());
    alloc_left = -1;
}
template <typename T> static void s_maker(rng& r, bool sized) {
    sink_log log;
    std::string st;
    auto fin = [&](auto& d) { return [&](ev& e) {
        auto s = d.finish();
        for (T c : s) { if (log.any) log.rcv += ','; log.rcv += std::to_string(unit(c)); log.any = true; }
        e.raw("res", ev().boolean("none", true).done()); }; };
    if (sized) { std::size_t n = r.chance(1, 4) ? 0 : r.below(200); strf::basic_sized_string_maker<T> d(n); st = history<T, 6>(r, d, n, log, fin(d), [] {}, r.range(1, 12), true); }
    else { strf::basic_string_maker<T> d; st = history<T, 6>(r, d, 64, log, fin(d), [] {}, r.range(1, 12), true); }
    emit(sized ? "sized" : "maker", 0, 64, sizeof(T), true, st, "{}");
}
template <typename T> static void s_streambuf(rng& r, bool fails) {
    sink_log log; sched(r, log, fails);
    log.throws = fails && r.chance(1, 6);
    limited_streambuf<T> sb(log);
    bool f = r.chance(4, 5) && !log.throws;
    std::string st;
    { strf::basic_streambuf_writer<T> d(sb);
      st = history<T, 6>(r, d, 64, log, [&](ev& e) { auto x = d.finish(); e.raw("res", ev().num("count", x.count).boolean("success", x.success).done()); }, [] {}, r.range(1, 14), f);
      log.begin_op(); }
    emit("streambuf", 0, 64, sizeof(T), f, st, end_obs(log));
}
template <typename T, std::size_t B> static void s_cfile(rng& r, bool fails) {
    sink_log log; sched(r, log, fails);
    cookie<T> ck{&log, {}};
    FILE* fp = open_cookie(ck);
    bool f = r.chance(4, 5);
    std::string st;
    { strf::narrow_cfile_writer<T, B> d(fp);
      st = history<T, 6>(r, d, B, log, [&](ev& e) { auto x = d.finish(); e.raw("res", ev().num("count", static_cast<long>(x.count)).boolean("success", x.success).done()); }, [] {}, r.range(1, 14), f);
      log.begin_op(); }
    std::string end = end_obs(log);
    std::fclose(fp);
    emit("cfile", 0, 64, sizeof(T), f, st, end);
}
static void s_wcfile(rng& r, bool fails) {
    // units are ASCII here: one byte each in the file, which cannot grow beyond the budget
    int fd = ::memfd_create("vt", MFD_ALLOW_SEALING);
    long budget = fails ? r.range(0, 200) : 100000;
    if (fd < 0 || ::ftruncate(fd, budget) != 0 || ::fcntl(fd, F_ADD_SEALS, F_SEAL_GROW) != 0) { std::perror("memfd"); std::exit(3); }
    FILE* fp = ::fdopen(fd, "w");
    std::setvbuf(fp, nullptr, _IONBF, 0);
    long seen = 0;
    auto poll = [&] {
        std::string s = "[";
        for (long end = static_cast<long>(::lseek(fd, 0, SEEK_CUR)); seen < end; ++seen) {
            char c; if (::pread(fd, &c, 1, seen) != 1) std::exit(3);
            if (s.size() > 1) s += ',';
            s += std::to_string(static_cast<int>(c)); }
        return s + "]"; };
    bool f = r.chance(4, 5);
    std::string st;
    { strf::wide_cfile_writer d(fp);
      strf::destination<wchar_t>& dd = d;
      std::string steps = "[";
      bool first = true;
      auto step = [&](ev& e) {
          e.raw("o", ev().boolean("g", d.good()).num("sp", static_cast<long>(d.buffer_end() - d.buffer_ptr())).raw("rcv", poll()).boolean("off", false).num("after", 0).boolean("threw", false).done());
          if (!first) steps += ",";
          first = false; steps += e.done(); };
      for (int i = r.range(1, 10); i > 0; --i) { ev e; do_op(r, dd, 64, e, true); step(e); }
      if (f) { ev e; e.str("op", "finish"); auto x = d.finish(); e.raw("res", ev().num("count", static_cast<long>(x.count)).boolean("success", x.success).done()); step(e); }
      st = steps + "]"; }
    std::string end = ev().raw("rcv", poll()).boolean("off", false).num("after", 0).done();
    std::fclose(fp);
    emit("wcfile", budget, 64, 4, f, st, end);
}

// --- printing a random argument list to bounded ranges and failing sinks ------------------
template <typename C> struct arglist {
    std::vector<int> kinds; std::vector<long> vals; std::vector<std::basic_string<C>> strs;
};
template <typename C> static std::basic_string<C> wide(const std::string& s) { return std::basic_string<C>(s.begin(), s.end()); }
template <typename C> static std::basic_string<C> rnd_str(rng& r) {
    std::basic_string<C> s; int n = r.chance(1, 5) ? r.range(50, 140) : r.range(0, 12);
    strf::utf_t<C> cs;
    static const char32_t cps[] = {0xE9, 0x20AC, 0x1F600, 0x3042};
    for (int i = 0; i < n; ++i) { if (r.chance(1, 5)) { C b[8]; C* e = cs.encode_char(b, cps[r.below(4)]); s.append(b, e); } else s += fresh<C>(); }
    return s;
}
// calls f(print) where print(syntax) prints the same three arguments every time
template <typename C, typename F> static void with_args(rng& r, F f) {
    auto s1 = rnd_str<C>(r); auto s2 = rnd_str<C>(r);
    long v = static_cast<long>(r.next()) >> r.below(63);
    int w = r.range(0, 90); char32_t fill = r.chance(1, 2) ? U'*' : U'\u20AC';
    int arr[] = {static_cast<int>(r.below(1000)), 7, static_cast<int>(r.below(100000))};
    double dv = static_cast<double>(v) / 1024.0;
    int prec = static_cast<int>(r.below(20));
    switch (r.below(9)) {
        case 0: f([&](auto&& t) { return t(s1, v, s2); }); break;
        case 1: f([&](auto&& t) { return t(strf::right(s1, static_cast<short>(w), fill), strf::center(v, static_cast<short>(w)).fill(fill), s2); }); break;
        case 2: f([&](auto&& t) { return t(strf::multi(static_cast<C>('m'), w), s1, strf::hex(v).p(prec)); }); break;
        case 3: f([&](auto&& t) { return t(strf::join_center(static_cast<short>(w), fill)(s1, v), s2); }); break;
        case 4: { auto sep = wide<C>(", "); f([&](auto&& t) { return t(s1, strf::separated_range(arr, sep.c_str()), s2); }); break; }
        case 5: f([&](auto&& t) { return t(dv, s1, strf::sci(dv), s2); }); break;
        case 6: { auto ft = wide<C>("{1}-{{ {} {0}{-c}{}"); f([&](auto&& t) { return t.tr(ft, s1, v, s2); }); break; }
        case 7: f([&](auto&& t) { return t.with(strf::numpunct<10>(3).thousands_sep(fill))(strf::punct(v), s1, strf::fmt(s2) > static_cast<short>(w)); }); break;
        default: f([&](auto&& t) { return t(true, s1, static_cast<C>('c'), strf::join(s2, s1) ^ static_cast<short>(w)); }); break;
    }
}
template <typename C> static void s_print_bounded(rng& r) {
    with_args<C>(r, [&](auto print) {
        auto full = print(strf::to_basic_string<C>);
        int n = static_cast<int>(full.size());
        int cap = r.chance(1, 2) ? std::max(1, n + r.range(-3, 3)) : r.range(1, n + 2);
        for (int cs = 0; cs < 2; ++cs) {
            C* mem = static_cast<C*>(std::malloc(sizeof(C) * static_cast<std::size_t>(cap)));
            for (int i = 0; i < cap; ++i) mem[i] = static_cast<C>(1);
            ev e; e.str("k", "bp").boolean("cstr", cs == 0).num("cap", cap).units("full", full.begin(), full.end());
            auto rec = [&](auto x) { e.num("p", x.ptr - mem).boolean("t", x.truncated); };
            if (cs == 0) { switch (r.below(2)) { case 0: rec(print(strf::to(mem, mem + cap))); break; default: rec(print(strf::to(mem, static_cast<std::size_t>(cap)))); } }
            else { strf::array_destination<C> d(mem, mem + cap); print(strf::to(static_cast<strf::destination<C>&>(d))); rec(d.finish()); }
            e.units("mem", mem, mem + cap);
            out->line(e.done());
            std::free(mem);
        }
    });
}
template <typename C> static void s_print_failing(rng& r) {
    with_args<C>(r, [&](auto print) {
        auto full = print(strf::to_basic_string<C>);
        int n = static_cast<int>(full.size());
        sink_log log;
        if (r.chance(1, 2)) log.budget = r.chance(1, 3) ? n : r.range(0, n + 2);
        else { int k = r.range(1, 4); for (int i = 0; i < k; ++i) log.sched.push_back(r.chance(2, 3) ? -1 : r.range(0, 70)); }
        log.begin_op();
        log.throws = r.chance(1, 6);
        ev e; e.str("k", "fp").units("full", full.begin(), full.end());
        auto rec = [&](auto x) { e.boolean("threw", false).num("count", static_cast<long>(x.count)).boolean("success", x.success); };
        bool sb = log.throws || r.chance(1, 2);
        if constexpr (!std::is_same<C, char>::value && !std::is_same<C, wchar_t>::value) { sb = false; log.throws = false; }
        if (sb) {
            if constexpr (std::is_same<C, char>::value || std::is_same<C, wchar_t>::value) {
                limited_streambuf<C> b(log);
                try { rec(r.chance(1, 2) ? print(strf::to(b)) : print(strf::to(&b))); } catch (...) { e.boolean("threw", true); }
            }
        } else { cookie<C> ck{&log, {}}; FILE* fp = open_cookie(ck); rec(print(strf::to<C>(fp))); std::fclose(fp); }
        e.raw("rcv", "[" + log.rcv + "]").boolean("off", log.off).num("after", log.after);
        out->line(e.done());
    });
}

int main(int argc, char** argv) {
    args a(argc, argv);
    mode = a.mode;
    out_file of(a.out.c_str());
    out = &of;
    rng r(a.seed);
    std::setlocale(LC_ALL, "C.UTF-8");
    while (of.count() < static_cast<std::size_t>(a.n)) {
        if (mode == "hist") {
            bool fails = r.chance(1, 4);
            switch (r.below(22)) {
                case 0: s_user<char, 1>(r, fails); break;
                case 1: s_user<char16_t, 2>(r, fails); break;
                case 2: s_user<char, 3>(r, fails); break;
                case 3: s_user<char32_t, 4>(r, fails); break;
                case 4: s_user<char, 6>(r, fails); break;
                case 5: s_user<char16_t, 6>(r, fails); break;
                case 6: s_user<char8_t, 3>(r, fails); break;
                case 7: s_user<wchar_t, 5>(r, fails); break;
                case 8: s_user<char, 0>(r, fails); break;
                case 9: s_discarder<char>(r); break;
                case 10: s_discarder<char16_t>(r); break;
                case 11: s_appender<char>(r); break;
                case 12: s_appender<char16_t>(r); break;
                case 13: s_maker<char>(r, false); break;
                case 14: s_maker<char32_t>(r, false); break;
                case 15: s_maker<char>(r, true); break;
                case 16: s_maker<wchar_t>(r, true); break;
                case 17: s_bounded<char>(r, true); break;
                case 18: s_bounded<char16_t>(r, false); break;
                case 19: s_streambuf<char>(r, fails); break;
                case 20: s_cfile<char, 64>(r, fails); break;
                default: s_cfile<char16_t, 100>(r, fails); break;
            }
        } else if (mode == "bounded") {
            switch (r.below(12)) {
                case 0: s_bounded<char>(r, true); break;
                case 1: s_bounded<char>(r, false); break;
                case 2: s_bounded<char16_t>(r, true); break;
                case 3: s_bounded<char16_t>(r, false); break;
                case 4: s_bounded<char32_t>(r, true); break;
                case 5: s_bounded<wchar_t>(r, false); break;
                case 6: case 7: s_print_bounded<char>(r); break;
                case 8: s_print_bounded<char16_t>(r); break;
                case 9: s_print_bounded<char32_t>(r); break;
                case 10: s_print_bounded<char8_t>(r); break;
                default: s_print_bounded<wchar_t>(r); break;
            }
        } else { // failing
            switch (r.below(10)) {
                case 0: s_streambuf<char>(r, true); break;
                case 1: s_streambuf<wchar_t>(r, true); break;
                case 2: s_cfile<char, 64>(r, true); break;
                case 3: s_cfile<char16_t, 200>(r, true); break;
                case 4: s_cfile<char32_t, 64>(r, true); break;
                case 5: s_wcfile(r, true); break;
                case 6: case 7: s_print_failing<char>(r); break;
                case 8: s_print_failing<char16_t>(r); break;
                default: s_print_failing<wchar_t>(r); break;
            }
        }
    }
    return 0;
}
