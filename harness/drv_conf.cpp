// A program that compiles in every supported configuration (C++14 and later, gcc and clang, hosted and
// freestanding, with and without assertions); C27 compares the histories of the builds.
#include <strf.hpp>
#include "vt.hpp"
#include <memory>
using namespace vt;
// the type in wchar_t's place: wchar_t is a UTF-16 or UTF-32 type, according to its size
#ifndef VT_W
#  define VT_W wchar_t
#endif
static rng g(1);
static out_file* out;
template <typename C> struct nm { static const char* n() { return sizeof(C) == 2 ? "16" : "32"; } };
template <> struct nm<char> { static const char* n() { return "8"; } };
template <> struct nm<char16_t> { static const char* n() { return "16"; } };
template <> struct nm<char32_t> { static const char* n() { return "32"; } };
// ---- user destination with very little room
template <typename C> struct dribble : strf::destination<C> {
    std::vector<C> got; std::size_t room; C* buf; std::unique_ptr<C[]> mem; std::string log;
    explicit dribble(std::size_t r) : strf::destination<C>(nullptr, nullptr), room(r), buf(nullptr), mem(new C[r + 64]) {
        buf = mem.get(); this->set_buffer_ptr(buf); this->set_buffer_end(buf + room); }
    void flush() { log += std::to_string(this->buffer_ptr() - buf) + " "; got.insert(got.end(), buf, this->buffer_ptr()); this->set_buffer_ptr(buf); }
    void recycle() noexcept override { flush(); }
};
struct notes : strf::transcoding_error_notifier {
    std::string s;
    void invalid_sequence(int sz, const char* n, const void*, std::ptrdiff_t c) override { s += "i" + std::to_string(sz) + (n ? n : "") + std::to_string(c) + ";"; }
    void unsupported_codepoint(const char* n, unsigned cp) override { s += "u" + std::string(n ? n : "") + std::to_string(cp) + ";"; }
};
template <typename C> static std::string units(const C* b, const C* e) { return ev::list(b, e); }
template <typename C, typename P, typename... A> static void emit(const char* what, const P& pack, const A&... a) {
    notes nt; strf::transcoding_error_notifier_ptr np{&nt};
    ev e; e.str("k", what).str("c", nm<C>::n());
    auto n = static_cast<std::size_t>(g.chance(1, 3) ? g.range(1, 12) : g.range(1, 200));
    {   // a bounded string
        std::unique_ptr<C[]> m(new C[n]); std::fill(m.get(), m.get() + n, C(0x7E));
        auto r = strf::to(m.get(), n).with(pack, np)(a...);
        e.units("cstr", m.get(), r.ptr).boolean("trunc", r.truncated).num("nul", unit(*r.ptr));
    }
    {   // a bounded array of units, twice
        std::unique_ptr<C[]> m(new C[n]);
        strf::array_destination<C> d(m.get(), m.get() + n);
        strf::to(d).with(pack)(a...); strf::to(d).with(pack)(a...);
        auto r = d.finish();
        e.units("arr", m.get(), r.ptr).boolean("trunc2", r.truncated);
    }
    {   dribble<C> d(static_cast<std::size_t>(g.range(64, 90)));
        strf::to(static_cast<strf::destination<C>&>(d)).with(pack)(a...); d.flush();
        e.units("drib", d.got.data(), d.got.data() + d.got.size()).str("flushes", d.log); }
    strf::full_premeasurements pm; strf::measure<C>(&pm, pack, a...);
    e.num("size", static_cast<long long>(pm.accumulated_ssize())).num("width", pm.accumulated_width().underlying_value());
    e.str("nt", nt.s);
    out->line(e.done());
}
template <typename C> static std::vector<C> text(bool valid) {
    int n = g.chance(1, 3) ? g.range(0, 5) : g.range(0, 60); std::vector<C> v;
    for (int i = 0; i < n; ++i) {
        char32_t c = g.chance(1, 2) ? static_cast<char32_t>(g.range(0x20, 0x7E)) : g.chance(1, 3) ? static_cast<char32_t>(g.range(0xA0, 0x7FF)) : g.chance(1, 2) ? static_cast<char32_t>(g.range(0x800, 0xFFFD)) : static_cast<char32_t>(g.range(0x10000, 0x10FFFF));
        if (g.chance(1, 4)) { static const char32_t z[] = {0x300, 0x301, 0x200D, 0x1F468, 0x1F1E7, 0x1F1F7, 0xFE0F, 0x1100, 0x1161, 0x4E00}; c = z[g.below(10)]; }
        if (c >= 0xD800 && c < 0xE000) c = 0x20AC;
        if (!valid && g.chance(1, 8)) { v.push_back(static_cast<C>(g.chance(1, 2) ? 0xD800u + g.below(0x800) : 0x80u + g.below(0x80))); continue; }
        if (sizeof(C) == 1) {
            if (c < 0x80) v.push_back(static_cast<C>(c));
            else if (c < 0x800) { v.push_back(static_cast<C>(0xC0 | (c >> 6))); v.push_back(static_cast<C>(0x80 | (c & 0x3F))); }
            else if (c < 0x10000) { v.push_back(static_cast<C>(0xE0 | (c >> 12))); v.push_back(static_cast<C>(0x80 | ((c >> 6) & 0x3F))); v.push_back(static_cast<C>(0x80 | (c & 0x3F))); }
            else { v.push_back(static_cast<C>(0xF0 | (c >> 18))); v.push_back(static_cast<C>(0x80 | ((c >> 12) & 0x3F))); v.push_back(static_cast<C>(0x80 | ((c >> 6) & 0x3F))); v.push_back(static_cast<C>(0x80 | (c & 0x3F))); }
        } else if (sizeof(C) == 2 && c >= 0x10000) { v.push_back(static_cast<C>(0xD800 + ((c - 0x10000) >> 10))); v.push_back(static_cast<C>(0xDC00 + ((c - 0x10000) & 0x3FF))); }
        else v.push_back(static_cast<C>(c));
    }
    for (auto& c : v) if (c == C()) c = C(0x20);
    v.push_back(C());
    return v;
}
static char32_t fill1() { static const char32_t f[] = {U' ', U'*', 0xE9, 0x20AC, 0x1F600, 0xD800, 0x110000, 0}; return f[g.below(8)]; }
static std::int16_t wid1() { return static_cast<std::int16_t>(g.chance(1, 8) ? g.range(0, 400) : g.range(0, 40)); }
// drawn before each call, since the order in which a compiler evaluates arguments is its own
static char32_t FC[8]; static std::int16_t WI[8]; static std::uint64_t RN[8]; 
static void draw() { for (auto& x : FC) x = fill1(); for (auto& x : WI) x = wid1(); for (auto& x : RN) x = g.next(); }
template <typename C> static void ints() {
    auto v = static_cast<long long>(g.chance(1, 10) ? 0x8000000000000000ull : g.next() >> g.below(64)); if (g.chance(1, 2)) v = static_cast<long long>(0ull - static_cast<unsigned long long>(v));
    auto u = static_cast<unsigned>(g.next()); auto h = static_cast<short>(g.next());
    int p = g.range(0, 30), z = g.range(0, 45);
    int g1 = g.range(1, 4), g2 = g.range(1, 31), g3 = g.chance(1, 2) ? -1 : 2, g4 = g.range(1, 5), lc = g.range(0, 2);
    auto pk = strf::pack(strf::numpunct<10>{g1, g2, g3}.thousands_sep(FC[0]).decimal_point(FC[1]), strf::numpunct<16>{g4}.thousands_sep(U'\''), lc == 0 ? strf::mixedcase : lc == 1 ? strf::uppercase : strf::lowercase);
    switch (g.below(6)) {
        case 0: emit<C>("int", pk, v, C(0x20), u, C(0x20), h); break;
        case 1: emit<C>("int", pk, !strf::dec(v) > WI[0], +strf::dec(v).p(p).pad0(z).fill(FC[0]) < WI[1], ~strf::dec(h).pad0(z)); break;
        case 2: emit<C>("int", pk, *strf::hex(v).p(p), !*strf::hex(u).pad0(z).fill(FC[0]) ^ WI[0]); break;
        case 3: emit<C>("int", pk, *strf::oct(v).p(p).pad0(z), strf::bin(u) > WI[0], !strf::oct(v), *!strf::bin(v).fill(FC[0]) < WI[1]); break;
        case 4: emit<C>("int", pk, strf::punct(v), strf::center(h, WI[0], FC[0]), strf::right(v, WI[1]).hex()); break;
        default: emit<C>("int", pk, (RN[0] & 1) != 0, reinterpret_cast<void*>(static_cast<std::uintptr_t>(RN[1])), strf::right(reinterpret_cast<const void*>(static_cast<std::uintptr_t>(RN[2])), WI[0], FC[0]));
    }
}
static double dbl() {
    std::uint64_t b = g.next(); double d;
    if (g.chance(1, 3)) return static_cast<double>(g.range(-100000, 100000)) / static_cast<double>(1 << g.below(12));
    if (g.chance(1, 20)) b = g.chance(1, 2) ? 0x7FF0000000000000ull : 0x7FF8000000000001ull;
    if (g.chance(1, 10)) b &= 0x800FFFFFFFFFFFFFull;
    std::memcpy(&d, &b, 8); return d;
}
template <typename C> static void floats() {
    double d = dbl(); float f = static_cast<float>(g.range(-5000, 5000)) / static_cast<float>(1 + g.below(77));
    int p = g.range(0, 25), z = g.range(0, 60);
    int g1 = g.range(1, 4), g2 = g.range(1, 31);
    auto pk = strf::pack(strf::numpunct<10>{g1, g2}.thousands_sep(FC[0]).decimal_point(FC[1]), g.chance(1, 2) ? strf::mixedcase : strf::uppercase);
    switch (g.below(6)) {
        case 0: emit<C>("flt", pk, d, C(0x20), f); break;
        case 1: emit<C>("flt", pk, strf::fixed(f, p), !strf::fixed(d).pad0(z) > WI[0]); break;
        case 2: emit<C>("flt", pk, strf::sci(d, p), *+strf::sci(f).fill(FC[0]) ^ WI[0]); break;
        case 3: emit<C>("flt", pk, strf::hex(d).p(p), ~*strf::hex(f).pad0(z).fill(FC[0]) < WI[0]); break;
        case 4: emit<C>("flt", pk, strf::gen(d, p), !strf::gen(f).pad0(z)); break;
        default: emit<C>("flt", pk, *strf::fmt(d), strf::center(f, WI[0], FC[0]).fixed().p(p));
    }
}
template <typename C, typename P> static void strings2(const P& pk) {
    auto s = text<C>(g.chance(1, 3)); auto o = text<char>(g.chance(1, 2)); auto w = text<char16_t>(g.chance(1, 2)); auto x = text<char32_t>(g.chance(1, 2));
    // in memory of its own size
    std::unique_ptr<C[]> m(new C[s.size()]); std::copy(s.begin(), s.end(), m.get()); const C* q = m.get();
    int n = g.range(0, 20);
    switch (g.below(7)) {
        case 0: emit<C>("str", pk, q, strf::right(q, WI[0], FC[0])); break;
        case 1: emit<C>("str", pk, strf::sani(q), strf::fmt(q).p(static_cast<strf::width_t>(n)).fill(FC[0]) > WI[0]); break;
        case 2: emit<C>("str", pk, strf::transcode(w.data()), strf::center(q, WI[0], FC[0])); break;
        case 3: emit<C>("str", pk, strf::transcode(x.data()).p(static_cast<strf::width_t>(n)).fill(FC[0]) < WI[0], strf::transcode(o.data()) > WI[1]); break;
        case 4: emit<C>("str", pk, strf::transcode(o.data(), strf::iso_8859_3<char>).fill(FC[0]) ^ WI[0], strf::transcode(o.data(), strf::windows_1252<char>).p(static_cast<strf::width_t>(n))); break;
        case 5: emit<C>("str", pk, static_cast<C>(0x41), strf::multi(FC[0], n), strf::multi(C(0x2D), n).fill(FC[1]) > WI[0], strf::join_right(WI[1], FC[2])(q, 1, strf::left(q, WI[2]))); break;
        default: { int a[5]; for (int& y : a) y = static_cast<int>(g.next()); C sep[3] = {C(0x2C), C(0x20), C()};
            emit<C>("str", pk, strf::separated_range(a, sep), !strf::fmt_range(a).hex() > 12, strf::join_center(WI[0])(strf::range(a), q)); }
    }
}
template <typename C> static void strings() {
    switch (g.below(4)) {
        case 0: strings2<C>(strf::pack(strf::fast_width)); break;
        case 1: strings2<C>(strf::pack(strf::width_as_u32len)); break;
        default: strings2<C>(strf::pack());
    }
}
// destination charset of one byte per character
static void single_byte() {
    auto s = text<char16_t>(true); auto o = text<char>(true);
    emit<char>("sb", strf::pack(strf::iso_8859_15<char>), strf::transcode(s.data()), strf::transcode(o.data(), strf::utf8<char>), strf::multi(FC[0], 3), *strf::fixed(dbl()).fill(FC[1]) > WI[0]);
    emit<char>("sb", strf::pack(strf::windows_1250<char>, strf::numpunct<10>{2}.thousands_sep(FC[0])), strf::transcode(s.data()).fill(FC[1]) > WI[0], !strf::dec(static_cast<int>(RN[0])));
}
template <typename C> static void trs() {
    static const char* const T[] = {"a{}b{}c{}", "{2} {1} {0}", "{{ {} {5} {", "{} {- comment} {} {}", "}{ {1} {}", "{0}{0}{0}{", "{x}{}"};
    const char* t = T[g.below(7)]; std::vector<C> f; for (const char* p = t; *p; ++p) f.push_back(static_cast<C>(*p)); f.push_back(C());
    emit<C>("tr", strf::pack(strf::fast_width), strf::tr(f.data(), static_cast<int>(RN[0]), strf::hex(static_cast<unsigned>(RN[1] & 511)).p(5), strf::right(C(0x40), WI[0], FC[0])));
}
// transcoders, width calculators and charsets, called directly
template <typename S, typename D> static void direct(const strf::dynamic_charset<S>& a, const strf::dynamic_charset<D>& b) {
    auto s = text<S>(g.chance(1, 2)); s.pop_back(); auto n = s.size();
    std::unique_ptr<S[]> m(new S[n]); std::copy(s.begin(), s.end(), m.get());
    auto room = static_cast<std::size_t>(g.range(0, 200)); std::unique_ptr<D[]> d(new D[room]);
    bool lax = g.chance(1, 2), inv = g.chance(1, 4), uns = g.chance(1, 4);
    auto fl = strf::transcode_flags::none;
    if (lax) fl |= strf::transcode_flags::lax_surrogate_policy;
    if (inv) fl |= strf::transcode_flags::stop_on_invalid_sequence;
    if (uns) fl |= strf::transcode_flags::stop_on_unsupported_codepoint;
    strf::dynamic_transcoder<S, D> t(strf::find_transcoder(a, b)); notes nt;
    ev e; e.str("k", "direct").str("s", nm<S>::n()).str("d", nm<D>::n()).boolean("has", static_cast<bool>(t.transcode_func()));
    if (t.transcode_func()) {
        auto r = t.transcode(m.get(), m.get() + n, d.get(), d.get() + room, &nt, fl);
        e.num("read", r.src_ptr - m.get()).units("out", d.get(), r.dst_ptr).num("why", static_cast<int>(r.stop_reason));
        auto q = t.transcode_size(m.get(), m.get() + n, static_cast<std::ptrdiff_t>(room), fl);
        e.num("size", q.ssize).num("sread", q.src_ptr - m.get()).num("swhy", static_cast<int>(q.stop_reason));
    }
    e.str("nt", nt.s);
    out->line(e.done());
    auto lim = strf::width_t(static_cast<std::uint16_t>(g.range(0, 60)));
    auto w = strf::std_width_calc.str_width(a, lim, m.get(), m.get() + n);
    auto x = strf::std_width_calc.str_width_and_pos(a, lim, m.get(), m.get() + n);
    auto y = strf::width_as_u32len.str_width_and_pos(a, lim, m.get(), m.get() + n);
    auto c = a.count_codepoints(m.get(), m.get() + n, static_cast<std::ptrdiff_t>(g.below(60)));
    ev f; f.str("k", "width").num("w", w.underlying_value()).num("x", x.width.underlying_value()).num("xp", x.ptr - m.get()).num("y", y.width.underlying_value()).num("yp", y.ptr - m.get()).num("c", c.count).num("cp", c.ptr - m.get());
    out->line(f.done());
}
template <typename S, typename D> static void pairs() { direct<S, D>(strf::utf_t<S>().to_dynamic(), strf::utf_t<D>().to_dynamic()); }
template <typename S> static void pairs1() { switch (g.below(4)) { case 0: pairs<S, char>(); break; case 1: pairs<S, char16_t>(); break; case 2: pairs<S, char32_t>(); break; default: pairs<S, VT_W>(); } }
static void sb_pairs() {
    const strf::dynamic_charset<char> all[] = {strf::utf8<char>.to_dynamic(), strf::ascii<char>.to_dynamic(), strf::iso_8859_1<char>.to_dynamic(), strf::iso_8859_3<char>.to_dynamic(), strf::iso_8859_7<char>.to_dynamic(), strf::iso_8859_15<char>.to_dynamic(), strf::iso_8859_16<char>.to_dynamic(), strf::windows_1250<char>.to_dynamic(), strf::windows_1251<char>.to_dynamic(), strf::windows_1252<char>.to_dynamic(), strf::windows_1258<char>.to_dynamic()};
    auto i = g.below(11), j = g.below(11); direct<char, char>(all[i], all[j]);
}
template <typename C> static void kind() { switch (g.below(9)) { case 0: case 1: ints<C>(); break; case 2: case 3: floats<C>(); break; case 4: trs<C>(); break; case 5: pairs1<C>(); break; default: strings<C>(); } }
int main(int argc, char** argv) {
    args a(argc, argv); g = rng(a.seed); out_file f(a.out.c_str()); out = &f;
    while (static_cast<long>(f.count()) < a.n) {
        draw(); switch (g.below(8)) { case 0: case 1: kind<char>(); break; case 2: case 3: kind<char16_t>(); break; case 4: kind<char32_t>(); break; case 5: kind<VT_W>(); break; case 6: sb_pairs(); break; default: single_byte(); }
        f.sync();
    }
}
