// Charset primitives on random arguments, and transcoders found by find_transcoder over every pair of charsets (C12).
#include <strf.hpp>
#include "vt.hpp"
#include "gen_text.hpp"
#include "charsets_list.hpp"
using namespace vt;
static out_file* out;
static const char* reason(strf::transcode_stop_reason r) {
    static const char* n[] = {"completed", "space", "unsupported", "invalid"};
    auto k = static_cast<unsigned>(r);
    return k < 4 ? n[k] : "?";
}
template <typename C> struct sink : strf::output_buffer<C, 3> {
    C buf[9]; std::basic_string<C> got;
    sink() : strf::output_buffer<C, 3>(buf, buf + 8) {}
    void recycle() override { got.append(buf, this->buffer_ptr()); this->set_buffer_ptr(buf); }
};
template <typename C> using any_cs = strf::dynamic_charset<C>;
template <typename C> static std::basic_string<C> text(rng& r, const any_cs<C>& cs, int n, unsigned bad) {
    std::basic_string<C> s;
    if (!std::strcmp(cs.name(), "UTF-8")) { auto t = text8(r, n, bad, false); for (char c : t) s += static_cast<C>(c); return s; }
    if (!std::strcmp(cs.name(), "UTF-16")) { for (auto c : text16(r, n, bad, false)) s += static_cast<C>(c); return s; }
    if (!std::strcmp(cs.name(), "UTF-32")) { for (auto c : text32(r, n, bad, false)) s += static_cast<C>(c); return s; }
    for (int i = 0; i < n; ++i) s += static_cast<C>(r.chance(1, 3) ? r.below(128) : 128 + r.below(128));
    return s;
}
template <typename C> static void prim(rng& r, const any_cs<C>& cs) {
    switch (r.below(4)) {
        case 0: case 1: {
            bool fast = r.chance(1, 2);
            auto s = text(r, cs, r.chance(1, 6) ? r.range(20, 120) : r.range(0, 10), fast ? 0 : 400);
            long mx = r.chance(1, 6) ? 1000000 : r.range(0, static_cast<int>(s.size()) + 1);
            auto p = fast ? cs.count_codepoints_fast(s.data(), s.data() + s.size(), mx) : cs.count_codepoints(s.data(), s.data() + s.size(), mx);
            ev e; e.str("k", fast ? "fast" : "count").str("e", cs.name()).units("in", s.begin(), s.end()).num("max", mx).raw("got", ev::ints(std::vector<long long>{p.count, p.ptr - s.data()}));
            out->line(e.done());
            break;
        }
        case 2: {
            char32_t ch = static_cast<char32_t>(interesting_cp(r, true));
            int n = r.chance(1, 5) ? r.range(20, 60) : r.range(0, 8);
            sink<C> d;
            // start anywhere in the buffer
            int pre = r.range(0, 5);
            for (int i = 0; i < pre; ++i) { *d.buffer_ptr() = static_cast<C>('x'); d.advance(1); }
            cs.encode_fill(d, n, ch);
            d.recycle();
            out->line(ev().str("k", "fill").str("e", cs.name()).num("cp", static_cast<long>(ch)).num("n", n).units("got", d.got.begin() + pre, d.got.end()).done());
            break;
        }
        default: {
            char32_t ch = static_cast<char32_t>(r.chance(1, 10) ? 0x110000 + r.below(0x7F000000) : interesting_cp(r, true));
            C b[8]; C* e = cs.encode_char(b, ch);
            out->line(ev().str("k", "chr").str("e", cs.name()).num("cp", unit(ch)).num("v", cs.validate(ch)).num("z", cs.encoded_char_size(ch)).units("u", b, e).done());
        }
    }
}
template <typename S, typename D> static void find_case(rng& r, const any_cs<S>& a, const any_cs<D>& b, const strf::dynamic_transcoder<S, D>& t) {
    if (!t.transcode_func() || !t.transcode_size_func()) {
        // converting to or from UTF-32 is always possible
        if (sizeof(S) == 4 || sizeof(D) == 4) {
            if (std::is_same<S, char32_t>::value || std::is_same<D, char32_t>::value) out->line(ev().str("k", "no transcoder").str("s", a.name()).str("d", b.name()).done());
        }
        return;
    }
    int fl = static_cast<int>(r.below(8));
    auto f = strf::transcode_flags::none;
    if (fl & 1) f |= strf::transcode_flags::lax_surrogate_policy;
    if (fl & 2) f |= strf::transcode_flags::stop_on_invalid_sequence;
    if (fl & 4) f |= strf::transcode_flags::stop_on_unsupported_codepoint;
    auto s = text(r, a, r.range(0, 6), 300);
    long lim = r.chance(1, 2) ? static_cast<long>(s.size()) * 4 + 4 : r.range(0, static_cast<int>(s.size()) + 1);
    std::vector<D> dst(static_cast<std::size_t>(lim) + 1);
    auto o = t.transcode(s.data(), s.data() + s.size(), dst.data(), dst.data() + lim, nullptr, f);
    auto z = t.transcode_size(s.data(), s.data() + s.size(), lim, f);
    long w = clampi(o.dst_ptr - dst.data());
    bool inr = 0 <= w && w <= lim;
    ev e;
    e.str("k", "tr").str("s", a.name()).str("d", b.name()).boolean("lax", fl & 1).boolean("sinv", fl & 2).boolean("suns", fl & 4).num("lim", lim).units("in", s.begin(), s.end());
    e.raw("o", ev().units("out", dst.data(), dst.data() + (inr ? w : 0)).num("sp", o.src_ptr - s.data()).str("st", reason(o.stop_reason)).boolean("inr", inr).done());
    e.raw("z", ev().num("n", z.ssize).num("sp", z.src_ptr - s.data()).str("st", reason(z.stop_reason)).done());
    out->line(e.done());
}
template <typename C> struct set_of { std::vector<any_cs<C>> v; };
template <typename S, typename D> static void dyn_pair(rng& r, const set_of<S>& a, const set_of<D>& b) {
    auto x = r.pick(a.v); auto y = r.chance(1, 4) ? any_cs<D>(strf::utf_t<D>{}) : r.pick(b.v);
    if (r.chance(1, 3)) x = any_cs<S>(strf::utf_t<S>{});
    find_case<S, D>(r, x, y, strf::dynamic_transcoder<S, D>(strf::find_transcoder(x, y)));
}
template <typename S, typename D, typename CS> static void static_src(rng& r, CS cs, const set_of<D>& b) {
    auto y = r.pick(b.v);
    find_case<S, D>(r, any_cs<S>(cs), y, strf::dynamic_transcoder<S, D>(strf::find_transcoder(cs, y)));
}
template <typename S, typename D, typename CS> static void static_dst(rng& r, const set_of<S>& a, CS cs) {
    auto x = r.pick(a.v);
    find_case<S, D>(r, x, any_cs<D>(cs), strf::dynamic_transcoder<S, D>(strf::find_transcoder(x, cs)));
}
template <typename S, typename D, typename A, typename B> static void statics(rng& r, A a, B b) {
    find_case<S, D>(r, any_cs<S>(a), any_cs<D>(b), strf::dynamic_transcoder<S, D>(strf::find_transcoder(a, b)));
}
int main(int argc, char** argv) {
    args a(argc, argv);
    out_file of(a.out.c_str()); out = &of;
    rng r(a.seed);
    set_of<char> c1; set_of<char8_t> cu; set_of<char16_t> c2; set_of<char32_t> c4; set_of<wchar_t> cw;
#define X(n) c1.v.push_back(any_cs<char>(strf::n##_t<char>{})); cu.v.push_back(any_cs<char8_t>(strf::n##_t<char8_t>{}));
    VT_SB_CHARSETS(X)
#undef X
    for (int i = 0; i < 8; ++i) { c1.v.push_back(any_cs<char>(strf::utf8_t<char>{})); cu.v.push_back(any_cs<char8_t>(strf::utf8_t<char8_t>{})); }
    c2.v.push_back(any_cs<char16_t>(strf::utf16_t<char16_t>{})); c4.v.push_back(any_cs<char32_t>(strf::utf32_t<char32_t>{})); cw.v.push_back(any_cs<wchar_t>(strf::utf32_t<wchar_t>{}));
    while (of.count() < static_cast<std::size_t>(a.n)) {
        switch (r.below(28)) {
            case 0: case 1: prim(r, r.pick(c1.v)); break;
            case 2: prim(r, r.pick(cu.v)); break;
            case 3: prim(r, c2.v[0]); break;
            case 4: prim(r, c4.v[0]); break;
            case 5: prim(r, cw.v[0]); break;
            case 6: dyn_pair(r, c1, c1); break;
            case 7: dyn_pair(r, c1, c2); break;
            case 8: dyn_pair(r, c1, c4); break;
            case 9: dyn_pair(r, c1, cw); break;
            case 10: dyn_pair(r, c2, c1); break;
            case 11: dyn_pair(r, c2, c2); break;
            case 12: dyn_pair(r, c2, c4); break;
            case 13: dyn_pair(r, c4, c1); break;
            case 14: dyn_pair(r, c4, c2); break;
            case 15: dyn_pair(r, cw, c1); break;
            case 16: dyn_pair(r, cw, c2); break;
            case 17: dyn_pair(r, c2, cw); break;
            case 18: dyn_pair(r, cu, c1); break;
            case 19: dyn_pair(r, c1, cu); break;
            case 20: dyn_pair(r, cu, cu); break;
            case 21: dyn_pair(r, cu, c4); dyn_pair(r, c4, cu); break;
            case 22: dyn_pair(r, cw, cw); dyn_pair(r, c4, c4); dyn_pair(r, cw, c4); dyn_pair(r, c4, cw); break;
            case 23: static_src<char, char>(r, strf::utf8_t<char>{}, c1); static_dst<char, char>(r, c1, strf::utf8_t<char>{}); break;
            case 24: static_src<char, char16_t>(r, strf::iso_8859_3_t<char>{}, c2); static_dst<char16_t, char>(r, c2, strf::windows_1252_t<char>{}); break;
            case 25: statics<char, char16_t>(r, strf::utf8_t<char>{}, strf::utf16_t<char16_t>{}); statics<char16_t, char>(r, strf::utf16_t<char16_t>{}, strf::utf8_t<char>{}); break;
            case 26: statics<wchar_t, char>(r, strf::utf32_t<wchar_t>{}, strf::iso_8859_7_t<char>{}); statics<char, wchar_t>(r, strf::iso_8859_7_t<char>{}, strf::utf32_t<wchar_t>{}); statics<char8_t, wchar_t>(r, strf::utf8_t<char8_t>{}, strf::utf32_t<wchar_t>{}); break;
            default: statics<char, char>(r, strf::iso_8859_2_t<char>{}, strf::iso_8859_2_t<char>{}); statics<char, char>(r, strf::ascii_t<char>{}, strf::iso_8859_2_t<char>{}); statics<char, char8_t>(r, strf::utf8_t<char>{}, strf::utf8_t<char8_t>{}); break;
        }
    }
    return 0;
}
