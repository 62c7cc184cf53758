// Strings: plain, transcoded, sanitized; precision, alignment; every pair of character types (C13, C05, C01).
#include <string_view>
#include "print.hpp"
#include "gen_grapheme.hpp"
#include "any_wc.hpp"
using namespace vt;
namespace {
template <typename C> struct ct;
template <> struct ct<char> { static constexpr const char* n = "char"; };
template <> struct ct<char8_t> { static constexpr const char* n = "char8"; };
template <> struct ct<char16_t> { static constexpr const char* n = "char16"; };
template <> struct ct<char32_t> { static constexpr const char* n = "char32"; };
template <> struct ct<wchar_t> { static constexpr const char* n = "wchar"; };
// ---- notifications
struct notes_t : strf::transcoding_error_notifier {
    const char* base = nullptr; std::size_t unit = 1; std::vector<std::string> v; bool ok = true;
    void add(std::string s) { for (auto& x : v) if (x == s) return; v.push_back(std::move(s)); }
    void invalid_sequence(int sz, const char* name, const void* p, std::ptrdiff_t n) override {
        if (sz != static_cast<int>(unit) || !name) ok = false;
        add("[0," + std::to_string((static_cast<const char*>(p) - base) / static_cast<std::ptrdiff_t>(unit)) + "," + std::to_string(n) + "]"); }
    void unsupported_codepoint(const char*, unsigned cp) override { add("[1," + std::to_string(clampi(cp)) + ",0]"); }
    std::string json() const { std::string r = "["; for (auto& x : v) { if (r.size() > 1) r += ','; r += x; } return r + "]"; }
};
template <typename C> struct dyn_pick { const char* name; strf::dynamic_charset<C> cs; };
template <typename C> dyn_pick<C> random_dyn() { return {strf::utf_t<C>().name(), strf::utf_t<C>().to_dynamic()}; }
template <> inline dyn_pick<char> random_dyn<char>() {
    static const std::vector<dyn_pick<char>> all = {
        {"UTF-8", strf::utf_t<char>().to_dynamic()},
#define X(id) {strf::id##_t<char>().name(), strf::id##_t<char>().to_dynamic()},
        VT_SB_CHARSETS(X)
#undef X
    };
    return gen.chance(1, 2) ? all[0] : all[gen.below(static_cast<unsigned>(all.size()))];
}
// the code points that most single-byte charsets have or lack
const char32_t sb_cps[] = {0x20, 0x41, 0x7E, 0x80, 0x85, 0xA0, 0xA3, 0xE9, 0xFF, 0x100, 0x141, 0x152, 0x153, 0x160, 0x17D, 0x3B1, 0x416, 0x5D0, 0x627, 0xE01, 0x2013, 0x2019, 0x20AC, 0x2122, 0xFFFD};
template <typename S> std::basic_string<S> random_text(bool sb, bool valid) {
    int n = gen.chance(1, 2) ? gen.range(0, 8) : gen.chance(1, 10) ? gen.range(0, 300) : gen.range(0, 40);
    std::basic_string<S> s;
    if (sb) { for (int i = 0; i < n; ++i) s += static_cast<S>(valid && gen.chance(1, 2) ? 0x20 + gen.below(0x5F) : gen.below(256)); return s; }
    if (!valid && gen.chance(1, 2)) return utf_text<S>(gen, n, 300);
    std::u32string t;
    if (gen.chance(1, 2)) t = grapheme_text(gen, n);
    else for (int i = 0; i < n; ++i) t += gen.chance(2, 3) ? sb_cps[gen.below(sizeof(sb_cps) / sizeof(sb_cps[0]))] : static_cast<char32_t>(interesting_cp(gen, false));
    return encode_as<S>(t);
}
struct str_case { const char* st; std::string scs, v, mode; bool p; int prec; align f; std::string cs, fs; };
notes_t notes; bool fast_wc = false;
std::string jstr(const str_case& c) {
    ev e; e.str("k", "str").str("st", c.st).str("ty", std::string("str.") + c.st).str("scs", c.scs).raw("v", c.v).str("mode", c.mode).raw("f", c.f.json());
    if (c.p) e.num("p", c.prec);
    return jlist({e.done()});
}
void record_notes(ev& e) { e.raw("nt", notes.json()); e.boolean("ntok", notes.ok); }
template <typename FP, typename A> void go(const str_case& c, const FP& fp, const A& a) {
    after_print = record_notes; emit(c.cs.c_str(), c.fs, fp, jstr(c), a); after_print = nullptr;
}
strf::width_t W(int u) { return strf::width_t::from_underlying(u); }
// x: the string, already with its mode. Precision and alignment are added here.
template <typename FP, typename X> void formats(str_case& c, const FP& fp, const X& x, int forms) {
    align a = c.f; c.f = no_align(); c.p = false;
    // "fast" counts units: a precision may cut a sequence, and the text is then not valid
    if (c.mode == "unsafe" && fast_wc) c.prec = 0x7FFFFFFF;
    switch (gen.below(forms)) {
        case 0: c.f = a; go(c, fp, x.set_alignment_format(a.get())); break;
        case 1: c.f = a; c.p = true; go(c, fp, x.p(W(c.prec)).set_alignment_format(a.get())); break;
        case 2: go(c, fp, x); break;
        default: c.p = true; go(c, fp, x.p(W(c.prec)));
    }
}
template <typename FP, typename X, typename E> void modes(str_case& c, const FP& fp, const X& x, const E& ecs, bool valid, int forms) {
    switch (gen.below(valid ? 4 : 3)) {
        case 0: case 1: c.mode = "tr"; formats(c, fp, x.transcode(ecs), forms); break;
        case 2: c.mode = "sani"; formats(c, fp, x.sanitize_from(ecs), forms); break;
        default: c.mode = "unsafe"; formats(c, fp, x.unsafe_transcode(ecs), forms);
    }
}
template <typename FP, typename X> void modes0(str_case& c, const FP& fp, const X& x, bool valid, int forms) {
    switch (gen.below(valid ? 4 : 3)) {
        case 0: case 1: c.mode = "tr"; formats(c, fp, x.transcode(), forms); break;
        case 2: c.mode = "sani"; formats(c, fp, x.sani(), forms); break;
        default: c.mode = "unsafe"; formats(c, fp, x.unsafe_transcode(), forms);
    }
}
template <typename S> struct block { std::unique_ptr<S[]> b; std::size_t n; 
    explicit block(const std::basic_string<S>& s) : b(new S[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), b.get()); }
    std::basic_string_view<S> view() const { return {b.get(), n}; } };
template <typename S> bool sb(const char* name) { return sizeof(S) == 1 && std::strcmp(name, "UTF-8") != 0; }
inline std::string fcs(const char* st, const char* name, const char* on = "[\"*\"]") { return ev().str("c", std::string("cs.") + st).raw("on", on).str("v", name).done(); }
template <typename S> struct setup {
    str_case c; bool valid = gen.chance(1, 2); int wc = static_cast<int>(gen.below(valid ? 4 : 3)); any_wc w{wc}; block<S> b{std::basic_string<S>()}; std::basic_string<S> s;
    strf::transcoding_error_notifier_ptr np{&notes};
    void text(const char* srccs) {
        bool one = sb<S>(srccs);
        if (one && wc == 3) { wc = 2; w.k = 2; }
        // a single-byte charset may have undefined bytes: not "valid" text then
        if (one && valid) { s = random_text<S>(true, true); for (auto& x : s) x = static_cast<S>(static_cast<unsigned char>(x) & 0x7F); }
        else s = random_text<S>(one, valid);
        b = block<S>(s);
        c.st = ct<S>::n; c.v = ev::list(s.begin(), s.end());
        c.prec = gen.chance(1, 20) ? (gen.chance(1, 2) ? 0x7FFFFFFF : -static_cast<int>(gen.below(100000))) : gen.range(0, static_cast<int>(s.size()) + 2) * 65536;
        if (gen.chance(1, 6)) { static const int fr[] = {1, 0x7FFF, 0x8000, 0x8001, 0xFFFF}; if (c.prec >= 0 && c.prec < 0x7FFF0000) c.prec += fr[gen.below(5)]; }
        c.f = random_align(static_cast<int>(s.size()) + 10);
        fast_wc = wc == 1; notes.v.clear(); notes.ok = true; notes.base = reinterpret_cast<const char*>(b.b.get()); notes.unit = sizeof(S);
    }
};
// D: destination charset facet (static or dynamic)
template <typename S, typename DCS> void with_dst(const char* dname, const DCS& dcs, int level) {
    constexpr bool same = std::is_same<S, ch_t>::value;
    auto sf = random_dyn<S>();          // facet for the source
    auto ex = random_dyn<S>();          // explicit
    if (sizeof(S) == 1 && sizeof(ch_t) == 1 && gen.chance(1, 4)) for (int i = 0; i < 6 && std::strcmp(ex.name, dname) != 0; ++i) ex = random_dyn<S>();
    setup<S> u; u.c.cs = dname;
    const char* facet_src = same ? dname : sf.name;
    auto fs = [&](const char* on) { return same ? jlist({fcs(ct<ch_t>::n, dname), fwcalc(u.wc, on)}) : jlist({fcs(ct<ch_t>::n, dname), fcs(ct<S>::n, sf.name), fwcalc(u.wc, on)}); };
    int how = static_cast<int>(gen.below(level == 0 ? 5 : 3));
    if (same && level == 1 && gen.chance(1, 4)) how = 4;
    int forms = level == 0 ? 4 : 2;
    const char* src = how == 1 || how == 2 ? ex.name : how == 3 ? strf::utf_t<S>().name() : facet_src;
    if (how == 3) u.c.scs = src; else if (how == 1 || how == 2) u.c.scs = ex.name;
    u.text(src); u.c.fs = fs("[\"*\"]");
    auto x = strf::fmt(u.b.view());
    if constexpr (same) {
        auto fp = strf::pack(dcs, u.w, u.np);
        switch (how) {
            case 0: modes0(u.c, fp, x, u.valid, forms); break;
            case 1: case 2: modes(u.c, fp, x, ex.cs, u.valid, forms); break;
            case 3: modes(u.c, fp, x, strf::utf_t<S>(), u.valid, forms); break;
            default: {  // as it is
                u.c.mode = "plain"; align iw = u.c.f; iw.w = iw.w / 65536 * 65536;
                switch (gen.below(7)) {
                    case 0: u.c.f = no_align(); u.c.p = false; go(u.c, fp, u.b.view()); break;
                    case 1: { auto z = u.s.find(S()); if (z != std::basic_string<S>::npos) { u.s.resize(z); u.c.v = ev::list(u.s.begin(), u.s.end()); } u.c.f = no_align(); u.c.p = false;
                        std::unique_ptr<S[]> p(new S[u.s.size() + 1]); std::copy(u.s.begin(), u.s.end(), p.get()); p[u.s.size()] = S(); const S* q = p.get(); go(u.c, fp, q); break; }
                    case 2: u.c.p = false; iw.al = '^'; u.c.f = iw; go(u.c, fp, strf::center(u.s, iw.w / 65536, iw.fill)); break;
                    case 3: u.c.p = true; iw.al = '<'; u.c.f = iw; go(u.c, fp, (strf::fmt(u.s).fill(iw.fill) < iw.w / 65536).p(W(u.c.prec))); break;
                    default: formats(u.c, fp, x, 4);
                } } }
    } else {
        auto fp = strf::pack(dcs, sf.cs, u.w, u.np);
        switch (how) {
            case 0: case 4: modes0(u.c, fp, x, u.valid, forms); break;
            case 3: modes(u.c, fp, x, strf::utf_t<S>(), u.valid, forms); break;
            default: modes(u.c, fp, x, ex.cs, u.valid, forms); break;
        }
    }
}
// no charset facets at all; free functions
template <typename S> void defaults() {
    setup<S> u; u.c.cs = strf::utf_t<ch_t>().name(); u.text(strf::utf_t<S>().name()); u.c.fs = jlist({fwcalc(u.wc)});
    auto fp = strf::pack(u.w, u.np); u.c.f = no_align(); u.c.p = false; auto v = u.b.view();
    auto ex = random_dyn<S>();
    switch (gen.below(u.valid ? 5 : 4)) {
        case 0: u.c.mode = "tr"; go(u.c, fp, strf::transcode(v)); break;
        case 1: u.c.mode = "sani"; go(u.c, fp, strf::sani(v)); break;
        case 2: u.text(ex.name); u.c.f = no_align(); u.c.p = false; u.c.scs = ex.name; u.c.mode = "tr"; u.c.fs = jlist({fwcalc(u.wc)}); go(u.c, strf::pack(u.w, u.np), strf::transcode(u.b.view(), ex.cs)); break;
        case 3: u.text(ex.name); u.c.f = no_align(); u.c.p = false; u.c.scs = ex.name; u.c.mode = "sani"; u.c.fs = jlist({fwcalc(u.wc)}); go(u.c, strf::pack(u.w, u.np), strf::sani(u.b.view(), ex.cs)); break;
        default: u.c.mode = "unsafe"; go(u.c, fp, strf::unsafe_transcode(v));
    }
}
// the facets constrained to strings of the type
template <typename T> struct str_of { template <typename U> struct pred : std::is_base_of<strf::string_input_tag<T>, U> {}; };
template <typename S> void constrained() {
    auto d = random_dyn<ch_t>(); auto sf = random_dyn<S>(); setup<S> u; u.c.cs = d.name;
    constexpr bool same = std::is_same<S, ch_t>::value;
    u.text(same ? d.name : sf.name); int w0 = static_cast<int>(gen.below(3));
    std::string on = std::string("[\"str.") + ct<S>::n + "\"]";
    u.c.fs = same ? jlist({fcs(ct<ch_t>::n, d.name), fwcalc(w0), fwcalc(u.wc, on.c_str())}) : jlist({fcs(ct<ch_t>::n, d.name), fcs(ct<S>::n, sf.name), fwcalc(w0), fwcalc(u.wc, on.c_str())});
    u.c.mode = "tr"; auto x = strf::fmt(u.b.view()).transcode();
    if constexpr (same) formats(u.c, strf::pack(d.cs, any_wc{w0}, strf::constrain<str_of<S>::template pred>(u.w), u.np), x, 2);
    else formats(u.c, strf::pack(d.cs, sf.cs, any_wc{w0}, strf::constrain<str_of<S>::template pred>(u.w), u.np), x, 2);
}
template <typename S> void run() {
    constexpr bool same = std::is_same<S, ch_t>::value;
    switch (gen.below(8)) {
        case 0: defaults<S>(); break;
        case 1: constrained<S>(); break;
#if VT_CHAR == 0
        case 2: case 3: if (same) { with_dst<S>(strf::iso_8859_15_t<char>().name(), strf::iso_8859_15_t<char>(), same && !VT_ASPECT ? 0 : 1); break; } // fallthrough
        case 4: with_dst<S>(strf::utf_t<char>().name(), strf::utf_t<char>(), same && !VT_ASPECT ? 0 : 1); break;
#else
        case 2: case 3: with_dst<S>(strf::utf_t<ch_t>().name(), strf::utf_t<ch_t>(), same && !VT_ASPECT ? 0 : 1); break;
#endif
        default: { auto d = random_dyn<ch_t>(); with_dst<S>(d.name, d.cs, same && !VT_ASPECT ? 0 : 1); }
    }
}
} // namespace
void VT_ENTRY(run_str_)() {
    switch (gen.below(8)) {
        case 0: run<char>(); break;
        case 1: run<char16_t>(); break;
#if VT_ASPECT == 0  // (the other aspects take longer to compile)
        case 2: run<char32_t>(); break;
        case 3: run<wchar_t>(); break;
        case 4: run<char8_t>(); break;
#endif
        default: run<ch_t>();
    }
}
