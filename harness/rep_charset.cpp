// Exhaustive replay of the single-byte tables (mode sb, C11) and of the charset primitives (mode prim, C12).
#include <strf.hpp>
#include "tables.hpp"
#include "charsets_list.hpp"
using namespace vt;
using strf::transcode_flags;
using reason = strf::transcode_stop_reason;
static report rep;
static std::string mode;
static long deep;

// the published name the table is filed under, from the identifier
static std::string key_of(const char* id) {
    std::string s = id;
    if (s == "ascii") return "ASCII";
    if (s.rfind("iso_8859_", 0) == 0) return "ISO-8859-" + s.substr(9);
    return "windows-" + s.substr(8);
}
struct note { int kind; long a, b; bool operator==(const note& o) const { return kind == o.kind && a == o.a && b == o.b; } };
struct rec : strf::transcoding_error_notifier {
    const void* base = nullptr; int usz = 1; const char* inv = ""; const char* uns = ""; std::vector<note> v; bool ok = true;
    void invalid_sequence(int sz, const char* nm, const void* p, std::ptrdiff_t c) override {
        if (sz != usz || std::strcmp(nm, inv)) ok = false;
        v.push_back({0, (static_cast<const char*>(p) - static_cast<const char*>(base)) / usz, static_cast<long>(c)});
    }
    void unsupported_codepoint(const char* nm, unsigned cp) override {
        if (std::strcmp(nm, uns)) ok = false;
        v.push_back({1, static_cast<long>(cp), 0});
    }
};
struct outcome { long sp = 0; std::vector<long> out; reason st = reason::completed; std::vector<note> notes; };
// items: cp (-1: ill-formed); enc: cp -> one unit or -1 (not encodable)
struct machine { bool sinv, suns; long lim; long repl; };
template <typename Enc> static outcome run_machine(const std::vector<long>& cps, const machine& m, Enc enc) {
    outcome o;
    for (std::size_t i = 0; i < cps.size(); ++i) {
        long u = cps[i] < 0 ? -1 : enc(cps[i]);
        if (cps[i] < 0) { o.notes.push_back({0, static_cast<long>(i), 1}); if (m.sinv) { o.st = reason::invalid_sequence; return o; } u = m.repl; }
        else if (u < 0) {
            if (cps[i] != 0xFFFD) { o.notes.push_back({1, cps[i], 0}); if (m.suns) { o.st = reason::unsupported_codepoint; return o; } }
            u = m.repl;
        }
        if (static_cast<long>(o.out.size()) + 1 > m.lim) { o.st = reason::insufficient_output_space; return o; }
        o.out.push_back(u);
        o.sp = static_cast<long>(i) + 1;
    }
    return o;
}
template <typename S, typename D>
static int compare(const strf::dynamic_transcoder<S, D>& t, const std::vector<S>& s, const char* inv, const char* uns, long lim, transcode_flags fl, const outcome& e, const outcome& ez, bool unsafe_too) {
    // returns a bit set: 1 transcode differs, 2 transcode_size differs, 4 unsafe differs
    int bad = 0;
    const S* b = s.data(); const S* en = b + s.size();
    D dst[8]; for (auto& d : dst) d = static_cast<D>(0x7E);
    rec n; n.base = b; n.usz = sizeof(S); n.inv = inv; n.uns = uns;
    auto same = [&](auto r) {
        if (r.src_ptr - b != e.sp || r.dst_ptr - dst != static_cast<long>(e.out.size()) || r.stop_reason != e.st) return false;
        for (std::size_t i = 0; i < e.out.size(); ++i) if (unit(dst[i]) != e.out[i]) return false;
        return unit(dst[lim]) == 0x7E;
    };
    if (!same(t.transcode(b, en, dst, dst + lim, &n, fl)) || !n.ok || !(n.v == e.notes)) bad |= 1;
    if (!same(t.transcode(b, en, dst, dst + lim, nullptr, fl))) bad |= 1;
    auto z = t.transcode_size(b, en, lim, fl);
    if (z.src_ptr - b != ez.sp || z.ssize != static_cast<long>(ez.out.size()) || z.stop_reason != ez.st) bad |= 2;
    if (unsafe_too) {
        n.v.clear();
        if (!same(t.unsafe_transcode(b, en, dst, dst + lim, &n, fl)) || !n.ok || !(n.v == e.notes)) bad |= 4;
        auto u = t.unsafe_transcode_size(b, en, lim, fl);
        if (u.src_ptr - b != e.sp || u.ssize != static_cast<long>(e.out.size()) || u.stop_reason != e.st) bad |= 4;
    }
    return bad;
}
struct flagset { transcode_flags f; bool lax, sinv, suns; };
static std::vector<flagset> flagsets() {
    std::vector<flagset> v;
    for (int i = 0; i < 8; ++i) {
        flagset s{transcode_flags::none, (i & 1) != 0, (i & 2) != 0, (i & 4) != 0};
        if (s.lax) s.f |= transcode_flags::lax_surrogate_policy;
        if (s.sinv) s.f |= transcode_flags::stop_on_invalid_sequence;
        if (s.suns) s.f |= transcode_flags::stop_on_unsupported_codepoint;
        v.push_back(s);
    }
    return v;
}
template <typename CharT> struct sb_api {
    const char* nm;
    strf::dynamic_transcoder<CharT, char32_t> to32; strf::dynamic_transcoder<char32_t, CharT> from32; strf::dynamic_transcoder<CharT, CharT> self;
    strf::dynamic_transcoder<CharT, wchar_t> tow; strf::dynamic_transcoder<wchar_t, CharT> fromw;
    char32_t (*decode_unit)(CharT); strf::dynamic_charset<CharT> dyn;
    template <typename CS> explicit sb_api(CS cs) : nm(cs.name()), to32(cs.to_u32()), from32(cs.from_u32()), self(cs.sanitizer())
        , tow(strf::find_transcoder(cs, strf::utf32<wchar_t>)), fromw(strf::find_transcoder(strf::utf32<wchar_t>, cs)), decode_unit([](CharT c) { return CS{}.decode_unit(c); }), dyn(cs) {}
};
template <typename CharT>
static void sb_charset(const spec_tables& t, const std::string& name, const sb_api<CharT>& cs) {
    const auto& tab = t.sb.at(name);
    std::map<long, long> inv;
    for (int b = 0; b < 256; ++b) if (tab[static_cast<std::size_t>(b)] >= 0) inv[tab[static_cast<std::size_t>(b)]] = b;
    auto dec = [&](long b) { return tab[static_cast<std::size_t>(b)]; };
    auto enc = [&](long cp) { auto it = inv.find(cp); return it == inv.end() ? -1L : it->second; };
    auto ident = [&](long cp) { return cp; };
    auto fls = flagsets();
    long cnt = 0;
    auto fail = [&](const char* what, const std::vector<long>& in, const flagset& f, long lim, int bits) {
        rep.bad(std::string(what) + name + std::to_string(bits), ev().str("what", what).str("charset", name).num("chartype", static_cast<long>(sizeof(CharT))).raw("in", ev::ints(in)).boolean("lax", f.lax).boolean("sinv", f.sinv).boolean("suns", f.suns).num("lim", lim).num("failed", bits).done());
    };
    if (std::strcmp(cs.nm, name.c_str())) rep.bad("name", ev().str("what", "name").str("charset", name).str("got", cs.nm).done());
    auto to32 = cs.to32; auto from32 = cs.from32; auto self = cs.self; auto dyn = cs.dyn;
    auto dto32 = dyn.to_u32(); auto dfrom32 = dyn.from_u32(); auto dself = dyn.sanitizer();
    auto tow = cs.tow; auto fromw = cs.fromw;
    auto one_bytes = [&](const std::vector<long>& bytes, bool all) {
        std::vector<CharT> s; std::vector<long> cps; bool valid = true;
        for (long b : bytes) { s.push_back(static_cast<CharT>(b)); cps.push_back(dec(b)); valid = valid && dec(b) >= 0; }
        for (auto& f : fls) {
            if (!all && (f.lax || f.suns)) continue;
            for (long lim = 0; lim <= static_cast<long>(bytes.size()) + 1; ++lim) {
                if (!all && lim == 1) continue;
                auto e = run_machine(cps, {f.sinv, f.suns, lim, 0xFFFD}, ident);
                int r = compare<CharT, char32_t>(to32, s, name.c_str(), "", lim, f.f, e, e, valid);
                if (r) fail("to UTF-32", bytes, f, lim, r);
                auto es = run_machine(cps, {f.sinv, f.suns, lim, '?'}, enc);
                r = compare<CharT, CharT>(self, s, name.c_str(), "", lim, f.f, es, es, valid);
                if (r) fail("sanitizer", bytes, f, lim, r);
                if (all) {
                    r = compare<CharT, char32_t>(dto32, s, name.c_str(), "", lim, f.f, e, e, valid);
                    if (r) fail("to UTF-32, dynamic", bytes, f, lim, r);
                    r = compare<CharT, CharT>(dself, s, name.c_str(), "", lim, f.f, es, es, valid);
                    if (r) fail("sanitizer, dynamic", bytes, f, lim, r);
                    if (tow.transcode_func()) {
                        r = compare<CharT, wchar_t>(tow, s, name.c_str(), "", lim, f.f, e, e, valid);
                        if (r) fail("to UTF-32 (wchar_t)", bytes, f, lim, r);
                    }
                }
                ++cnt;
            }
        }
    };
    for (long a = 0; a < 256; ++a) {
        one_bytes({a}, true);
        for (long b = 0; b < 256; ++b) one_bytes({a, b}, a >= 0x7E && b >= 0x7E && ((a ^ b) & 7) == 0);
    }
    one_bytes({}, true);
    for (long a : {0x41L, 0x80L, 0xA1L, 0xFFL}) for (long b = 0x7F; b < 256; ++b) for (long c : {0x41L, 0x81L, 0xD2L, 0xFFL}) one_bytes({a, b, c}, false);
    for (int b = 0; b < 256; ++b) {
        long e = dec(b) < 0 ? 0xFFFD : dec(b);
        if (unit(cs.decode_unit(static_cast<CharT>(b))) != e || unit(dyn.decode_unit(static_cast<CharT>(b))) != e) fail("decode_unit", {b}, fls[0], 0, 0);
    }
    auto one_cps = [&](const std::vector<long>& in, bool all) {
        std::vector<char32_t> s; for (long c : in) s.push_back(c == 0x7FFFFFFF ? char32_t(0xFFFFFFFF) : static_cast<char32_t>(c));
        std::vector<wchar_t> w; for (auto c : s) w.push_back(static_cast<wchar_t>(c));
        for (auto& f : fls) {
            if (!all && f.lax && (f.suns || f.sinv)) continue;
            bool valid = true, kf = false;
            std::vector<long> cps, dtr, dz;
            for (long c : in) {
                bool bad = c > 0x10FFFF || (!f.lax && c >= 0xD800 && c < 0xE000);
                valid = valid && !bad;
                bool d = !f.lax && c >= 0xE000 && c <= 0xFFFF;
                kf = kf || d;
                cps.push_back(bad ? -1 : c); dtr.push_back(bad || (d && c != 0xFFFD) ? -1 : c); dz.push_back(bad || d ? -1 : c);
            }
            for (long lim = all ? 0 : static_cast<long>(in.size()); lim <= static_cast<long>(in.size()); ++lim) {
                machine m{f.sinv, f.suns, lim, '?'};
                auto e = run_machine(cps, m, enc);
                auto go = [&](const char* what, auto tr, auto src, bool unsafe) {
                    using S = typename decltype(src)::value_type;
                    int r = compare<S, CharT>(tr, src, "UTF-32", name.c_str(), lim, f.f, e, e, unsafe);
                    if (r && kf) {
                        auto d = run_machine(dtr, m, enc); auto z = run_machine(dz, m, enc);
                        int r2 = r & 4;
                        // the transcoder and the size function each either behave or show the recorded deviation
                        if ((r & 1)) r2 |= compare<S, CharT>(tr, src, "UTF-32", name.c_str(), lim, f.f, d, d, false) & 1;
                        if ((r & 2)) r2 |= compare<S, CharT>(tr, src, "UTF-32", name.c_str(), lim, f.f, z, z, false) & 2;
                        if (!r2) { rep.known("KF-SB-FFFF", ev().str("charset", name).raw("in", ev::ints(in)).done()); return; }
                        r = r2;
                    }
                    if (r) fail(what, in, f, lim, r);
                };
                go("from UTF-32", from32, s, valid);
                if (all) {
                    go("from UTF-32, dynamic", dfrom32, s, valid);
                    if (fromw.transcode_func()) go("from UTF-32 (wchar_t)", fromw, w, valid);
                }
                ++cnt;
            }
        }
    };
    for (long c = 0; c <= 0x110000; ++c) {
        bool near = inv.count(c) || inv.count(c - 1) || inv.count(c + 1) || (c & 0xFFF) == 0 || (c & 0xFFF) == 0xFFF;
        one_cps({c}, near);
        if (near) one_cps({'a', c, 'b'}, true);
    }
    for (long c : {0x110001L, 0x1FFFFFL, 0x7FFFFFFEL, 0x7FFFFFFFL}) { one_cps({c}, true); one_cps({'a', c, 'b'}, true); }
    for (auto& p : inv) for (long c : {0xFFFDL, 0xD800L, 0x110000L, 0xE9L, 0x20ACL}) { one_cps({p.first, c}, false); one_cps({c, p.first}, false); }
    rep.done += cnt;
}
// ---------------------------------------------------------------------------------------------- primitives
template <typename C> struct small_dst : strf::output_buffer<C, 3> {
    C buf[16]; std::basic_string<C> got;
    small_dst() : strf::output_buffer<C, 3>(buf, buf + 16) {}
    void recycle() override { got.append(buf, this->buffer_ptr()); this->set_buffer_ptr(buf); }
    std::basic_string<C> take() { recycle(); auto r = got; got.clear(); return r; }
};
template <typename C> struct prim_api {
    char32_t repl; int repl_size; const char* nm; strf::charset_id csid;
    int (*validate)(char32_t); int (*size)(char32_t); C* (*enc)(C*, char32_t); void (*fill)(strf::transcode_dst<C>&, std::ptrdiff_t, char32_t);
    char32_t (*decode_unit)(C); void (*wrepl)(strf::transcode_dst<C>&);
    strf::count_codepoints_result<C> (*count)(const C*, const C*, std::ptrdiff_t); strf::count_codepoints_result<C> (*fast)(const C*, const C*, std::ptrdiff_t);
    strf::validate_f validate_f; strf::encode_char_f<C> enc_f; strf::encode_fill_f<C> fill_f; strf::write_replacement_char_f<C> wrepl_f;
    strf::dynamic_charset<C> dyn, dyn2;
    template <typename CS> explicit prim_api(CS cs) : repl(cs.replacement_char()), repl_size(cs.replacement_char_size()), nm(cs.name()), csid(cs.id())
        , validate([](char32_t c) { return CS{}.validate(c); }), size([](char32_t c) { return CS{}.encoded_char_size(c); }), enc([](C* p, char32_t c) { return CS{}.encode_char(p, c); })
        , fill([](strf::transcode_dst<C>& d, std::ptrdiff_t n, char32_t c) { CS{}.encode_fill(d, n, c); }), decode_unit([](C c) { return CS{}.decode_unit(c); })
        , wrepl([](strf::transcode_dst<C>& d) { CS{}.write_replacement_char(d); })
        , count([](const C* b, const C* e, std::ptrdiff_t n) { return CS{}.count_codepoints(b, e, n); }), fast([](const C* b, const C* e, std::ptrdiff_t n) { return CS{}.count_codepoints_fast(b, e, n); })
        , validate_f(cs.validate_func()), enc_f(cs.encode_char_func()), fill_f(cs.encode_fill_func()), wrepl_f(cs.write_replacement_char_func()), dyn(cs), dyn2(cs.to_dynamic()) {}
};
using expect_f = std::function<void(long cp, int& validate, int& size, long* units)>;
template <typename C>
static void prims(const std::string& name, const prim_api<C>& cs, const expect_f& expect, long repl, int repl_size, const std::vector<unitrow>& ur) {
    auto dyn = cs.dyn; auto dyn2 = cs.dyn2;
    long cnt = 0;
    auto bad = [&](const char* what, long cp) { rep.bad(what + name, ev().str("what", what).str("charset", name).num("unitsize", sizeof(C)).num("cp", cp).done()); };
    if (unit(cs.repl) != repl || unit(dyn.replacement_char()) != repl || cs.repl_size != repl_size || dyn.replacement_char_size() != repl_size) bad("replacement_char", 0);
    if (std::strcmp(cs.nm, name.c_str()) || std::strcmp(dyn.name(), name.c_str()) || std::strcmp(dyn2.name(), name.c_str())) bad("name", 0);
    if (dyn.id() != cs.csid || dyn2.id() != cs.csid || !(dyn == dyn2) || dyn != dyn2) bad("id", 0);
    {
        int v, z; long u[4];
        expect(repl, v, z, u);
        small_dst<C> d;
        auto same = [&] { auto g = d.take(); if (static_cast<int>(g.size()) != z) return false; for (int i = 0; i < z; ++i) if (unit(g[static_cast<std::size_t>(i)]) != u[i]) return false; return true; };
        cs.wrepl(d); if (!same()) bad("write_replacement_char", 0);
        dyn.write_replacement_char(d); if (!same()) bad("write_replacement_char dynamic", 0);
        cs.wrepl_f(d); if (!same()) bad("write_replacement_char_func", 0);
        dyn.write_replacement_char_func()(d); if (!same()) bad("write_replacement_char_func dynamic", 0);
    }
    auto one = [&](long cp) {
        char32_t ch = cp == 0x7FFFFFFF ? char32_t(0xFFFFFFFF) : static_cast<char32_t>(cp);
        int v, z; long u[4];
        expect(cp, v, z, u);
        if (cs.validate(ch) != v) bad("validate", cp);
        if (cs.size(ch) != z) bad("encoded_char_size", cp);
        if (dyn.validate(ch) != v) bad("validate dynamic", cp);
        if (dyn.encoded_char_size(ch) != z) bad("encoded_char_size dynamic", cp);
        if (cs.validate_f(ch) != v || dyn.validate_func()(ch) != v) bad("validate_func", cp);
        auto chk = [&](const char* what, auto f) {
            C b[6]; b[z] = static_cast<C>(0x5A);
            C* e = f(b, ch);
            bool ok = e - b == z && unit(b[z]) == 0x5A;
            for (int i = 0; ok && i < z; ++i) ok = unit(b[i]) == u[i] || (u[i] == 0x7FFFFFFF && b[i] == static_cast<C>(ch));
            if (!ok) bad(what, cp);
        };
        chk("encode_char", [&](C* p, char32_t c) { return cs.enc(p, c); });
        chk("encode_char dynamic", [&](C* p, char32_t c) { return dyn.encode_char(p, c); });
        chk("encode_char_func", [&](C* p, char32_t c) { return cs.enc_f(p, c); });
        if (cp < 0x300 || (cp & 0xFF) >= 0xF8 || cp > 0x10FF00) {
            small_dst<C> d;
            for (int n : {0, 1, 7, 40}) {
                for (int k = 0; k < 4; ++k) {
                    if (k == 0) cs.fill(d, n, ch); else if (k == 1) dyn.encode_fill(d, n, ch); else if (k == 2) cs.fill_f(d, n, ch); else dyn.encode_fill_func()(d, n, ch);
                    auto g = d.take();
                    bool ok = static_cast<int>(g.size()) == n * z;
                    for (int i = 0; ok && i < n * z; ++i) ok = unit(g[static_cast<std::size_t>(i)]) == u[i % z];
                    if (!ok) { bad("encode_fill", cp); break; }
                }
            }
        }
        ++cnt;
    };
    for (long cp = 0; cp <= 0x110010; ++cp) one(cp);
    for (long cp : {0x1FFFFFL, 0x200000L, 0x3FFFFFFL, 0x4000000L, 0x7FFFFFFEL, 0x7FFFFFFFL}) one(cp);
    for (auto& r : ur) for (long x = r.lo; x <= r.hi && x <= r.lo + 0x110010; ++x) {
        long e = r.r < 0 ? x : r.r;
        if (unit(cs.decode_unit(static_cast<C>(x))) != e || unit(dyn.decode_unit(static_cast<C>(x))) != e) bad("decode_unit", x);
        ++cnt;
    }
    rep.done += cnt;
}
template <typename C, typename CS> static void prims_utf(const spec_tables& t, const std::string& name, CS scs) {
    const auto& pr = t.prim.at(name); const auto& er = t.enc.at(name); long repl = t.repl.at(name);
    long tmp[4]; int rs = encode(er, repl, tmp);
    prims<C>(name, prim_api<C>(scs), [&](long cp, int& v, int& z, long* u) {
        for (auto& r : pr) if (r.lo <= cp && cp <= r.hi) {
            v = r.v;
            if (r.z == 0) { z = encode(er, repl, u); return; }
            z = r.z;
            if (encode(er, cp, u) == 0) u[0] = cp; // UTF-32 above 0x10FFFF: unsanitized
            return;
        }
    }, repl, rs, t.units.at(name));
}
template <typename C, typename CS> static void prims_sb(const spec_tables& t, const std::string& name, CS scs) {
    const auto& tab = t.sb.at(name);
    std::map<long, long> inv; std::vector<unitrow> ur;
    for (long b = 0; b < 256; ++b) { long c = tab[static_cast<std::size_t>(b)]; if (c >= 0) inv[c] = b; ur.push_back({b, b, c < 0 ? 0xFFFD : c}); }
    prims<C>(name, prim_api<C>(scs), [&](long cp, int& v, int& z, long* u) {
        auto it = inv.find(cp);
        v = it == inv.end() && cp != t.repl.at("UTF-8") ? -1 : 1; z = 1; u[0] = it == inv.end() ? '?' : it->second;
    }, '?', 1, ur);
}
// counting over all short boundary strings
template <typename C> static void counts(const spec_tables& t, const std::string& name, const prim_api<C>& cs, const automaton* au) {
    auto dyn = cs.dyn;
    std::vector<long> alpha;
    if (au) { std::set<long> s; for (auto& f : au->from) for (auto& tr : f.second) for (long x : {tr.lo - 1, tr.lo, tr.hi, tr.hi + 1}) if (x >= 0 && x <= (sizeof(C) == 1 ? 255 : sizeof(C) == 2 ? 65535 : 0x7FFFFFFF)) s.insert(x); alpha.assign(s.begin(), s.end()); }
    else alpha = {0x00, 0x41, 0x7F, 0x80, 0x81, 0xA1, 0xD2, 0xFF};
    parallel_for(static_cast<long>(alpha.size()), [&](long i0) {
        long cnt = 0;
        std::vector<item> it;
        std::vector<C> w(6);
        auto test = [&](int n) {
            it.clear();
            if (au) decode(*au, w.data(), n, it); else for (int i = 0; i < n; ++i) it.push_back({0, i, 1});
            auto bad = [&](const char* what, long mx) { rep.bad(what + name, ev().str("what", what).str("charset", name).units("in", w.begin(), w.begin() + n).num("max", mx).done()); };
            for (long mx = 0; mx <= static_cast<long>(it.size()) + 1; ++mx) {
                long c = std::min(mx, static_cast<long>(it.size())), p = c == 0 ? 0 : it[static_cast<std::size_t>(c) - 1].at + it[static_cast<std::size_t>(c) - 1].n;
                auto a = cs.count(w.data(), w.data() + n, mx); auto b = dyn.count_codepoints(w.data(), w.data() + n, mx);
                if (a.count != c || a.ptr - w.data() != p) bad("count_codepoints", mx);
                if (b.count != c || b.ptr - w.data() != p) bad("count_codepoints dynamic", mx);
                ++cnt;
            }
            auto a = cs.count(w.data(), w.data() + n, strf::ssize_max);
            if (a.count != static_cast<long>(it.size()) || a.ptr - w.data() != n) bad("count_codepoints unlimited", 0);
            for (auto& x : it) if (x.cp < 0) return;
            for (long mx = 0; mx <= static_cast<long>(it.size()) + 1; ++mx) {
                long c = std::min(mx, static_cast<long>(it.size())), p = c == 0 ? 0 : it[static_cast<std::size_t>(c) - 1].at + it[static_cast<std::size_t>(c) - 1].n;
                auto f = cs.fast(w.data(), w.data() + n, mx); auto g = dyn.count_codepoints_fast(w.data(), w.data() + n, mx);
                if (f.count != c || f.ptr - w.data() != p) bad("count_codepoints_fast", mx);
                if (g.count != c || g.ptr - w.data() != p) bad("count_codepoints_fast dynamic", mx);
                ++cnt;
            }
        };
        std::function<void(int, int)> go = [&](int pos, int len) {
            if (pos == len) { test(len); return; }
            for (long x : alpha) { w[static_cast<std::size_t>(pos)] = static_cast<C>(x); go(pos + 1, len); }
        };
        w[0] = static_cast<C>(alpha[static_cast<std::size_t>(i0)]);
        for (int len = 1; len <= (sizeof(C) == 1 && au ? 4 : 4); ++len) go(1, len);
        if (i0 == 0) test(0);
        rep.done += cnt;
    });
}
int main(int argc, char** argv) {
    args a(argc, argv);
    mode = a.mode; deep = a.n;
    spec_tables t(a.aux);
    std::vector<std::function<void()>> jobs;
#define X(n) if (mode == "sb") { jobs.push_back([&] { sb_charset<char>(t, key_of(#n), sb_api<char>(strf::n##_t<char>{})); }); jobs.push_back([&] { sb_charset<char8_t>(t, key_of(#n), sb_api<char8_t>(strf::n##_t<char8_t>{})); }); } \
    else { jobs.push_back([&] { prims_sb<char>(t, key_of(#n), strf::n##_t<char>{}); counts<char>(t, key_of(#n), prim_api<char>(strf::n##_t<char>{}), nullptr); }); jobs.push_back([&] { prims_sb<char8_t>(t, key_of(#n), strf::n##_t<char8_t>{}); }); }
    VT_SB_CHARSETS(X)
#undef X
    if (mode != "sb") {
        jobs.push_back([&] { prims_utf<char>(t, "UTF-8", strf::utf8_t<char>{}); });
        jobs.push_back([&] { prims_utf<char8_t>(t, "UTF-8", strf::utf8_t<char8_t>{}); });
        jobs.push_back([&] { prims_utf<char16_t>(t, "UTF-16", strf::utf16_t<char16_t>{}); });
        jobs.push_back([&] { prims_utf<char32_t>(t, "UTF-32", strf::utf32_t<char32_t>{}); });
        jobs.push_back([&] { prims_utf<wchar_t>(t, "UTF-32", strf::utf32_t<wchar_t>{}); });
    }
    parallel_for(static_cast<long>(jobs.size()), [&](long i) { jobs[static_cast<std::size_t>(i)](); });
    if (mode != "sb") {
        counts<char>(t, "UTF-8", prim_api<char>(strf::utf8_t<char>{}), &t.autos[0].at("UTF-8"));
        counts<char8_t>(t, "UTF-8", prim_api<char8_t>(strf::utf8_t<char8_t>{}), &t.autos[0].at("UTF-8"));
        counts<char16_t>(t, "UTF-16", prim_api<char16_t>(strf::utf16_t<char16_t>{}), &t.autos[0].at("UTF-16"));
        counts<char32_t>(t, "UTF-32", prim_api<char32_t>(strf::utf32_t<char32_t>{}), &t.autos[0].at("UTF-32"));
        counts<wchar_t>(t, "UTF-32", prim_api<wchar_t>(strf::utf32_t<wchar_t>{}), &t.autos[0].at("UTF-32"));
    }
    rep.finish();
    return 0;
}
