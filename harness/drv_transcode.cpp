// Calls the real transcoders and logs one event per call (modes: content, limits, notes, unsafe).
#include <strf.hpp>
#include "vt.hpp"
#include "gen_text.hpp"
using namespace vt;
using strf::transcode_flags;

struct recorder : strf::transcoding_error_notifier {
    const void* base = nullptr; std::string log; long n = 0; const char* want_inv = ""; const char* want_uns = ""; int want_size = 0; bool names_ok = true;
    void invalid_sequence(int sz, const char* name, const void* seq, std::ptrdiff_t count) override {
        if (sz != want_size || std::strcmp(name, want_inv) != 0) names_ok = false;
        if (n++) log += ',';
        log += "[0," + std::to_string(clampi((static_cast<const char*>(seq) - static_cast<const char*>(base)) / (sz > 0 ? sz : 1))) + "," + std::to_string(clampi(count)) + "]";
    }
    void unsupported_codepoint(const char* name, unsigned cp) override {
        if (std::strcmp(name, want_uns) != 0) names_ok = false;
        if (n++) log += ',';
        log += "[1," + std::to_string(unit(static_cast<char32_t>(cp))) + ",0]";
    }
};
static const char* reason(strf::transcode_stop_reason r) {
    switch (r) {
        case strf::transcode_stop_reason::completed: return "completed";
        case strf::transcode_stop_reason::insufficient_output_space: return "space";
        case strf::transcode_stop_reason::unsupported_codepoint: return "unsupported";
        case strf::transcode_stop_reason::invalid_sequence: return "invalid";
    }
    return "?";
}
enum { LAX = 1, SINV = 2, SUNS = 4 };
static transcode_flags mkflags(int f) {
    auto r = transcode_flags::none;
    if (f & LAX) r |= transcode_flags::lax_surrogate_policy;
    if (f & SINV) r |= transcode_flags::stop_on_invalid_sequence;
    if (f & SUNS) r |= transcode_flags::stop_on_unsupported_codepoint;
    return r;
}
static out_file* out;
static std::string mode;

template <typename S, typename D> struct ctx { const char* sn; const char* dn; strf::dynamic_transcoder<S, D> t; };

template <typename S, typename D>
static std::string call_json(const ctx<S, D>& c, const std::basic_string<S>& in, long lim, int fl, bool unsafe, bool notify, long* end_src = nullptr) {
    // exact-size copies so that ASan sees any access outside
    std::vector<S> src(in.begin(), in.end());
    S* sb = static_cast<S*>(std::malloc(sizeof(S) * (src.size() + (src.empty() ? 1 : 0))));
    if (!src.empty()) std::memcpy(sb, src.data(), sizeof(S) * src.size());
    D* db = static_cast<D*>(std::malloc(sizeof(D) * static_cast<std::size_t>(lim > 0 ? lim : 1)));
    recorder rec; rec.base = sb; rec.want_inv = c.sn; rec.want_uns = c.dn; rec.want_size = static_cast<int>(sizeof(S));
    auto f = unsafe ? c.t.unsafe_transcode_func() : c.t.transcode_func();
    auto r = f(sb, sb + src.size(), db, db + lim, notify ? &rec : nullptr, mkflags(fl));
    long w = clampi(r.dst_ptr - db), sp = clampi(r.src_ptr - sb);
    bool inr = 0 <= w && w <= lim;
    ev e;
    e.units("out", db, db + (inr ? w : 0)).num("sp", sp).str("st", reason(r.stop_reason)).boolean("inr", inr);
    if (notify) e.raw("notes", "[" + rec.log + "]").boolean("names", rec.names_ok);
    if (end_src) *end_src = sp;
    std::free(sb); std::free(db);
    return e.done();
}
template <typename S, typename D>
static std::string size_json(const ctx<S, D>& c, const std::basic_string<S>& in, long lim, int fl, bool unsafe) {
    S* sb = static_cast<S*>(std::malloc(sizeof(S) * (in.size() + (in.empty() ? 1 : 0))));
    if (!in.empty()) std::memcpy(sb, in.data(), sizeof(S) * in.size());
    auto f = unsafe ? c.t.unsafe_transcode_size_func() : c.t.transcode_size_func();
    auto r = f(sb, sb + in.size(), lim, mkflags(fl));
    std::string j = ev().num("n", r.ssize).num("sp", r.src_ptr - sb).str("st", reason(r.stop_reason)).done();
    std::free(sb);
    return j;
}
template <typename S, typename D>
static ev head(const ctx<S, D>& c, const std::basic_string<S>& in, long lim, int fl, const char* k) {
    ev e; e.str("k", k).str("s", c.sn).str("d", c.dn).boolean("lax", fl & LAX).boolean("sinv", fl & SINV).boolean("suns", fl & SUNS).num("lim", lim).units("in", in.begin(), in.end());
    return e;
}
static void gen(rng& r, std::string& s, int n, unsigned bad, bool lax) { s = text8(r, n, bad, lax); }
static void gen(rng& r, std::u16string& s, int n, unsigned bad, bool lax) { s = text16(r, n, bad, lax); }
static void gen(rng& r, std::u8string& s, int n, unsigned bad, bool lax) { auto t = text8(r, n, bad, lax); s.assign(t.begin(), t.end()); }
static void gen(rng& r, std::wstring& s, int n, unsigned bad, bool lax) { auto t = text32(r, n, bad, lax); s.assign(t.begin(), t.end()); }
static void gen(rng& r, std::u32string& s, int n, unsigned bad, bool lax) { s = text32(r, n, bad, lax); }

template <typename S, typename D>
static void one(rng& r, const ctx<S, D>& c, const std::basic_string<S>& in, int fl, bool valid) {
    const long full = static_cast<long>(in.size()) * 4 + 8;
    if (mode == "content") {
        ev e = head(c, in, full, fl, "tr");
        e.raw("o", call_json(c, in, full, fl, false, r.chance(1, 2)));
        e.raw("z", size_json(c, in, full, fl, false));
        out->line(e.done());
    } else if (mode == "notes") {
        long lim = r.chance(1, 4) ? static_cast<long>(r.below(static_cast<unsigned>(in.size()) + 3)) : full;
        ev e = head(c, in, lim, fl, "tr");
        e.raw("o", call_json(c, in, lim, fl, false, true));
        out->line(e.done());
    } else if (mode == "unsafe") {
        if (!valid) return;
        long lim = r.chance(1, 3) ? full : static_cast<long>(r.below(static_cast<unsigned>(in.size()) + 4));
        ev e = head(c, in, lim, fl, "un");
        e.raw("u", call_json(c, in, lim, fl, true, true)).raw("uz", size_json(c, in, lim, fl, true));
        e.raw("o", call_json(c, in, lim, fl, false, true)).raw("z", size_json(c, in, lim, fl, false));
        out->line(e.done());
    } else if (mode == "limits") {
        if (r.chance(1, 4)) { // resumption session
            fl &= LAX;
            std::basic_string<S> rest = in;
            std::string parts;
            bool first = true;
            for (int guard = 0; guard < 200; ++guard) {
                long lim = r.chance(1, 5) ? r.range(0, 40) : r.range(0, 7);
                if (guard > 150) lim = full;
                long sp = 0;
                std::string j = call_json(c, rest, lim, fl, false, false, &sp);
                parts += (first ? "" : ",") + ("{\"lim\":" + std::to_string(lim) + ",\"r\":" + j + "}"); first = false;
                bool completed = j.find("\"completed\"") != std::string::npos;
                if (completed || sp < 0 || sp > static_cast<long>(rest.size())) break;
                rest.erase(0, static_cast<std::size_t>(sp));
            }
            ev e = head(c, in, full, fl, "res");
            out->line(e.raw("parts", "[" + parts + "]").done());
            return;
        }
        // a few limits: small, around the exact size, and one short of each
        auto z = c.t.transcode_size(in.data(), in.data() + in.size(), full, mkflags(fl & LAX));
        long exact = clampi(z.ssize);
        std::vector<long> lims = {exact, exact - 1, exact - 2, exact + 1, static_cast<long>(r.below(static_cast<unsigned>(in.size() * 2) + 3)), static_cast<long>(r.below(5))};
        for (int k = 0; k < 2; ++k) {
            long lim = lims[r.below(6)];
            if (lim < 0 || lim > full + 100) continue;
            ev e = head(c, in, lim, fl, "tr");
            e.raw("o", call_json(c, in, lim, fl, false, false)).raw("z", size_json(c, in, lim, fl, false));
            out->line(e.done());
        }
    }
}
template <typename S, typename D>
static void random_case(rng& r, const ctx<S, D>& c) {
    int fl = static_cast<int>(r.below(8));
    int n = r.chance(1, 8) ? r.range(10, 40) : r.range(0, 8);
    bool valid = mode == "unsafe" || r.chance(1, 4);
    std::basic_string<S> in;
    gen(r, in, n, valid ? 0 : (r.chance(1, 2) ? 500 : 150), (fl & LAX) != 0);
    one(r, c, in, fl, valid);
}
template <typename CS>
static void sb_case(rng& r, CS cs) {
    ctx<char, char32_t> to{cs.name(), "UTF-32", strf::dynamic_transcoder<char, char32_t>(cs.to_u32())};
    ctx<char32_t, char> from{"UTF-32", cs.name(), strf::dynamic_transcoder<char32_t, char>(cs.from_u32())};
    ctx<char, wchar_t> tow{cs.name(), "UTF-32", strf::dynamic_transcoder<char, wchar_t>(strf::find_transcoder(cs, strf::utf32<wchar_t>))};
    ctx<wchar_t, char> fromw{"UTF-32", cs.name(), strf::dynamic_transcoder<wchar_t, char>(strf::find_transcoder(strf::utf32<wchar_t>, cs))};
    ctx<char, char> self{cs.name(), cs.name(), strf::dynamic_transcoder<char, char>(cs.sanitizer())};
    int fl = static_cast<int>(r.below(8));
    bool valid = mode == "unsafe" || r.chance(1, 4);
    int n = r.range(0, 10);
    if (r.chance(2, 3)) {
        std::string in;
        for (int i = 0; i < n; ++i) {
            char ch; char32_t o;
            do { ch = static_cast<char>(r.chance(1, 4) ? r.below(128) : 128 + r.below(128)); o = cs.decode_unit(ch); } while (valid && o == 0xFFFD);
            in += ch;
        }
        switch (r.below(5)) { case 0: case 1: one(r, to, in, fl, valid); break; case 2: one(r, tow, in, fl, valid); break; default: one(r, self, in, fl, valid); }
    } else {
        std::u32string in;
        for (int i = 0; i < n; ++i) {
            switch (r.below(3)) {
                case 0: { char ch = static_cast<char>(r.below(256)); in += cs.decode_unit(ch); break; }
                case 1: in += static_cast<char32_t>(interesting_cp(r, (fl & LAX) != 0)); break;
                default: in += text32(r, 1, valid ? 0 : 600, (fl & LAX) != 0); break;
            }
        }
        if (r.chance(1, 4)) one(r, fromw, std::wstring(in.begin(), in.end()), fl, valid); else one(r, from, in, fl, valid);
    }
}
#define SB(n) sb_case(r, strf::n##_t<char>{});
static void sb_random(rng& r) {
    switch (r.below(25)) {
        case 0: SB(ascii) break; case 1: SB(iso_8859_1) break; case 2: SB(iso_8859_2) break; case 3: SB(iso_8859_3) break;
        case 4: SB(iso_8859_4) break; case 5: SB(iso_8859_5) break; case 6: SB(iso_8859_6) break; case 7: SB(iso_8859_7) break;
        case 8: SB(iso_8859_8) break; case 9: SB(iso_8859_9) break; case 10: SB(iso_8859_10) break; case 11: SB(iso_8859_11) break;
        case 12: SB(iso_8859_13) break; case 13: SB(iso_8859_14) break; case 14: SB(iso_8859_15) break; case 15: SB(iso_8859_16) break;
        case 16: SB(windows_1250) break; case 17: SB(windows_1251) break; case 18: SB(windows_1252) break; case 19: SB(windows_1253) break;
        case 20: SB(windows_1254) break; case 21: SB(windows_1255) break; case 22: SB(windows_1256) break; case 23: SB(windows_1257) break;
        default: SB(windows_1258) break;
    }
}
template <typename S, typename D, strf::charset_id SI, strf::charset_id DI>
static ctx<S, D> mk(const char* a, const char* b) { return {a, b, strf::dynamic_transcoder<S, D>(strf::static_transcoder<S, D, SI, DI>{})}; }

int main(int argc, char** argv) {
    args a(argc, argv);
    mode = a.mode;
    out_file of(a.out.c_str());
    out = &of;
    rng r(a.seed);
    const char *n8 = "UTF-8", *n16 = "UTF-16", *n32 = "UTF-32";
    auto c88 = mk<char, char, strf::csid_utf8, strf::csid_utf8>(n8, n8);
    auto c86 = mk<char, char16_t, strf::csid_utf8, strf::csid_utf16>(n8, n16);
    auto c83 = mk<char, char32_t, strf::csid_utf8, strf::csid_utf32>(n8, n32);
    auto c68 = mk<char16_t, char, strf::csid_utf16, strf::csid_utf8>(n16, n8);
    auto c66 = mk<char16_t, char16_t, strf::csid_utf16, strf::csid_utf16>(n16, n16);
    auto c63 = mk<char16_t, char32_t, strf::csid_utf16, strf::csid_utf32>(n16, n32);
    auto c38 = mk<char32_t, char, strf::csid_utf32, strf::csid_utf8>(n32, n8);
    auto c36 = mk<char32_t, char16_t, strf::csid_utf32, strf::csid_utf16>(n32, n16);
    auto c33 = mk<char32_t, char32_t, strf::csid_utf32, strf::csid_utf32>(n32, n32);
    // the same encodings with the other character types
    auto cw8 = mk<wchar_t, char, strf::csid_utf32, strf::csid_utf8>(n32, n8);
    auto cw6 = mk<wchar_t, char16_t, strf::csid_utf32, strf::csid_utf16>(n32, n16);
    auto c8w = mk<char, wchar_t, strf::csid_utf8, strf::csid_utf32>(n8, n32);
    auto c6w = mk<char16_t, wchar_t, strf::csid_utf16, strf::csid_utf32>(n16, n32);
    auto cw3 = mk<wchar_t, char32_t, strf::csid_utf32, strf::csid_utf32>(n32, n32);
    auto c3w = mk<char32_t, wchar_t, strf::csid_utf32, strf::csid_utf32>(n32, n32);
    auto cu6 = mk<char8_t, char16_t, strf::csid_utf8, strf::csid_utf16>(n8, n16);
    auto cu8 = mk<char8_t, char, strf::csid_utf8, strf::csid_utf8>(n8, n8);
    auto c3u = mk<char32_t, char8_t, strf::csid_utf32, strf::csid_utf8>(n32, n8);
    { // a fixed case for the known finding KF-SB-FFFF
        strf::iso_8859_1_t<char> cs;
        ctx<char32_t, char> c{"UTF-32", cs.name(), strf::dynamic_transcoder<char32_t, char>(cs.from_u32())};
        one(r, c, std::u32string{U'a', char32_t(0xE000), U'b'}, SINV, false);
    }
    while (of.count() < static_cast<std::size_t>(a.n)) {
        switch (r.below(15)) {
            case 12: switch (r.below(3)) { case 0: random_case(r, cw8); break; case 1: random_case(r, cw6); break; default: random_case(r, cw3); } break;
            case 13: switch (r.below(3)) { case 0: random_case(r, c8w); break; case 1: random_case(r, c6w); break; default: random_case(r, c3w); } break;
            case 14: switch (r.below(3)) { case 0: random_case(r, cu6); break; case 1: random_case(r, cu8); break; default: random_case(r, c3u); } break;
            case 0: random_case(r, c88); break;
            case 1: random_case(r, c86); break;
            case 2: random_case(r, c83); break;
            case 3: random_case(r, c68); break;
            case 4: random_case(r, c66); break;
            case 5: random_case(r, c63); break;
            case 6: random_case(r, c38); break;
            case 7: random_case(r, c36); break;
            case 8: random_case(r, c33); break;
            default: sb_random(r); break;
        }
    }
    return 0;
}
