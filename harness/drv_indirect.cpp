// Transcoding through a UTF-32 pivot (decode_encode), into destination objects, and by charset instead of by function,
// with the direct call's arguments (C09).
#include <string_view>
#include <strf.hpp>
#include <memory>
#include "vt.hpp"
#include "gen_text.hpp"
#include "charsets_list.hpp"
using namespace vt;
using strf::transcode_flags;
static out_file* out;
static rng gen{1};
enum { LAX = 1, SINV = 2, SUNS = 4 };
struct recorder : strf::transcoding_error_notifier {
    const void* base = nullptr; std::string inv, uns; long ninv = 0, nuns = 0; const char* want_inv = ""; const char* want_uns = ""; int want_size = 0; bool ok = true;
    void invalid_sequence(int sz, const char* name, const void* seq, std::ptrdiff_t count) override {
        if (sz != want_size || std::strcmp(name, want_inv) != 0) { ok = false; return; }
        inv += (ninv++ ? ",[" : "[") + std::to_string(clampi((static_cast<const char*>(seq) - static_cast<const char*>(base)) / sz)) + "," + std::to_string(clampi(count)) + "]"; }
    void unsupported_codepoint(const char* name, unsigned cp) override { if (std::strcmp(name, want_uns) != 0) ok = false; uns += (nuns++ ? "," : "") + std::to_string(unit(static_cast<char32_t>(cp))); }
};
static const char* reason(strf::transcode_stop_reason r) {
    switch (r) { case strf::transcode_stop_reason::completed: return "completed"; case strf::transcode_stop_reason::insufficient_output_space: return "space";
        case strf::transcode_stop_reason::unsupported_codepoint: return "unsupported"; case strf::transcode_stop_reason::invalid_sequence: return "invalid"; }
    return "?";
}
// a destination made of given buffers, that fails when they are used up
template <typename C> struct bufs_sink : strf::destination<C> {
    const std::vector<int>& sizes; std::size_t k = 0; std::basic_string<C> got; std::unique_ptr<C[]> buf; bool failed = false;
    void fresh(int n) { buf.reset(new C[static_cast<std::size_t>(n)]); this->set_buffer_ptr(buf.get()); this->set_buffer_end(buf.get() + n); }
    explicit bufs_sink(const std::vector<int>& s) : strf::destination<C>(nullptr, nullptr), sizes(s) { if (sizes.empty()) { failed = true; fresh(64); this->set_good(false); } else { fresh(sizes[k++]); this->set_good(true); } }
    void recycle() override { if (!failed) got.append(buf.get(), this->buffer_ptr());
        if (failed || k == sizes.size()) { failed = true; fresh(64); this->set_good(false); } else fresh(sizes[k++]); }
    std::basic_string<C> all() { if (!failed) got.append(buf.get(), this->buffer_ptr()); failed = true; return got; }
};
template <typename C> static const char* utf() { return sizeof(C) == 1 ? "UTF-8" : sizeof(C) == 2 ? "UTF-16" : "UTF-32"; }
template <typename C> struct pick { const char* name = utf<C>(); strf::dynamic_charset<C> cs = strf::utf_t<C>().to_dynamic(); };
template <typename C> static pick<C> random_cs(bool) { return {utf<C>(), strf::utf_t<C>().to_dynamic()}; }
template <> pick<char> random_cs<char>(bool sb) {
    if (!sb) return {"UTF-8", strf::utf8_t<char>().to_dynamic()};
    int k = static_cast<int>(gen.below(25)), i = 0;
#define X(n) if (i++ == k) { strf::n##_t<char> c; return {c.name(), c.to_dynamic()}; }
    VT_SB_CHARSETS(X)
#undef X
    return {"UTF-8", strf::utf8_t<char>().to_dynamic()};
}
static void text(std::string& s, int n, unsigned bad, bool lax) { s = text8(gen, n, bad, lax); }
static void text(std::u8string& s, int n, unsigned bad, bool lax) { auto t = text8(gen, n, bad, lax); s.assign(t.begin(), t.end()); }
static void text(std::u16string& s, int n, unsigned bad, bool lax) { s = text16(gen, n, bad, lax); }
static void text(std::u32string& s, int n, unsigned bad, bool lax) { s = text32(gen, n, bad, lax); }
static void text(std::wstring& s, int n, unsigned bad, bool lax) { auto t = text32(gen, n, bad, lax); s.assign(t.begin(), t.end()); }
struct merged { std::vector<std::pair<std::string, std::string>> v;     // equal results listed once
    void add(const char* n, std::string j) { for (auto& p : v) if (p.second == j) { p.first += std::string(" ") + n; return; } v.emplace_back(n, std::move(j)); }
    std::string json() const { std::string r = "["; for (auto& p : v) { if (r.size() > 1) r += ','; r += "{\"n\":\"" + p.first + "\"," + p.second.substr(1); } return r + "]"; } };

template <typename S, typename D> struct run {
    pick<S> sc; pick<D> dc; std::basic_string<S> in; int fl; bool valid; long lim; std::vector<int> sizes;
    transcode_flags flags() const { auto r = transcode_flags::none; if (fl & LAX) r |= transcode_flags::lax_surrogate_policy; if (fl & SINV) r |= transcode_flags::stop_on_invalid_sequence; if (fl & SUNS) r |= transcode_flags::stop_on_unsupported_codepoint; return r; }
    std::unique_ptr<S[]> src;
    const S* b() const { return src.get(); } const S* e() const { return src.get() + in.size(); }
    template <typename R> ev where(const R& r) const { ev x; x.num("at", clampi(r.stale_src_ptr - b())).num("dist", r.u32dist).str("st", reason(r.stop_reason)); return x; }
    static strf::decode_encode_size_result<S> up(strf::transcode_size_result<S> r) { return {r.ssize, r.src_ptr, 0, r.stop_reason}; }
    recorder rec() const { recorder r; r.base = b(); r.want_inv = sc.name; r.want_uns = dc.name; r.want_size = static_cast<int>(sizeof(S)); return r; }
    static void notes(ev& x, const recorder& r) { x.raw("inv", "[" + r.inv + "]").raw("uns", "[" + r.uns + "]").boolean("names", r.ok); }
    merged arr, siz, dst, prt;
    // f(dst, dst_end, notifier)
    template <typename F> void to_array(const char* n, F f) { std::unique_ptr<D[]> d(new D[static_cast<std::size_t>(lim)]); recorder rc = rec(); auto r = f(d.get(), d.get() + lim, &rc);
        long w = clampi(r.dst_ptr - d.get()); ev x = where(r); bool inr = 0 <= w && w <= lim; x.boolean("inr", inr).units("out", d.get(), d.get() + (inr ? w : 0)); notes(x, rc);
        std::unique_ptr<D[]> d2(new D[static_cast<std::size_t>(lim)]); auto r2 = f(d2.get(), d2.get() + lim, static_cast<strf::transcoding_error_notifier*>(nullptr));     // the notifier changes nothing
        x.boolean("same", r2.dst_ptr - d2.get() == r.dst_ptr - d.get() && r2.stop_reason == r.stop_reason && r2.stale_src_ptr == r.stale_src_ptr && r2.u32dist == r.u32dist && (!inr || std::equal(d.get(), d.get() + w, d2.get())));
        arr.add(n, x.done()); }
    template <typename F> void size(const char* n, F f) { auto r = f(); ev x = where(r); x.num("z", r.ssize); siz.add(n, x.done()); }
    template <typename F> void to_dest(const char* n, F f) { bufs_sink<D> s(sizes); recorder rc = rec(); auto r = f(s, &rc); bool good = s.good(); auto t = s.all(); ev x = where(r); x.num("z", r.ssize).boolean("good", good).units("out", t.begin(), t.end()); notes(x, rc); dst.add(n, x.done()); }
    template <typename SC, typename DC> void calls(const char* tag, SC s, DC d) {
        auto F = flags(); auto* B = b(); auto* E = e(); std::string t = tag; const char* nm;
#define N(x) (nm = keep(t + x))
        to_array(N("decode_encode"), [&](D* o, D* oe, auto* en) { return strf::decode_encode(s, d, B, E, o, oe, en, F); });
        to_array(N("transcode"), [&](D* o, D* oe, auto* en) { return strf::transcode(s, d, B, E, o, oe, en, F); });
        size(N("decode_encode_size"), [&] { return strf::decode_encode_size(s, d, B, E, lim, F); });
        size(N("transcode_size"), [&] { return strf::transcode_size(s, d, B, E, lim, F); });
        to_dest(N("decode_encode"), [&](strf::destination<D>& o, auto* en) { return strf::decode_encode(s, d, B, E, o, en, F); });
        to_dest(N("transcode"), [&](strf::destination<D>& o, auto* en) { return strf::transcode(s, d, B, E, o, en, F); });
        if (valid) {
            to_array(N("unsafe_decode_encode"), [&](D* o, D* oe, auto* en) { return strf::unsafe_decode_encode(s, d, B, E, o, oe, en, F); });
            to_array(N("unsafe_transcode"), [&](D* o, D* oe, auto* en) { return strf::unsafe_transcode(s, d, B, E, o, oe, en, F); });
            size(N("unsafe_decode_encode_size"), [&] { return strf::unsafe_decode_encode_size(s, d, B, E, lim, F); });
            size(N("unsafe_transcode_size"), [&] { return strf::unsafe_transcode_size(s, d, B, E, lim, F); });
            to_dest(N("unsafe_transcode"), [&](strf::destination<D>& o, auto* en) { return strf::unsafe_transcode(s, d, B, E, o, en, F); });
        }
#undef N
    }
    // the overloads whose charsets are template arguments
    template <template <class> class SC, template <class> class DC> void tcalls() {
        auto F = flags(); auto* B = b(); auto* E = e();
        to_array("<>decode_encode", [&](D* o, D* oe, auto* en) { return strf::decode_encode<SC, DC>(B, E, o, oe, en, F); });
        to_array("<>transcode", [&](D* o, D* oe, auto* en) { return strf::transcode<SC, DC>(B, E, o, oe, en, F); });
        size("<>decode_encode_size", [&] { return strf::decode_encode_size<SC, DC<D>>(B, E, lim, F); });
        size("<>transcode_size", [&] { return strf::transcode_size<SC, DC<D>>(B, E, lim, F); });
        to_dest("<>decode_encode", [&](strf::destination<D>& o, auto* en) { return strf::decode_encode<SC, DC>(B, E, o, en, F); });
        to_dest("<>transcode", [&](strf::destination<D>& o, auto* en) { return strf::transcode<SC, DC>(B, E, o, en, F); });
        if (valid) {
            to_array("<>unsafe_decode_encode", [&](D* o, D* oe, auto* en) { return strf::unsafe_decode_encode<SC, DC>(B, E, o, oe, en, F); });
            to_array("<>unsafe_transcode", [&](D* o, D* oe, auto* en) { return strf::unsafe_transcode<SC, DC>(B, E, o, oe, en, F); });
            size("<>unsafe_decode_encode_size", [&] { return strf::unsafe_decode_encode_size<SC, DC<D>>(B, E, lim, F); });
            size("<>unsafe_transcode_size", [&] { return strf::unsafe_transcode_size<SC, DC<D>>(B, E, lim, F); });
            to_dest("<>unsafe_transcode", [&](strf::destination<D>& o, auto* en) { return strf::unsafe_transcode<SC, DC>(B, E, o, en, F); });
        }
    }
    static const char* keep(std::string s) { static std::vector<std::unique_ptr<std::string>> v; if (v.size() > 100000) v.clear(); v.push_back(std::make_unique<std::string>(std::move(s))); return v.back()->c_str(); }
    template <typename C> static bool is_utf(const char* n) { return std::strcmp(n, utf<C>()) == 0; }
    void all() {
        src.reset(new S[in.size()]); std::copy(in.begin(), in.end(), src.get());
        switch (gen.below(is_utf<S>(sc.name) && is_utf<D>(dc.name) ? 3 : 1)) {
            case 0: calls("", sc.cs, dc.cs); break;
            case 1: calls("static:", strf::utf_t<S>(), strf::utf_t<D>()); break;
            default: tcalls<strf::utf_t, strf::utf_t>();
        }
        { // by function
            auto F = flags(); auto t = strf::find_transcoder(sc.cs, dc.cs); auto* B = b(); auto* E = e();
            auto u1 = sc.cs.to_u32().transcode_func(); auto u2 = dc.cs.from_u32().unsafe_transcode_func(); auto uz = dc.cs.from_u32().unsafe_transcode_size_func();
            to_array("f:decode_encode", [&](D* o, D* oe, auto* en) { return strf::decode_encode(u1, u2, B, E, o, oe, en, F); });
            size("f:decode_encode_size", [&] { return strf::decode_encode_size(u1, uz, B, E, lim, F); });
            to_dest("f:decode_encode", [&](strf::destination<D>& o, auto* en) { return strf::decode_encode(u1, u2, B, E, o, en, F); });
            if (auto f = t.transcode_func()) to_dest("f:transcode", [&](strf::destination<D>& o, auto* en) { return up(strf::transcode(f, B, E, o, en, F)); });
        }
        if (fl == 0 && std::strcmp(sc.name, dc.name) != 0) {   // by printing
            bufs_sink<D> k(sizes); recorder rc = rec(); std::basic_string_view<S> v(b(), in.size());
            strf::to(static_cast<strf::destination<D>&>(k)).with(dc.cs, strf::transcoding_error_notifier_ptr(&rc))(strf::transcode(v, sc.cs));
            bool good = k.good(); auto t = k.all(); ev x; x.boolean("good", good).units("out", t.begin(), t.end()); notes(x, rc); prt.add("print", x.done());
        }
        ev x; x.str("k", "ind").str("s", sc.name).str("d", dc.name).boolean("lax", fl & LAX).boolean("sinv", fl & SINV).boolean("suns", fl & SUNS).num("lim", lim).raw("bufs", ev::ints(std::vector<long long>(sizes.begin(), sizes.end()))).units("in", in.begin(), in.end());
        x.raw("arr", arr.json()).raw("siz", siz.json()).raw("dst", dst.json()).raw("prt", prt.json());
        out->line(x.done());
    }
};
template <typename S, typename D> static void one() {
    run<S, D> r; r.sc = random_cs<S>(gen.chance(1, 2)); r.dc = random_cs<D>(gen.chance(2, 3)); r.fl = static_cast<int>(gen.below(8));
    static const int ns[] = {15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 65, 80};
    int n = gen.chance(1, 2) ? gen.range(0, 8) : gen.chance(1, 3) ? ns[gen.below(12)] : gen.range(0, gen.chance(1, 4) ? 110 : 40);
    r.valid = gen.chance(1, 3); unsigned bad = r.valid ? 0 : gen.chance(1, 3) ? 500 : gen.chance(1, 2) ? 100 : 15; bool lax = (r.fl & LAX) != 0;
    if (std::strncmp(r.sc.name, "UTF", 3) != 0) {   // single-byte
        std::basic_string<S> t; for (int i = 0; i < n; ++i) { S c; do { c = static_cast<S>(gen.chance(1, 4) ? gen.below(128) : gen.below(256)); } while (r.valid && r.sc.cs.decode_unit(c) == 0xFFFD); t += c; } r.in = t;
    } else if (std::strncmp(r.dc.name, "UTF", 3) != 0 && gen.chance(3, 4)) {   // mostly characters of the destination
        for (int i = 0; i < n; ++i) { std::basic_string<S> t; if (gen.chance(1, gen.chance(1, 2) ? 4 : 30)) text(t, 1, bad, lax); else { char32_t c; do c = r.dc.cs.decode_unit(static_cast<D>(gen.below(256))); while (c == 0xFFFD); std::u32string u(1, c); S o[8]; auto q = strf::transcode<strf::utf_t, strf::utf_t>(u.data(), u.data() + 1, o, o + 8); t.assign(o, q.dst_ptr); } r.in += t; }
    } else text(r.in, n, bad, lax);
    long full = strf::transcode_size(r.sc.cs, r.dc.cs, r.in.data(), r.in.data() + r.in.size(), static_cast<long>(r.in.size()) * 4 + 8, r.flags()).ssize; if (full < 0 || full > 2000) full = 2000;
    r.lim = gen.chance(1, 3) ? full : gen.chance(1, 3) ? full + gen.range(-3, 3) : gen.range(0, static_cast<int>(full) + 2); if (r.lim < 0) r.lim = 0;
    int left = gen.chance(1, 2) ? 1000000 : gen.range(0, 3);    // buffers
    for (long sum = 0; left-- > 0 && sum < full + 200;) { int z = r.sizes.empty() ? (gen.chance(1, 6) ? 0 : gen.range(0, gen.chance(1, 2) ? 12 : 60)) : 64 + (gen.chance(1, 2) ? 0 : gen.range(0, 5)); r.sizes.push_back(z); sum += z; }
    r.all();
}
template <typename S> static void from() { switch (gen.below(6)) { case 0: one<S, char16_t>(); break; case 1: one<S, char32_t>(); break; case 2: one<S, wchar_t>(); break; case 3: one<S, char8_t>(); break; default: one<S, char>(); } }
int main(int argc, char** argv) {
    args a(argc, argv); out_file of(a.out.c_str()); out = &of; gen = rng(a.seed);
    while (of.count() < static_cast<std::size_t>(a.n)) switch (gen.below(6)) { case 0: from<char16_t>(); break; case 1: from<char32_t>(); break; case 2: from<wchar_t>(); break; case 3: from<char8_t>(); break; default: from<char>(); }
    return 0;
}
