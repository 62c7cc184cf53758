// Every kind of destination, given the same printing call (C01).
#ifndef DESTS_HPP
#define DESTS_HPP
#include <strf/to_cfile.hpp>
#include <strf/to_streambuf.hpp>
#include <strf/to_string.hpp>
#include <sstream>
#include <cstdio>
#include <cwchar>
#include <memory>
namespace vt { inline namespace VT_ENTRY(unit_) {
// what a destination says about itself must agree: otherwise the output is marked
template <typename C> std::basic_string<C> marked(bool ok, std::basic_string<C> s) { if (!ok) { s += static_cast<C>('!'); s += static_cast<C>('!'); } return s; }
template <typename C> struct bytes_file { // a FILE writing to memory, with a stdio buffer of any size
    std::string got; FILE* f; std::vector<char> buf;
    static ssize_t put(void* c, const char* p, size_t n) { static_cast<bytes_file*>(c)->got.append(p, n); return static_cast<ssize_t>(n); }
    bytes_file() { cookie_io_functions_t io{}; io.write = put; f = fopencookie(this, "w", io);
        int k = gen.range(0, 3); if (k == 0) std::setvbuf(f, nullptr, _IONBF, 0); else if (k == 1) { buf.resize(static_cast<std::size_t>(gen.range(1, 100))); std::setvbuf(f, buf.data(), _IOFBF, buf.size()); } }
    bytes_file(const bytes_file&) = delete;
    std::basic_string<C> take() { std::fclose(f); std::basic_string<C> s(got.size() / sizeof(C), C()); std::memcpy(&s[0], got.data(), s.size() * sizeof(C)); return marked(got.size() % sizeof(C) == 0, s); }
};
template <typename C, typename FP, typename... A> void wide(results<C>&, const FP&, const A&...) {}
template <typename FP, typename... A> void wide(results<wchar_t>& res, const FP& fp, const A&... a) {
    wchar_t* p = nullptr; std::size_t n = 0; FILE* f = open_wmemstream(&p, &n); auto r = strf::wto(f).with(fp)(a...); std::fclose(f);
    std::wstring s(p, n); std::free(p); res.add("wide FILE", marked<wchar_t>(r.success && r.count == s.size(), s));
}
template <typename C, typename FP, typename... A>
void all_destinations(results<C>& res, const FP& fp, const A&... a) {
    using S = std::basic_string<C>;
    S first; to_sink(first, layout::random()).with(fp)(a...); res.add("user-defined", first);
    { S s; to_sink(s, layout{0, 0}).with(fp)(a...); res.add("user-defined-0", std::move(s)); }
    { S s; long long z = 0; to_sized_sink(s, layout::random(), &z).with(fp)(a...); res.add("user-defined-sized", std::move(s)); }
    res.add("to_string", strf::to_basic_string<C>.with(fp)(a...));
    res.add("to_string.reserve_calc", strf::to_basic_string<C>.with(fp).reserve_calc()(a...));
    res.add("to_string.reserve", strf::to_basic_string<C>.reserve(gen.below(200)).with(fp)(a...));
    { S s(static_cast<std::size_t>(gen.below(30)), static_cast<C>('q')), pre = s; strf::append(s).with(fp)(a...); res.add("append", marked<C>(s.compare(0, pre.size(), pre) == 0, s.substr(pre.size()))); }
    { S s(3, static_cast<C>('q')); strf::assign(s).reserve_calc().with(fp)(a...); res.add("assign", std::move(s)); }
    { std::size_t n = first.size() + 1; std::unique_ptr<C[]> b(new C[n]); auto r = strf::to(b.get(), n).with(fp)(a...);
      res.add("cstr", marked<C>(!r.truncated && *r.ptr == C(), S(b.get(), r.ptr))); }
    { std::size_t n = first.size() + 1 + gen.below(100); std::unique_ptr<C[]> b(new C[n]); auto r = strf::to(b.get(), b.get() + n).with(fp)(a...);
      res.add("cstr-roomy", marked<C>(!r.truncated && *r.ptr == C(), S(b.get(), r.ptr))); }
    { std::size_t n = first.empty() ? 1 : first.size(); std::unique_ptr<C[]> b(new C[n]); strf::array_destination<C> d(b.get(), b.get() + n); strf::to(d).with(fp)(a...); auto r = d.finish();
      res.add("array", marked<C>(!r.truncated, S(b.get(), r.ptr))); }
    { strf::basic_string_maker<C> d; strf::to(d).with(fp)(a...); bool g = d.good(); res.add("string_maker", marked<C>(g, d.finish())); }
    { bytes_file<C> f; auto r = strf::to<C>(f.f).with(fp)(a...); auto s = f.take(); res.add("FILE", marked<C>(r.success && r.count == s.size(), s)); }
    bool eof = false; for (C c : first) if (std::char_traits<C>::eq_int_type(static_cast<typename std::char_traits<C>::int_type>(c), std::char_traits<C>::eof())) eof = true; // basic_stringbuf cannot hold it
    if (!eof) { std::basic_stringbuf<C> b; auto r = strf::to(b).with(fp)(a...); auto s = b.str(); res.add("streambuf", marked<C>(r.success && r.count == static_cast<std::streamsize>(s.size()), s)); }
    { strf::discarder<C> d; strf::to(d).with(fp)(a...); }
    // stdio takes the value of WEOF, and units that are not characters, for errors
    bool chars = true; for (C c : first) if (unit(c) > 0x10FFFF) chars = false;
    if (chars) wide(res, fp, a...);
}
} }
#endif
