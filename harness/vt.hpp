// Shared by all drivers: seeded RNG and an ndjson event writer.
#ifndef VT_HPP
#define VT_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <type_traits>
namespace vt {
struct rng {
    std::uint64_t s;
    explicit rng(std::uint64_t seed) : s(seed * 0xD1342543DE82EF95ull + 0x1234567ull) { for (int i = 0; i < 3; ++i) s = next(); } // (streams of different seeds are unrelated)
    std::uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [0, n)
    unsigned below(unsigned n) { return n == 0 ? 0 : static_cast<unsigned>(next() % n); }
    int range(int lo, int hi) { return lo + static_cast<int>(next() % static_cast<std::uint64_t>(hi - lo + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[below(static_cast<unsigned>(v.size()))]; }
};
// TLC integers are 32 bit signed: every unit is clamped (an out-of-range unit is never equal to an expected one)
template <typename C> inline long unit(C c) {
    using U = typename std::make_unsigned<typename std::conditional<std::is_same<C, char32_t>::value, std::uint32_t,
              typename std::conditional<std::is_same<C, char16_t>::value, std::uint16_t,
              typename std::conditional<std::is_same<C, wchar_t>::value, std::uint32_t,
              unsigned char>::type>::type>::type>::type;
    std::uint64_t v = static_cast<U>(c);
    return v > 0x7FFFFFFFull ? 0x7FFFFFFFl : static_cast<long>(v);
}
inline long clampi(long long v) {
    if (v > 0x7FFFFFFFll) return 0x7FFFFFFFl;
    if (v < -0x7FFFFFFFll) return -0x7FFFFFFFl;
    return static_cast<long>(v);
}
class out_file {
    FILE* f_;
    std::size_t n_ = 0;
public:
    explicit out_file(const char* path) : f_(std::fopen(path, "w")) {
        if (!f_) { std::perror(path); std::exit(3); }
        std::setvbuf(f_, nullptr, _IOFBF, 1 << 20);
    }
    ~out_file() { std::fclose(f_); }
    void line(const std::string& s) { std::fwrite(s.data(), 1, s.size(), f_); std::fputc('\n', f_); ++n_; }
    void sync() { std::fflush(f_); }
    std::size_t count() const { return n_; }
};
// JSON object builder
class ev {
    std::string s_ = "{";
    void key(const char* k) { if (s_.size() > 1) s_ += ','; s_ += '"'; s_ += k; s_ += "\":"; }
public:
    static std::string quote(const char* p) {
        std::string r = "\"";
        for (; *p; ++p) {
            unsigned char c = static_cast<unsigned char>(*p);
            if (c == '"' || c == '\\') { r += '\\'; r += *p; }
            else if (c < 0x20 || c > 0x7e) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += *p;
        }
        return r + "\"";
    }
    ev& str(const char* k, const std::string& v) { key(k); s_ += quote(v.c_str()); return *this; }
    ev& num(const char* k, long long v) { key(k); s_ += std::to_string(clampi(v)); return *this; }
    ev& boolean(const char* k, bool v) { key(k); s_ += v ? "true" : "false"; return *this; }
    ev& raw(const char* k, const std::string& v) { key(k); s_ += v; return *this; }
    template <typename It> ev& units(const char* k, It b, It e) { return raw(k, list(b, e)); }
    template <typename It> static std::string list(It b, It e) {
        std::string r = "[";
        for (bool first = true; b != e; ++b, first = false) { if (!first) r += ','; r += std::to_string(unit(*b)); }
        return r + "]";
    }
    template <typename V> static std::string ints(const V& v) {
        std::string r = "[";
        bool first = true;
        for (auto x : v) { if (!first) r += ','; r += std::to_string(clampi(static_cast<long long>(x))); first = false; }
        return r + "]";
    }
    std::string done() const { return s_ + "}"; }
};
struct args {
    std::string mode, out, aux; std::uint64_t seed = 1; long n = 1000;
    args(int argc, char** argv) {
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string k = argv[i];
            if (k == "--mode") mode = argv[i + 1];
            else if (k == "--out") out = argv[i + 1];
            else if (k == "--aux") aux = argv[i + 1];
            else if (k == "--seed") seed = std::strtoull(argv[i + 1], nullptr, 10);
            else if (k == "--n") n = std::atol(argv[i + 1]);
        }
    }
};
} // namespace vt
#endif
