// Reads the tables dumped by spec/TabCharsets.tla and interprets them.
#ifndef TABLES_HPP
#define TABLES_HPP
#include "vt.hpp"
#include <fstream>
#include <map>
#include <set>
#include <mutex>
#include <atomic>
#include <thread>
#include <functional>
namespace vt {
inline std::string jstr(const std::string& l, const char* key) {
    std::string k = std::string("\"") + key + "\":\"";
    auto p = l.find(k);
    if (p == std::string::npos) return "";
    p += k.size();
    return l.substr(p, l.find('"', p) - p);
}
inline std::vector<long> jarr(const std::string& l, const char* key) {
    std::string k = std::string("\"") + key + "\":[";
    auto p = l.find(k);
    std::vector<long> r;
    if (p == std::string::npos) return r;
    const char* s = l.c_str() + p + k.size();
    while (*s && *s != ']') {
        char* e;
        long v = std::strtol(s, &e, 10);
        if (e == s) { ++s; continue; }
        r.push_back(v); s = e;
    }
    return r;
}
inline long jnum(const std::string& l, const char* key) {
    std::string k = std::string("\"") + key + "\":";
    auto p = l.find(k);
    return p == std::string::npos ? 0 : std::strtol(l.c_str() + p + k.size(), nullptr, 10);
}
struct trans { long lo, hi; int t; long mul, b; };
struct automaton { std::map<int, std::vector<trans>> from; int lr_state = 0; long lr_add = 0; };
struct encrow { long lo, hi; int n; long off; long base[4], div[4], mod[4]; };
struct primrow { long lo, hi; int v, z; };
struct unitrow { long lo, hi, r; };
struct item { long cp; int at, n; }; // cp -1: ill-formed
struct spec_tables {
    std::map<std::string, automaton> autos[2];
    std::map<std::string, std::vector<encrow>> enc;
    std::map<std::string, std::vector<long>> sb;
    std::map<std::string, std::vector<primrow>> prim;
    std::map<std::string, std::vector<unitrow>> units;
    std::map<std::string, long> repl;
    explicit spec_tables(const std::string& path) {
        std::ifstream f(path);
        std::string l;
        while (std::getline(f, l)) {
            std::string k = jstr(l, "k"), n = jstr(l, "n");
            if (k == "sb") sb[n] = jarr(l, "t");
            else if (k == "prim") {
                auto v = jarr(l, "rows");
                for (std::size_t i = 0; i + 3 < v.size(); i += 4) prim[n].push_back({v[i], v[i + 1], static_cast<int>(v[i + 2]), static_cast<int>(v[i + 3])});
                v = jarr(l, "units");
                for (std::size_t i = 0; i + 2 < v.size(); i += 3) units[n].push_back({v[i], v[i + 1], v[i + 2]});
                repl[n] = jnum(l, "repl");
            } else if (k == "auto") {
                automaton a;
                auto v = jarr(l, "rows");
                for (std::size_t i = 0; i + 5 < v.size(); i += 6) a.from[static_cast<int>(v[i])].push_back({v[i + 1], v[i + 2], static_cast<int>(v[i + 3]), v[i + 4], v[i + 5]});
                auto lr = jarr(l, "lr");
                a.lr_state = static_cast<int>(lr.at(0)); a.lr_add = lr.at(1);
                autos[jnum(l, "lax")][n] = a;
            } else if (k == "enc") {
                auto v = jarr(l, "rows");
                for (std::size_t i = 0; i < v.size(); i += static_cast<std::size_t>(v[i]) + 1) {
                    encrow r{v[i + 1], v[i + 2], static_cast<int>(v[i + 3]), v[i + 4], {}, {}, {}};
                    for (int j = 0; j < r.n; ++j) { r.base[j] = v[i + 5 + 3 * static_cast<unsigned>(j)]; r.div[j] = v[i + 6 + 3 * static_cast<unsigned>(j)]; r.mod[j] = v[i + 7 + 3 * static_cast<unsigned>(j)]; }
                    enc[n].push_back(r);
                }
            }
        }
        if (sb.size() != 25 || prim.size() != 3 || enc.size() != 3 || autos[0].size() != 3 || autos[1].size() != 3) { std::puts("bad table"); std::exit(3); }
    }
};
template <typename C> inline void decode(const automaton& a, const C* s, int n, std::vector<item>& out) {
    out.clear();
    int i = 0;
    while (i < n) {
        int st = 1, k = i;
        long acc = 0;
        while (true) {
            const trans* hit = nullptr;
            if (k < n) { long u = unit(s[k]); auto it = a.from.find(st); if (it != a.from.end()) for (auto& t : it->second) if (t.lo <= u && u <= t.hi) { hit = &t; break; }
                if (hit) { acc = acc * hit->mul + (u - hit->b); ++k; if (hit->t == 0) { out.push_back({acc, i, k - i}); break; } st = hit->t; continue; } }
            if (a.lr_state && st == a.lr_state) { out.push_back({acc + a.lr_add, i, k - i}); break; }
            if (k == i) k = i + 1;
            out.push_back({-1, i, k - i});
            break;
        }
        i = k;
    }
}
inline int encode(const std::vector<encrow>& rows, long cp, long* o) {
    for (auto& r : rows) if (r.lo <= cp && cp <= r.hi) { for (int j = 0; j < r.n; ++j) o[j] = r.base[j] + ((cp - r.off) / r.div[j]) % r.mod[j]; return r.n; }
    return 0;
}
// mismatch collector
struct report {
    std::mutex m; long mism = 0; std::atomic<long> done{0}; std::set<std::string> known_seen; std::map<std::string, long> per;
    void bad(const std::string& kind, const std::string& json) {
        std::lock_guard<std::mutex> g(m);
        ++mism;
        if (++per[kind] <= 3) { std::printf("MISMATCH %s\n", json.c_str()); std::fflush(stdout); }
    }
    void known(const char* key, const std::string& json) {
        std::lock_guard<std::mutex> g(m);
        if (known_seen.insert(key).second) std::printf("KNOWN %s %s\n", key, json.c_str());
    }
    void finish() { std::printf("DONE %ld\n", done.load()); }
};
inline void parallel_for(long n, const std::function<void(long)>& f, int threads = 8) {
    std::atomic<long> next{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t) ts.emplace_back([&] { long i; while ((i = next++) < n) f(i); });
    for (auto& t : ts) t.join();
}
} // namespace vt
#endif
