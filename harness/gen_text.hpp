// Generators of well-formed and ill-formed text in the three UTFs and in single-byte charsets.
#ifndef GEN_TEXT_HPP
#define GEN_TEXT_HPP
#include "vt.hpp"
namespace vt {
inline std::uint32_t interesting_cp(rng& r, bool surrogates_ok) {
    static const std::uint32_t edges[] = {
        0x00,0x41,0x7A,0x7F,0x80,0x81,0x9F,0xA0,0xA9,0xFF,0x100,0x152,0x7FF,0x800,0x801,0xFFF,0x1000,0x1001,0x20AC,0x2026,0xCFFF,0xD000,
        0xD7FF,0xE000,0xE001,0xEFFF,0xF000,0xFB01,0xFFFC,0xFFFD,0xFFFE,0xFFFF,0x10000,0x10001,0x103FF,0x10400,0x1F600,0x3FFFF,0x40000,0xFFFFF,
        0x100000,0x10FFFE,0x10FFFF };
    static const std::uint32_t sur[] = {0xD800,0xD801,0xDBFE,0xDBFF,0xDC00,0xDC01,0xDFFE,0xDFFF};
    if (surrogates_ok && r.chance(1, 6)) return sur[r.below(8)];
    switch (r.below(8)) {
        case 0: return 0x20 + r.below(0x5F);
        case 1: return 0x80 + r.below(0x780);
        case 2: { std::uint32_t c = 0x800 + r.below(0xF800); return (c >= 0xD800 && c < 0xE000) ? c + 0x2000 : c; }
        case 3: return 0x10000 + r.below(0x100000);
        default: return edges[r.below(sizeof(edges)/sizeof(edges[0]))];
    }
}
inline void put8(std::string& s, std::uint32_t c) {
    if (c < 0x80) s += static_cast<char>(c);
    else if (c < 0x800) { s += static_cast<char>(0xC0 | (c >> 6)); s += static_cast<char>(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += static_cast<char>(0xE0 | (c >> 12)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
    else { s += static_cast<char>(0xF0 | ((c >> 18) & 7)); s += static_cast<char>(0x80 | ((c >> 12) & 63)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
}
// text of about n code points; bad = permille of ill-formed fragments. Surrogate pairs never arise from two adjacent lone surrogates
// unless bad > 0 or lax surrogate text was asked for (which is then still what the decoder must accept).
inline std::string text8(rng& r, int n, unsigned bad, bool lax) {
    static const unsigned char edge[] = {0x80,0x8F,0x90,0x9F,0xA0,0xBF,0xC0,0xC1,0xC2,0xDF,0xE0,0xE1,0xEC,0xED,0xEE,0xEF,0xF0,0xF1,0xF3,0xF4,0xF5,0xF7,0xF8,0xFB,0xFC,0xFE,0xFF};
    std::string s;
    for (int i = 0; i < n; ++i) {
        if (r.below(1000) < bad) {
            switch (r.below(5)) {
                case 0: { std::string t; put8(t, interesting_cp(r, true)); t.resize(t.size() - (t.size() > 1 ? 1 + r.below(static_cast<unsigned>(t.size()) - 1) : 0)); s += t; break; } // truncated
                case 1: { unsigned k = 1 + r.below(4); while (k--) s += static_cast<char>(edge[r.below(sizeof edge)]); break; }
                case 2: { put8(s, 0xD800 + r.below(0x800)); break; }
                case 3: { std::string t; put8(t, interesting_cp(r, true)); t[r.below(static_cast<unsigned>(t.size()))] = static_cast<char>(edge[r.below(sizeof edge)]); s += t; break; }
                default: s += static_cast<char>(r.below(256)); break;
            }
        } else put8(s, interesting_cp(r, lax));
    }
    return s;
}
inline std::u16string text16(rng& r, int n, unsigned bad, bool lax) {
    std::u16string s;
    for (int i = 0; i < n; ++i) {
        if (r.below(1000) < bad) {
            s += static_cast<char16_t>(r.chance(1,4) ? r.below(0x10000) : 0xD800 + (r.chance(1,2) ? r.below(0x800) : (r.chance(1,2) ? 0x3FF : 0x400)));
        } else {
            std::uint32_t c = interesting_cp(r, lax);
            if (c < 0x10000) s += static_cast<char16_t>(c);
            else { s += static_cast<char16_t>(0xD800 + ((c - 0x10000) >> 10)); s += static_cast<char16_t>(0xDC00 + ((c - 0x10000) & 0x3FF)); }
        }
    }
    return s;
}
inline std::u32string text32(rng& r, int n, unsigned bad, bool lax) {
    static const std::uint32_t edge[] = {0xD800,0xDBFF,0xDC00,0xDFFF,0x110000,0x110001,0x1FFFFF,0x7FFFFFFF,0x80000000,0xFFFFFFFF,0xD7FF,0xE000,0xFFFF,0x10FFFF};
    std::u32string s;
    for (int i = 0; i < n; ++i) {
        if (r.below(1000) < bad) s += static_cast<char32_t>(edge[r.below(sizeof(edge)/sizeof(edge[0]))]);
        else s += static_cast<char32_t>(interesting_cp(r, lax));
    }
    return s;
}
} // namespace vt
#endif
