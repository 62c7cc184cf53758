// Text rich in grapheme clusters.
#ifndef GEN_GRAPHEME_HPP
#define GEN_GRAPHEME_HPP
#include "gen_text.hpp"
namespace vt {
inline std::uint32_t grapheme_cp(rng& r) {
    static const std::uint32_t cls[][12] = {
        {0x0D, 0x0D, 0x0D, 0x0A, 0x0D, 0x0D, 0x0D, 0x0D, 0x0D, 0x0D, 0x0D, 0x0D},
        {0x0A, 0x0A, 0x0A, 0x0A, 0x0A, 0x0A, 0x0A, 0x0A, 0x0A, 0x0A, 0x0A, 0x0A},
        {0x00, 0x09, 0x1F, 0x7F, 0x85, 0x9F, 0xAD, 0x200B, 0x2028, 0xFEFF, 0xE0001, 0x180E},
        {0x300, 0x36F, 0x301, 0x483, 0x5B0, 0x200C, 0xFE0F, 0x1F3FB, 0x1F3FF, 0xE0100, 0x20D0, 0x93C},
        {0x200D, 0x200D, 0x200D, 0x200D, 0x200D, 0x200D, 0x200D, 0x200D, 0x200D, 0x200D, 0x200D, 0x200D},
        {0x1F1E6, 0x1F1E7, 0x1F1FF, 0x1F1F0, 0x1F1E8, 0x1F1EF, 0x1F1F7, 0x1F1F8, 0x1F1FA, 0x1F1FB, 0x1F1FC, 0x1F1FD},
        {0x600, 0x605, 0x6DD, 0x70F, 0x8E2, 0xD4E, 0x110BD, 0x111C2, 0x111C3, 0x1193F, 0x11A3A, 0x11D46},
        {0x903, 0x93B, 0x93E, 0x940, 0x949, 0xA03, 0xE33, 0xEB3, 0x1084, 0x16F51, 0x1D166, 0x11000},
        {0x1100, 0x1101, 0x115E, 0x115F, 0xA960, 0xA97C, 0x1110, 0x1102, 0x1103, 0x1105, 0x1106, 0x1107},
        {0x1160, 0x1161, 0x11A7, 0xD7B0, 0xD7C6, 0x1175, 0x1162, 0x1163, 0x1164, 0x1165, 0x1166, 0x1167},
        {0x11A8, 0x11FF, 0xD7CB, 0xD7FB, 0x11A9, 0x11AA, 0x11AB, 0x11AC, 0x11AD, 0x11AE, 0x11AF, 0x11B0},
        {0xAC00, 0xAC1C, 0xAC38, 0xD788, 0xD76C, 0xC2A4, 0xC2C0, 0xC2DC, 0xC2F8, 0xC314, 0xC330, 0xC34C},
        {0xAC01, 0xAC1B, 0xAC1D, 0xD7A3, 0xD789, 0xC2A5, 0xC2BF, 0xC2C1, 0xC2F9, 0xC315, 0xC331, 0xC34D},
        {0x1F600, 0xA9, 0xAE, 0x203C, 0x2764, 0x1F468, 0x1F469, 0x1F3F3, 0x1F300, 0x1F9D1, 0x2600, 0x1F64F},
        {0x20, 0x41, 0x7E, 0xE9, 0x3B1, 0x4E00, 0x3042, 0xFF21, 0x20000, 0x10330, 0x3000, 0x64} };
    if (r.chance(1, 12)) return interesting_cp(r, false);
    if (r.chance(1, 15)) { std::uint32_t c = r.below(0x110000); return c >= 0xD800 && c < 0xE000 ? 0xFFFD : c; }
    // runs of the classes that combine
    return cls[r.chance(1, 3) ? 3 + r.below(2) * 10 : r.chance(1, 6) ? 5 : r.below(15)][r.below(12)];
}
inline std::u32string grapheme_text(rng& r, int n) { std::u32string s; bool zwj = r.chance(1, 3);
    for (int i = 0; i < n; ++i) { s += static_cast<char32_t>(grapheme_cp(r)); if (zwj && r.chance(1, 3)) s += static_cast<char32_t>(0x200D); } return s; }
// in the encoding of C (UTF-8, UTF-16 or UTF-32), without errors unless the text has surrogates
template <typename C> std::basic_string<C> encode_as(const std::u32string& t) {
    std::basic_string<C> s;
    for (char32_t c : t) {
        if (sizeof(C) == 4) s += static_cast<C>(c);
        else if (sizeof(C) == 2) { if (c < 0x10000) s += static_cast<C>(c); else { s += static_cast<C>(0xD800 + ((c - 0x10000) >> 10)); s += static_cast<C>(0xDC00 + ((c - 0x10000) & 0x3FF)); } }
        else { std::string b; put8(b, c); for (char x : b) s += static_cast<C>(x); }
    }
    return s;
}
// text of about n code points in the encoding of C, with errors
template <typename C> std::basic_string<C> utf_text(rng& r, int n, unsigned bad) {
    std::basic_string<C> s;
    if (sizeof(C) == 1) for (auto c : text8(r, n, bad, false)) s += static_cast<C>(c);
    else if (sizeof(C) == 2) for (auto c : text16(r, n, bad, false)) s += static_cast<C>(c);
    else for (auto c : text32(r, n, bad, false)) s += static_cast<C>(c);
    return s;
}
} // namespace vt
#endif
