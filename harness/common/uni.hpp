// Reference Unicode helpers, independent of the library.
#pragma once
#include "src.hpp"
#include <type_traits>

namespace uni {

using U = std::u32string;

inline bool scalar(char32_t c) { return c < 0xD800 || (c > 0xDFFF && c <= 0x10FFFF); }
inline void put8(std::string& s, char32_t c) {
    if (c < 0x80) s += char(c);
    else if (c < 0x800) s += char(0xC0 | (c >> 6)), s += char(0x80 | (c & 63));
    else if (c < 0x10000) s += char(0xE0 | (c >> 12)), s += char(0x80 | ((c >> 6) & 63)), s += char(0x80 | (c & 63));
    else s += char(0xF0 | (c >> 18)), s += char(0x80 | ((c >> 12) & 63)), s += char(0x80 | ((c >> 6) & 63)), s += char(0x80 | (c & 63));
}
inline std::string to8(const U& u) { std::string s; for (auto c : u) put8(s, c); return s; }
// decodes one scalar by arithmetic (shortest form, range), 0 on error
inline int get8(const char* b, const char* e, char32_t& c) {
    if (b == e) return 0;
    unsigned char const h = (unsigned char)*b;
    int n; char32_t v;
    if (h < 0x80) return c = h, 1;
    if (h >= 0xC0 && h < 0xE0) n = 2, v = h & 0x1F;
    else if (h >= 0xE0 && h < 0xF0) n = 3, v = h & 0x0F;
    else if (h >= 0xF0 && h < 0xF8) n = 4, v = h & 0x07;
    else return 0;
    if (e - b < n) return 0;
    for (int i = 1; i < n; ++i) { unsigned char const t = (unsigned char)b[i]; if ((t & 0xC0) != 0x80) return 0; v = (v << 6) | (t & 0x3F); }
    char32_t const least[] = {0, 0, 0x80, 0x800, 0x10000};
    if (v < least[n] || !scalar(v)) return 0;
    return c = v, n;
}
inline bool from8(const std::string& s, U& u) {
    const char *b = s.data(), *e = b + s.size();
    for (u.clear(); b != e; ) { char32_t c; int n = get8(b, e, c); if (!n) return false; u += c, b += n; }
    return true;
}

// strings of any character type <-> code points
template <class C> inline std::basic_string<C> to(const U& u) {
    std::basic_string<C> r;
    if (sizeof(C) == 1) { for (char c : to8(u)) r += C(c); }
    else if (sizeof(C) == 2) { for (auto c : u) { if (c > 0xFFFF) r += C(0xD800 + ((c - 0x10000) >> 10)), r += C(0xDC00 + ((c - 0x10000) & 0x3FF)); else r += C(c); } }
    else for (auto c : u) r += C(c);
    return r;
}
template <class C> inline bool from(const C* b, const C* e, U& u) {
    u.clear();
    if (sizeof(C) == 1) { std::string s; for (; b != e; ++b) s += char(*b); return from8(s, u); }
    if (sizeof(C) == 2) {
        for (; b != e; ++b) {
            char32_t c = char32_t(*b) & 0xFFFF;
            if (c >= 0xD800 && c < 0xDC00 && b + 1 != e && (char32_t(b[1]) & 0xFC00) == 0xDC00) u += 0x10000 + ((c - 0xD800) << 10) + ((char32_t(*++b) & 0xFFFF) - 0xDC00);
            else if (!scalar(c)) return false;
            else u += c;
        }
        return true;
    }
    for (; b != e; ++b) { if (!scalar(char32_t(*b))) return false; u += char32_t(*b); }
    return true;
}
template <class S> inline bool from(const S& s, U& u) { return from(s.data(), s.data() + s.size(), u); }

inline char32_t gen_cp(Src& s) {
    static const char32_t edge[] = {'a', 'b', 'Z', '0', ' ', '"', '\\', '/', '\b', '\f', '\n', '\r', '\t', 0, 1, 0x1F, 0x7F, 0x80, 0xFF, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF,
        0x10000, 0x10FFFF, 0x2028, 0x2029, 0xFEFF, 0x1F34C, '\'', ':', '=', ',', '{', '}', '[', ']', '<', '.', '-', 0x1E, 0x0B, 0x90, 0xA0, 0xC2, 0xFFF, 0x1000, 0xCFFF, 0xD000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000};
    switch (s.draw(8)) {
        case 0: case 1: case 2: return U"abcdefgh"[s.draw(8)];
        case 3: case 4: return s.pick(edge);
        case 5: return char32_t(s.draw(0x80));
        case 6: return char32_t(s.draw(0x800));
        default: { char32_t c = char32_t(s.draw(0x110000 - 0x800)); return c >= 0xD800 ? c + 0x800 : c; }
    }
}
inline U gen(Src& s, std::size_t max = 8) {
    U u; std::size_t n = s.len(max);
    switch (s.draw(8)) {
        case 0: case 1: case 2: for (std::size_t i = 0; i < n; ++i) u += U"abcXYZ019 "[s.draw(10)]; break; // plain text
        case 3: { char32_t const a = gen_cp(s), b = gen_cp(s); for (std::size_t i = 0; i < n; ++i) u += s.coin() ? a : b; break; }
        case 4: { std::size_t const m = s.budget > 0 ? s.draw(70) : 0; for (std::size_t i = 0; i < m; ++i) u += U'x'; u += gen_cp(s); for (std::size_t i = 0; i < m % 19; ++i) u += U'y'; break; } // block boundaries
        default: for (std::size_t i = 0; i < n; ++i) u += gen_cp(s);
    }
    return u;
}

} // uni
