// Inputs around the documents of a type, and well away from them.
#pragma once
#include "types.hpp"

namespace texts {

using ty::V; using ty::Box; using cref::C;
template <class T> inline constexpr bool mods = requires(Src& s, T& t) { V<T>::gen(s, t); };
inline std::string soup(Src& s, const char* const* tok, std::size_t n, std::size_t max) {
    std::string t; for (std::size_t k = s.draw(max) + 1; k--; ) t += tok[s.below(n)]; return t;
}
inline std::string some(Src& s, std::size_t max) { std::string t; for (std::size_t k = s.draw(max); k--; ) t += char(s.draw(256)); return t; }

template <class T> inline std::string json(Src& s) {
    std::string t;
    switch (s.draw(10)) {
        case 0: case 1: case 2: case 3: // around a document of the type
            if constexpr (mods<T>) { Box<T> b; ty::gen(s, b.v); jref::Style st; if (s.coin()) st.ws = false; t = jref::render(V<T>::toj(b.v), s, st); }
            else { jref::Style st; t = jref::render(jref::gen_doc(s), s, st); }
            if (s.coin()) t = jref::mutate(t, s, 1 + int(s.draw(3)));
            if (s.coin()) t.resize(s.below(t.size() + 1));
            if (s.chance(1, 4)) for (auto& c : t) c = c == ':' ? '=' : c == ',' ? ' ' : c;
            return t;
        case 4: { jref::Style st; t = jref::render(jref::gen_doc(s, 3), s, st); return s.coin() ? jref::mutate(t, s, 1 + int(s.draw(3))) : t; }
        case 5: { // tokens
            static const char* const K[] = {"{", "}", "[", "]", ",", ":", "\"", "\"", "\\", " ", "0", "1", "-", ".", "e", "null", "true", "false", "\"a\"", "a", "\n", "//", "/*", "*/", "/", "=", "'", "nul", "inf", "nan", "NaN", "\"\"", "[]", "{}", "{\"a\":", "[[", "]]", "{\"", "\":", "\"0\":", "\"1\":", "\xFF", "\x80", "\xF0"};
            return soup(s, K, sizeof(K) / sizeof(*K), 12);
        }
        case 6: { // strings
            static const char* const K[] = {"\"", "\\", "\\\"", "\\u", "\\u0", "\\uD8", "\\uD83C", "\\uDF4C", "\\u00e9", "\\uFFFF", "\\u0000", "\\n", "\\x", "\\/", "/", "a", "\xC3", "\xA9", "\xE2\x82", "\xF0\x9F", "\xF0\x9F\x8D\x8C", "\xED\xA0\x80", "\xC0\x80", "\xF8", "\xFF", "\x7F", "\x01", "{", "]", ":", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"};
            t = soup(s, K, sizeof(K) / sizeof(*K), 8);
            switch (s.draw(4)) { case 0: return t; case 1: return "[\"" + t; case 2: return "{\"" + t; default: return "\"" + t; }
        }
        case 7: { // numbers
            static const char* const K[] = {"0", "1", "9", "-", "+", ".", "e", "E", "00", "99999999999", "000000000000", "123456789012345678901234567890", "i", "n", "a", "f", "x", " ", "\"", "N", "I", "inf", "nan", "Infinity"};
            t = soup(s, K, sizeof(K) / sizeof(*K), 8);
            switch (s.draw(4)) { case 0: return "[" + t; case 1: return "\"" + t; case 2: return "{\"" + t + "\":" + t; default: return t; }
        }
        case 8: { std::string k = some(s, 8); return (s.coin() ? "\"" : "{\"") + k + std::string(s.draw(140), s.coin() ? 'k' : '1') + some(s, 3); } // around the sizes of buffers
        default: return some(s, 24);
    }
}
template <class T> inline std::string cbor(Src& s) {
    cref::Style st;
    switch (s.draw(8)) {
        case 0: case 1: case 2:
            if constexpr (mods<T>) { Box<T> b; ty::gen(s, b.v); std::string t = cref::lawful(V<T>::toc(b.v), s, st); if (s.coin()) t = cref::mutate(t, s, 1 + int(s.draw(3))); if (s.coin()) t.resize(s.below(t.size() + 1)); return t; }
            [[fallthrough]];
        case 3: { std::string t = cref::lawful(cref::gen(s, 4), s, st); if (s.coin()) t = cref::mutate(t, s, 1 + int(s.draw(3))); return t; }
        case 4: { // heads
            std::string t; for (u64 n = s.draw(8) + 1; n--; ) { int const m = int(s.draw(8)); if (s.chance(1, 4)) t += char(m << 5 | 31); else if (m == 7) t += char(0xE0 | s.draw(32)); else cref::head(t, m, s.coin() ? s.draw(4) : s.bits(), int(1) << s.draw(4)); if (s.chance(1, 4)) t += some(s, 4); }
            return t;
        }
        case 5: { // huge sizes
            std::string t; for (u64 n = s.draw(3); n--; ) t += char("\x81\xA1\x9F\xBF\xC1\x82\xD9"[s.draw(6)]);
            cref::head(t, 2 + int(s.draw(4)), s.coin() ? s.bits() | 1ull << s.draw(64) : 0xFFFFFFFFFFFFFFFFull >> s.draw(40), 8); return t + some(s, 10);
        }
        case 6: { std::string t; static const u8 B[] = {0x5F, 0x7F, 0x9F, 0xBF, 0xFF, 0x40, 0x41, 0x60, 0x61, 0x80, 0x81, 0xA0, 0xA1, 0xC1, 0xD8, 0xF6, 0xF7, 0xF9, 0xFA, 0xFB, 0x00, 0x18, 0x19, 0x1A, 0x1B, 0x20, 0x3B, 0x5B, 0x7B, 0x9B, 0xBB, 0xF8, 0xFC, 0x1C, 0x3F, 0xDF}; for (u64 n = s.draw(16); n--; ) t += char(s.pick(B)); return t; }
        default: return some(s, 24);
    }
}

} // texts
