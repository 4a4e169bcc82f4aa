// Values with many elements, around the limits of the length fields.
#pragma once
#include "types.hpp"

namespace ty {

inline bool long_mode = false;
inline std::size_t long_size(Src& s) {
    static const std::size_t A[] = {23, 24, 25, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025};
    static const std::size_t B[] = {4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 65559, 65560, 65792, 70000, 131072};
    if (s.chance(1, 24)) return s.coin() ? s.pick(B) : std::size_t(s.draw(80000));
    return s.coin() ? s.pick(A) : std::size_t(s.draw(1500));
}
template <class T> struct Long; // many simple values from one choice
template <class T> struct Long<std::basic_string<T>> { static void gen(Src& s, std::basic_string<T>& t) {
    std::size_t const n = long_size(s); u64 const k = s.draw(0); u64 const mode = s.draw(4); U u; u.reserve(n);
    for (std::size_t i = 0; i < n; ++i) {
        u64 const z = pbt::mix(k + i);
        u += mode == 0 ? U'a' : z % 64 == 0 && mode == 2 ? char32_t(z >> 32 & 0x1F) : z % 16 == 0 && mode == 3 ? char32_t(0x80 + (z >> 32) % 0x700) : char32_t(' ' + (z >> 8) % 95);
    }
    t = uni::to<T>(u); if (mode != 3 || sizeof(T) > 1) t.resize(n, T('x'));
} };
template <class Q, class E> struct LongSeq { static void gen(Src& s, Q& q) {
    std::size_t const n = long_size(s); u64 const k = s.draw(0); u64 const mode = s.draw(3);
    for (std::size_t i = 0; i < n; ++i) { u64 const z = pbt::mix(k + i); q.insert(q.end(), E(mode == 0 ? 0 : mode == 1 ? z & 127 : z)); }
} };
template <class E> requires std::is_integral_v<E> struct Long<std::vector<E>> : LongSeq<std::vector<E>, E> {};
template <class E> requires std::is_integral_v<E> struct Long<std::list<E>> : LongSeq<std::list<E>, E> {};
template <class E> requires std::is_integral_v<E> struct Long<std::set<E>> : LongSeq<std::set<E>, E> {};
template <class K, class E> requires (std::is_integral_v<K> && std::is_integral_v<E>) struct Long<std::map<K, E>> { static void gen(Src& s, std::map<K, E>& q) {
    std::size_t const n = long_size(s); u64 const k = s.draw(0);
    for (std::size_t i = 0; i < n; ++i) q.emplace_hint(q.end(), K(i), E(pbt::mix(k + i)));
} };
template <> struct Long<char*> { static void gen(Src& s, char*& q) {
    std::string t; Long<std::string>::gen(s, t); t.erase(std::remove(t.begin(), t.end(), '\0'), t.end()); V<char*>::set(q, t);
} };
// a short sequence of long ones
template <> struct Long<std::vector<std::string>> { static void gen(Src& s, std::vector<std::string>& q) {
    for (u64 n = 1 + s.draw(3); n--; ) { q.emplace_back(); Long<std::string>::gen(s, q.back()); }
} };
template <class T, class = void> inline constexpr bool has_long = false;
template <class T> inline constexpr bool has_long<T, decltype(sizeof(Long<T>), void())> = true;
template <class T> inline void make(Src& s, T& t) {
    if constexpr (has_long<T>) if (long_mode) { s.label("long"); return Long<T>::gen(s, t); }
    gen(s, t);
}
template <class T, void (*F)(Src&)> inline void as_long(Src& s) {
    if (!s.chance(1, 20)) return F(s); // they cost
    struct G { G() { long_mode = true; } ~G() { long_mode = false; } } g; F(s); }
#define TYPES_LONG(X) X(str) X(std::u16string) X(char*) X(std::vector<int>) X(std::vector<bool>) X(std::vector<unsigned char>) X(std::vector<str>) X(std::list<long>) X(std::set<int>) X(t_lm)
using t_lm = std::map<int, int>;

} // ty
