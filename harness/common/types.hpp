// Per-type traits: generator, equality, the JSON and CBOR models of a value and back. C++20.
#pragma once
#include "jref.hpp"
#include "cref.hpp"
#include <array>
#include <bitset>
#include <chrono>
#include <complex>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <queue>
#include <set>
#include <span>
#include <stack>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <valarray>
#include <variant>
#include <vector>

namespace ty {

using jref::J; using cref::C; using uni::U;
enum Tri { no, yes, unspec, pre }; // pre: a lawful value of the type is a proper prefix of the text (integers before a fraction)

template <class T, class = void> struct V;

template <class T> struct Box { // owns what a value points to
    T v{};
    Box() = default; Box(const Box&) = delete; Box& operator =(const Box&) = delete;
    ~Box() { V<T>::fini(v); }
};
template <class T> inline void gen(Src& s, T& t) { V<T>::gen(s, t); }
template <class T> inline bool eq(const T& a, const T& b) { return V<T>::eq(a, b); }
inline Tri both(Tri a, Tri b) { return a == no || b == no ? no : a == unspec || b == unspec ? unspec : yes; }
inline Tri elem(Tri a) { return a == pre ? no : a; } // inside a container the rest of the text is an error
struct Plain { template <class T> static void fini(T&) {} static constexpr bool det = true; };

template <class T> inline constexpr bool is_chr = std::is_same_v<T, char> || std::is_same_v<T, char8_t> || std::is_same_v<T, char16_t> || std::is_same_v<T, char32_t> || std::is_same_v<T, wchar_t>;
template <class T> inline constexpr bool is_int = std::is_integral_v<T> && !is_chr<T> && !std::is_same_v<T, bool>;

// CBOR integers
template <class T> inline Tri int_from(const C& c0, T& t) {
    C const& c = cref::untag(c0); using L = std::numeric_limits<T>; using Un = std::make_unsigned_t<T>;
    constexpr bool quantum = std::is_same_v<T, char> || std::is_same_v<T, wchar_t>;
    if (c.k == C::uint) {
        if (c.n <= u64(L::max())) return t = T(c.n), yes;
        if (quantum && c.n <= u64(std::numeric_limits<Un>::max())) return t = T(c.n), yes;
        return sizeof(T) == 1 && c.n <= 0xFF ? unspec : no;
    }
    if (c.k == C::nint) {
        if (!std::is_signed_v<T>) return no;
        return c.n <= u64(L::max()) ? (t = T(-1 - i64(c.n)), quantum ? unspec : yes) : no;
    }
    return no;
}

template <> struct V<bool> : Plain {
    static void gen(Src& s, bool& t) { t = s.coin(); }
    static bool eq(bool a, bool b) { return a == b; }
    static J toj(bool t) { return J::B(t); }
    static Tri fromj(const J& j, bool& t) { return j.k == J::boolean ? (t = j.b, yes) : no; }
    static C toc(bool t) { return C::Bool(t); }
    static Tri fromc(const C& c0, bool& t) { C const& c = cref::untag(c0); return c.k == C::simple && (c.n == 20 || c.n == 21) ? (t = c.n == 21, yes) : no; }
    static void tokey(bool t, U& u, char& ok) { ok = '#'; u = t ? U"true" : U"false"; }
    static Tri fromkey(const U& u, bool& t) { return u == U"true" ? (t = true, yes) : u == U"false" ? (t = false, yes) : unspec; }
};

template <> struct V<std::nullptr_t> : Plain {
    static void gen(Src&, std::nullptr_t&) {}
    static bool eq(std::nullptr_t, std::nullptr_t) { return true; }
    static J toj(std::nullptr_t) { return J::N(); }
    static Tri fromj(const J& j, std::nullptr_t&) { return j.k == J::null ? yes : no; }
    static C toc(std::nullptr_t) { return C::S(22); }
    static Tri fromc(const C& c, std::nullptr_t&) { return cref::untag(c).k == C::simple && cref::untag(c).n == 22 ? yes : no; }
};

// integers
template <class T> inline Tri dec_to(const std::string& t, T& v) { // [-]digits
    bool const neg = t[0] == '-'; unsigned __int128 m = 0;
    for (std::size_t i = neg; i < t.size(); ++i) { m = m * 10 + unsigned(t[i] - '0'); if (m > (unsigned __int128)1 << 100) return no; }
    if (neg && m == 0) return std::is_signed_v<T> ? (v = 0, yes) : unspec;
    if (neg && !std::is_signed_v<T>) return no;
    if (m > (unsigned __int128)(neg ? u64(std::numeric_limits<T>::max()) + 1 : u64(std::numeric_limits<T>::max()))) return no;
    return v = neg ? T(-i64(u64(m) - 1) - 1) : T(m), yes;
}
template <class T> struct V<T, std::enable_if_t<is_int<T>>> : Plain {
    static void gen(Src& s, T& t) {
        switch (s.draw(6)) {
            case 0: t = T(s.draw(10)); break;
            case 1: { static const T L[] = {std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(std::numeric_limits<T>::max() - 1), T(std::numeric_limits<T>::min() + 1), T(23), T(24), T(-24), T(-25), T(0xFF), T(0x100), T(-0x100), T(-0x101), T(0xFFFF), T(0x10000)}; t = s.pick(L); break; }
            case 2: { T p = 1; for (u64 n = s.draw(20); n-- && p <= std::numeric_limits<T>::max() / 10; ) p = T(p * 10); t = T(p - T(s.draw(2))); if (std::is_signed_v<T> && s.coin()) t = T(-1 - t); break; }
            default: t = T(s.bits()); if (std::is_signed_v<T> && s.coin()) t = T(~t);
        }
    }
    static bool eq(T a, T b) { return a == b; }
    static J toj(T t) { return J::I(std::is_signed_v<T> ? std::to_string((long long)t) : std::to_string((unsigned long long)t)); }
    static Tri fromj(const J& j, T& t) {
        if (j.k != J::number) return no;
        if (j.num.size() > 31) return unspec;
        std::size_t const p = j.num.find_first_of(".eE");
        if (p == std::string::npos) return dec_to(j.num, t);
        return pre;
    }
    static C toc(T t) { return t < 0 ? C::I((long long)t) : C::Un(u64(t)); }
    static Tri fromc(const C& c, T& t) { return int_from(c, t); }
    static void tokey(T t, U& u, char& ok) { ok = '#'; u.clear(); for (char c : toj(t).num) u += char32_t(c); }
    static Tri fromkey(const U& u, T& t) {
        std::string n; for (auto c : u) { if (c > 127) return c > 0xFFFF ? no : unspec; n += char(c); }
        if (n.empty()) return no;
        if (n.size() > 31) return unspec;
        std::size_t i = n[0] == '-'; if (i == n.size()) return unspec;
        if (n[i] == '0' && i + 1 < n.size()) return unspec;
        for (; i < n.size(); ++i) if (n[i] < '0' || n[i] > '9') return i == 0 && ((n[0] >= 'a' && n[0] <= 'z') || (n[0] >= 'A' && n[0] <= 'Z')) ? no : unspec;
        return dec_to(n, t);
    }
};

// floating point
template <class T> struct V<T, std::enable_if_t<std::is_floating_point_v<T>>> : Plain {
    static constexpr char k = std::is_same_v<T, float> ? 'f' : std::is_same_v<T, double> ? 'd' : 'l';
    static void gen(Src& s, T& t) {
        using L = std::numeric_limits<T>;
        static const T E[] = {T(0), T(-0.0), T(1), T(-1), T(0.5), T(0.1), T(1e22), T(1e23), T(9007199254740993.0), L::max(), L::lowest(), L::min(), L::denorm_min(), -L::denorm_min(), L::epsilon(), L::min() / 2, T(65504), T(5.960464477539063e-8), T(16777217), T(123456789), T(1e15), T(1e16), T(1e17), T(0.0001), T(0.00001), T(1e-7)};
        switch (s.draw(8)) {
            case 0: case 1: t = T(s.range(-100, 100)); break;
            case 2: t = s.pick(E); break;
            case 3: t = T(s.range(-100000, 100000)) / T(100); break;
            case 4: t = T(cref::half(unsigned(s.draw(65536)))); break;
            case 5: t = T(i64(s.bits())); break;
            case 6: { std::uint32_t b = std::uint32_t(s.draw(0)); float f; std::memcpy(&f, &b, 4); t = T(f); break; }
            default: { u64 b = s.draw(0); double d; std::memcpy(&d, &b, 8); if (std::isfinite(d) && sizeof(T) == 4 && std::fabs(d) > 3.4e38) d = 1e38; t = T(d); if (k == 'l' && std::isfinite(t)) t += t / T(1ull << 60) * T(s.draw(16)); }
        }
    }
    static bool eq(T a, T b) { return jref::same_bits(a, b); }
    static J toj(T t) { if (std::isfinite(t)) return J::F(k, (long double)t);
        J j = J::S(t != t ? std::signbit(t) ? U"-nan" : U"nan" : t < 0 ? U"-inf" : U"inf"); j.fk = k; return j;
    }
    static Tri fromj(const J& j, T& t) {
        if (j.k == J::string) {
            if (j.s == U"inf") return t = std::numeric_limits<T>::infinity(), yes;
            if (j.s == U"-inf") return t = -std::numeric_limits<T>::infinity(), yes;
            if (j.s == U"nan" || j.s == U"-nan") return t = std::numeric_limits<T>::quiet_NaN(), yes;
            return j.s.empty() || j.s.find_first_not_of(U"ghjklmopqrsuvwxyz") == U::npos ? no : unspec;
        }
        if (j.k != J::number) return no;
        return num(j.num, t);
    }
    static Tri num(const std::string& n, T& t) {
        if (n.size() > 63) return unspec;
        errno = 0;
        if constexpr (k == 'f') t = std::strtof(n.c_str(), nullptr); else if constexpr (k == 'd') t = std::strtod(n.c_str(), nullptr); else t = std::strtold(n.c_str(), nullptr);
        if (std::isinf(t)) return no;
        if (t == 0) for (char c : n) { if (c == 'e' || c == 'E') break; if (c >= '1' && c <= '9') return no; }
        if (k == 'l' && t != 0 && std::fabs(t) < std::numeric_limits<T>::min()) return unspec;
        return yes;
    }
    static C toc(T t) { return C::F(double(t), k == 'f' ? 4 : 8); }
    static Tri fromc(const C& c0, T& t) {
        C const& c = cref::untag(c0);
        if (c.k == C::uint) return t = T(c.n), yes;
        if (c.k == C::nint) return t = c.n == ~0ull ? -T(18446744073709551616.0) : -T(c.n + 1), yes;
        if (c.k != C::flt) return no;
        if (k == 'f' && std::isfinite(c.d) && std::fabs(c.d) > 3.4028234663852886e38) return unspec;
        return t = T(c.d), yes;
    }
    static void tokey(T t, U& u, char& ok) { ok = k; char b[64]; std::snprintf(b, 64, "%.*Lg", k == 'f' ? 9 : 17, (long double)t); u.clear(); for (char* p = b; *p; ++p) u += char32_t(*p); }
    static Tri fromkey(const U& u, T& t) {
        std::string n; for (auto c : u) { if (c > 127) return unspec; n += char(c); }
        J j; if (!jref::parse(n, j) || j.k != J::number || j.num != n) return n.empty() ? no : unspec;
        return num(n, t);
    }
};

// characters
template <class T> struct V<T, std::enable_if_t<is_chr<T>>> : Plain {
    static void gen(Src& s, T& t) {
        do t = T(uni::gen_cp(s)); while (false);
        if (sizeof(T) == 1) t = T(u8(t) & 0x7F);
        else if (sizeof(T) == 2 && !uni::scalar(char32_t(t) & 0xFFFF)) t = T('x');
        else if (!uni::scalar(char32_t(t))) t = T('x');
    }
    static bool eq(T a, T b) { return a == b; }
    static J toj(T t) { return J::S(U(1, char32_t(t))); }
    static Tri fromj(const J& j, T& t) {
        if (j.k != J::string || j.s.size() != 1) return no;
        if (sizeof(T) == 1 && j.s[0] > 0xFF) return no;
        if (sizeof(T) == 2 && j.s[0] > 0xFFFF) return no;
        return t = T(j.s[0]), yes;
    }
    static C toc(T t) { return C::Un(u64(std::make_unsigned_t<T>(t))); }
    static Tri fromc(const C& c, T& t) { return int_from(c, t); }
    static void tokey(T t, U& u, char&) { u = U(1, char32_t(t)); }
    static Tri fromkey(const U& u, T& t) { return fromj(J::S(u), t); }
};

// strings
template <class T> struct V<std::basic_string<T>> : Plain {
    using S = std::basic_string<T>;
    static void gen(Src& s, S& t) { t = uni::to<T>(uni::gen(s)); }
    static bool eq(const S& a, const S& b) { return a == b; }
    static J toj(const S& t) { U u; uni::from(t, u); return J::S(u); }
    static Tri fromj(const J& j, S& t) { return j.k == J::string ? (t = uni::to<T>(j.s), yes) : no; }
    static C toc(const S& t) {
        if constexpr (sizeof(T) == 1) { return C::T(std::string(t.begin(), t.end())); }
        else { C c = C::A(); for (auto x : t) c.a.push_back(V<T>::toc(x)); return c; }
    }
    static Tri fromc(const C& c0, S& t) {
        C const& c = cref::untag(c0); t.clear();
        if (c.k == C::bytes || c.k == C::text) { for (char x : c.s) t += T(u8(x)); return yes; }
        if (c.k != C::array) return no;
        Tri r = yes; for (auto& x : c.a) { T v{}; r = both(r, V<T>::fromc(x, v)); t += v; }
        return r;
    }
    static void tokey(const S& t, U& u, char&) { uni::from(t, u); }
    static Tri fromkey(const U& u, S& t) { return t = uni::to<T>(u), yes; }
};

// sequences
template <class Q> struct SeqBase {
    template <class A, class F> static void each(const A& q, F f) { for (auto&& x : q) f(x); }
};
// bytes and texts as arrays: number of bytes accepted, or not
template <class E> inline Tri bytes_to(u8 b, E& e) {
    if constexpr (std::is_same_v<E, bool>) return unspec;
    else if constexpr (std::is_arithmetic_v<E>) return e = E(b), yes;
    else return unspec;
}
template <class E, class Add> inline Tri seq_fromj(const J& j, Add add) {
    if (j.k != J::array) return no;
    Tri r = yes;
    for (auto& x : j.a) { Box<E> e; r = both(r, elem(V<E>::fromj(x, e.v))); if (r == no) return no; add(e.v); }
    return r;
}
template <class E, class Add> inline Tri seq_fromc(const C& c0, Add add) {
    C const& c = cref::untag(c0);
    if (c.k == C::bytes || c.k == C::text) {
        if constexpr (std::is_assignable_v<E&, const char&> || std::is_assignable_v<E&, const unsigned char&>) {
            Tri r = yes; for (char x : c.s) { Box<E> e; r = both(r, bytes_to(u8(x), e.v)); add(e.v); }
            return std::is_arithmetic_v<E> && !std::is_same_v<E, bool> ? r : unspec;
        }
        return no;
    }
    if (c.k != C::array) return no;
    Tri r = yes;
    for (auto& x : c.a) { Box<E> e; r = both(r, V<E>::fromc(x, e.v)); if (r == no) return no; add(e.v); }
    return r;
}
template <class E, class It> inline C seq_toc(It f, It l) {
    if constexpr (sizeof(E) == 1 && std::is_integral_v<E> && !std::is_same_v<E, bool>) {
        std::string b; for (; f != l; ++f) b += char(*f);
        return is_chr<E> ? C::T(b) : C::B(b);
    }
    C c = C::A(); for (; f != l; ++f) c.a.push_back(V<E>::toc(*f)); return c;
}
template <class E, class It> inline J seq_toj(It f, It l) { J j = J::A(); for (; f != l; ++f) j.a.push_back(V<E>::toj(*f)); return j; }
template <class A, class B> inline bool seq_eq(A f, A l, B g, B m) {
    for (; f != l && g != m; ++f, ++g) { using E = std::remove_cvref_t<decltype(*f)>; if (!V<E>::eq(*f, *g)) return false; }
    return f == l && g == m;
}
template <class Q, class E> struct Seq { // vector, deque, list
    static constexpr bool det = V<E>::det;
    static void gen(Src& s, Q& q) { for (std::size_t n = s.len(); n--; ) { q.emplace_back(); V<E>::gen(s, q.back()); } }
    static bool eq(const Q& a, const Q& b) { return seq_eq(a.begin(), a.end(), b.begin(), b.end()); }
    static J toj(const Q& q) { return seq_toj<E>(q.begin(), q.end()); }
    static Tri fromj(const J& j, Q& q) { q.clear(); return seq_fromj<E>(j, [&](E& e) { q.push_back(std::move(e)); take(e); }); }
    static C toc(const Q& q) { return seq_toc<E>(q.begin(), q.end()); }
    static Tri fromc(const C& c, Q& q) { q.clear(); return seq_fromc<E>(c, [&](E& e) { q.push_back(std::move(e)); take(e); }); }
    static void fini(Q& q) { for (auto& e : q) V<E>::fini(e); }
    template <class X> static void take(X& e) { if constexpr (std::is_pointer_v<X>) e = nullptr; }
};
template <class E> struct V<std::vector<E>, std::enable_if_t<!std::is_same_v<E, bool>>> : Seq<std::vector<E>, E> {};
template <class E> struct V<std::deque<E>> : Seq<std::deque<E>, E> {};
template <class E> struct V<std::list<E>> : Seq<std::list<E>, E> {};
template <> struct V<std::vector<bool>> : Plain {
    using Q = std::vector<bool>;
    static void gen(Src& s, Q& q) { for (std::size_t n = s.len(); n--; ) q.push_back(s.coin()); }
    static bool eq(const Q& a, const Q& b) { return a == b; }
    static J toj(const Q& q) { J j = J::A(); for (bool b : q) j.a.push_back(J::B(b)); return j; }
    static Tri fromj(const J& j, Q& q) { q.clear(); return seq_fromj<bool>(j, [&](bool b) { q.push_back(b); }); }
    static C toc(const Q& q) { C c = C::A(); for (bool b : q) c.a.push_back(C::Bool(b)); return c; }
    static Tri fromc(const C& c, Q& q) { q.clear(); return seq_fromc<bool>(c, [&](bool b) { q.push_back(b); }); }
};
template <class E> struct V<std::forward_list<E>> {
    using Q = std::forward_list<E>; static constexpr bool det = V<E>::det;
    static void gen(Src& s, Q& q) { for (std::size_t n = s.len(); n--; ) { q.emplace_front(); V<E>::gen(s, q.front()); } }
    static bool eq(const Q& a, const Q& b) { return seq_eq(a.begin(), a.end(), b.begin(), b.end()); }
    static J toj(const Q& q) { return seq_toj<E>(q.begin(), q.end()); }
    static C toc(const Q& q) { C c = C::A(); for (auto& e : q) c.a.push_back(V<E>::toc(e)); return c; }
    static Tri fromj(const J& j, Q& q) { q.clear(); Tri r = seq_fromj<E>(j, [&](E& e) { q.push_front(std::move(e)); }); q.reverse(); return r; }
    static Tri fromc(const C& c, Q& q) { q.clear(); Tri r = seq_fromc<E>(c, [&](E& e) { q.push_front(std::move(e)); }); q.reverse(); return r; }
    static void fini(Q& q) { for (auto& e : q) V<E>::fini(e); }
};
template <class E> struct V<std::valarray<E>> : Plain {
    using Q = std::valarray<E>;
    static void gen(Src& s, Q& q) { std::size_t n = s.len(); q.resize(n); for (std::size_t i = 0; i < n; ++i) V<E>::gen(s, q[i]); }
    static bool eq(const Q& a, const Q& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!V<E>::eq(a[i], b[i])) return false; return true; }
    static J toj(const Q& q) { J j = J::A(); for (std::size_t i = 0; i < q.size(); ++i) j.a.push_back(V<E>::toj(q[i])); return j; }
    static C toc(const Q& q) { C c = C::A(); for (std::size_t i = 0; i < q.size(); ++i) c.a.push_back(V<E>::toc(q[i])); return c; }
    static void set(Q& q, const std::vector<E>& v) { q.resize(v.size()); for (std::size_t i = 0; i < v.size(); ++i) q[i] = v[i]; }
    static Tri fromj(const J& j, Q& q) { std::vector<E> v; Tri r = seq_fromj<E>(j, [&](E& e) { v.push_back(e); }); set(q, v); return r; }
    static Tri fromc(const C& c, Q& q) { std::vector<E> v; Tri r = seq_fromc<E>(c, [&](E& e) { v.push_back(e); }); set(q, v); return r; }
};
// fixed size
template <class E> inline void mv(E& to, E& from) { if constexpr (std::is_pointer_v<E>) { to = from; from = nullptr; } else to = std::move(from); }
template <class E, std::size_t N> inline void mv(E (&to)[N], E (&from)[N]) { for (std::size_t i = 0; i < N; ++i) mv(to[i], from[i]); }
template <class E, std::size_t N> struct Fix {
    static constexpr bool det = V<E>::det;
    template <class Q> static void gen_(Src& s, Q& q) { for (std::size_t i = 0; i < N; ++i) V<E>::gen(s, q[i]); }
    template <class Q> static bool eq_(const Q& a, const Q& b) { for (std::size_t i = 0; i < N; ++i) if (!V<E>::eq(a[i], b[i])) return false; return true; }
    template <class Q> static Tri fromj_(const J& j, Q& q) {
        std::size_t i = 0; if (j.k == J::array && j.a.size() > N) return no;
        return seq_fromj<E>(j, [&](E& e) { mv(q[i++], e); });
    }
    template <class Q> static Tri fromc_(const C& c, Q& q) {
        C const& x = cref::untag(c); if (x.k == C::array ? x.a.size() > N : x.s.size() > N) return no;
        std::size_t i = 0; return seq_fromc<E>(c, [&](E& e) { mv(q[i++], e); });
    }
    template <class Q> static void fini_(Q& q) { for (std::size_t i = 0; i < N; ++i) V<E>::fini(q[i]); }
};
template <class E, std::size_t N> struct V<std::array<E, N>> : Fix<E, N> {
    using F = Fix<E, N>; using Q = std::array<E, N>;
    static void gen(Src& s, Q& q) { F::gen_(s, q); }
    static bool eq(const Q& a, const Q& b) { return F::eq_(a, b); }
    static J toj(const Q& q) { return seq_toj<E>(q.begin(), q.end()); }
    static C toc(const Q& q) { return seq_toc<E>(q.begin(), q.end()); }
    static Tri fromj(const J& j, Q& q) { return F::fromj_(j, q); }
    static Tri fromc(const C& c, Q& q) { return F::fromc_(c, q); }
    static void fini(Q& q) { F::fini_(q); }
};
template <class E, std::size_t N> struct V<E[N], std::enable_if_t<!is_chr<E>>> : Fix<E, N> {
    using F = Fix<E, N>; using Q = E[N];
    static void gen(Src& s, Q& q) { F::gen_(s, q); }
    static bool eq(const Q& a, const Q& b) { return F::eq_(a, b); }
    static J toj(const Q& q) { return seq_toj<E>(q, q + N); }
    static C toc(const Q& q) { return seq_toc<E>(q, q + N); }
    static Tri fromj(const J& j, Q& q) { return F::fromj_(j, q); }
    static Tri fromc(const C& c, Q& q) { return F::fromc_(c, q); }
    static void fini(Q& q) { F::fini_(q); }
};
template <class E, std::size_t N> struct V<E[N], std::enable_if_t<is_chr<E>>> : Plain { // character arrays
    using Q = E[N];
    static void gen(Src& s, Q& q) { // text that fits, sometimes exactly
        std::basic_string<E> t; std::size_t const lim = s.chance(1, 4) ? N : N - 1;
        for (auto c : uni::gen(s, N)) { auto x = uni::to<E>(U(1, c)); if (t.size() + x.size() <= lim) t += x; }
        if (s.chance(1, 4)) while (t.size() < lim) t += E('z');
        std::fill(q, q + N, E(0)); std::copy(t.begin(), t.end(), q);
    }
    static bool eq(const Q& a, const Q& b) { return std::equal(a, a + N, b); }
    static J toj(const Q& q) { U u; uni::from(q, q + N - (q[N - 1] == 0), u); return J::S(u); }
    static C toc(const Q& q) { if constexpr (sizeof(E) == 1) return C::T(std::string(q, q + N)); else return seq_toc<E>(q, q + N); }
    static Tri fromj(const J& j, Q& q) {
        if (j.k != J::string) return no;
        auto t = uni::to<E>(j.s); if (t.size() > N) return no;
        std::copy(t.begin(), t.end(), q); return yes;
    }
    static Tri fromc(const C& c0, Q& q) {
        C const& c = cref::untag(c0); std::basic_string<E> t; Tri r = V<std::basic_string<E>>::fromc(c, t);
        if (r == no || t.size() > N) return no;
        std::copy(t.begin(), t.end(), q); return r;
    }
};
// adaptors
template <class A> struct Under : A { static const typename A::container_type& get(const A& a) { return a.*&Under::c; } static typename A::container_type& get(A& a) { return a.*&Under::c; } };
template <class A, class E> struct Adapt {
    using Q = typename A::container_type; using W = V<Q>; static constexpr bool det = V<E>::det;
    static Q& q(A& a) { return Under<A>::get(a); }
    static const Q& q(const A& a) { return Under<A>::get(a); }
    static void gen(Src& s, A& a) { W::gen(s, q(a)); }
    static bool eq(const A& a, const A& b) { return W::eq(q(a), q(b)); }
    static J toj(const A& a) { return W::toj(q(a)); }
    static C toc(const A& a) { return W::toc(q(a)); }
    static Tri fromj(const J& j, A& a) { return W::fromj(j, q(a)); }
    static Tri fromc(const C& c, A& a) { return W::fromc(c, q(a)); }
    static void fini(A& a) { W::fini(q(a)); }
};
template <class E> struct V<std::queue<E>> : Adapt<std::queue<E>, E> {};
template <class E, class D> struct V<std::stack<E, D>> : Adapt<std::stack<E, D>, E> { // top first in JSON
    using A = std::stack<E, D>; using B = Adapt<A, E>;
    static J toj(const A& a) { J j = B::toj(a); std::reverse(j.a.begin(), j.a.end()); return j; }
};
template <class E> struct V<std::priority_queue<E>> : Adapt<std::priority_queue<E>, E> {
    using A = std::priority_queue<E>; using B = Adapt<A, E>;
    static void gen(Src& s, A& a) { for (std::size_t n = s.len(); n--; ) { E e{}; V<E>::gen(s, e); a.push(e); } }
    static std::vector<E> drain(A a) { std::vector<E> v; while (!a.empty()) v.push_back(a.top()), a.pop(); return v; }
    static bool eq(const A& a, const A& b) { return V<std::vector<E>>::eq(drain(a), drain(b)); }
    static Tri fromj(const J& j, A& a) { std::vector<E> v; Tri r = V<std::vector<E>>::fromj(j, v); for (auto& e : v) a.push(e); return r; }
    static Tri fromc(const C& c, A& a) { std::vector<E> v; Tri r = V<std::vector<E>>::fromc(c, v); for (auto& e : v) a.push(e); return r; }
};
// sets
template <class Q, class E, bool uniq, bool ordered> struct Set : Plain {
    static constexpr bool det = ordered;
    static void gen(Src& s, Q& q) { for (std::size_t n = s.len(); n--; ) { E e{}; V<E>::gen(s, e); if constexpr (std::is_floating_point_v<E>) { if (e != e) e = 1; } q.insert(e); if (!uniq && s.chance(1, 4)) q.insert(e); } }
    static bool eq(const Q& a, const Q& b) {
        if constexpr (ordered) return seq_eq(a.begin(), a.end(), b.begin(), b.end());
        else return a == b;
    }
    static J toj(const Q& q) { return seq_toj<E>(q.begin(), q.end()); }
    static C toc(const Q& q) { C c = C::A(); for (auto& e : q) c.a.push_back(V<E>::toc(e)); return c; }
    static bool nan(const E& e) { if constexpr (std::is_floating_point_v<E>) return e != e; return false; }
    static Tri fromj(const J& j, Q& q) { q.clear(); bool dup = false; Tri r = seq_fromj<E>(j, [&](E& e) { dup = dup || nan(e) || (uniq && q.count(e)); if (!nan(e)) q.insert(e); }); return r == yes && dup ? unspec : r; }
    static Tri fromc(const C& c, Q& q) { q.clear(); bool dup = false; Tri r = seq_fromc<E>(c, [&](E& e) { dup = dup || nan(e) || (uniq && q.count(e)); if (!nan(e)) q.insert(e); }); if (cref::untag(c).k != C::array) return unspec; return r == yes && dup ? unspec : r; }
};
template <class E> struct V<std::set<E>> : Set<std::set<E>, E, true, true> {};
template <class E> struct V<std::multiset<E>> : Set<std::multiset<E>, E, false, true> {};
template <class E> struct V<std::unordered_set<E>> : Set<std::unordered_set<E>, E, true, false> {};
template <class E> struct V<std::unordered_multiset<E>> : Set<std::unordered_multiset<E>, E, false, false> {};
// maps
template <class K> concept keyed = requires(const K& k, U& u, char& c, K& m) { V<K>::tokey(k, u, c); V<K>::fromkey(u, m); };
template <class Q, class K, class E, bool uniq, bool ordered> struct Map {
    static constexpr bool det = ordered && V<E>::det;
    static void genk(Src& s, K& k) { V<K>::gen(s, k); if constexpr (std::is_floating_point_v<K>) { if (!std::isfinite(k)) k = 1.5; } }
    static void gen(Src& s, Q& q) {
        for (std::size_t n = s.len(); n--; ) {
            K k{}; genk(s, k); if (uniq && q.count(k)) continue;
            auto i = q.emplace(k, E{}); if constexpr (uniq) V<E>::gen(s, i.first->second); else V<E>::gen(s, i->second);
            if (!uniq && s.chance(1, 4)) { auto j = q.emplace(k, E{}); if constexpr (uniq) (void)j; else V<E>::gen(s, j->second); }
        }
    }
    static bool eq(const Q& a, const Q& b) {
        if (a.size() != b.size()) return false;
        if constexpr (ordered) { auto g = b.begin(); for (auto f = a.begin(); f != a.end(); ++f, ++g) if (!V<K>::eq(f->first, g->first) || !V<E>::eq(f->second, g->second)) return false; return true; }
        else { // as multisets
            std::vector<char> used(b.size());
            for (auto& x : a) { std::size_t n = 0; bool found = false; for (auto& y : b) { if (!used[n] && V<K>::eq(x.first, y.first) && V<E>::eq(x.second, y.second)) { used[n] = 1, found = true; break; } ++n; } if (!found) return false; }
            return true;
        }
    }
    static J toj(const Q& q) {
        J j = J::O();
        for (auto& x : q) { U u; char ok = 0; if constexpr (keyed<K>) V<K>::tokey(x.first, u, ok); else ok = '*'; j.add(u, V<E>::toj(x.second), ok); }
        return j;
    }
    static C toc(const Q& q) { C c = C::M(); for (auto& x : q) c.a.push_back(V<K>::toc(x.first)), c.a.push_back(V<E>::toc(x.second)); return c; }
    static void put(Q& q, K& k, E& e, bool& dup) {
        if constexpr (std::is_floating_point_v<K>) { if (k != k) { dup = true; return; } }
        if (uniq && q.count(k)) { dup = true; return; }
        q.emplace(k, std::move(e)); if constexpr (std::is_pointer_v<E>) e = nullptr;
    }
    static Tri fromj(const J& j, Q& q) {
        q.clear(); if (j.k != J::object) return no;
        if constexpr (!keyed<K>) return unspec; else {
            Tri r = yes; bool dup = false;
            for (auto& x : j.o) { K k{}; Box<E> e; r = both(r, V<K>::fromkey(x.first, k)); r = both(r, elem(V<E>::fromj(x.second, e.v))); if (r == no) return no; put(q, k, e.v, dup); }
            return dup ? unspec : r;
        }
    }
    static Tri fromc(const C& c0, Q& q) {
        C const& c = cref::untag(c0); q.clear(); if (c.k != C::map) return no;
        Tri r = yes; bool dup = false;
        for (std::size_t i = 0; i < c.a.size(); i += 2) { K k{}; Box<E> e; r = both(r, V<K>::fromc(c.a[i], k)); r = both(r, V<E>::fromc(c.a[i + 1], e.v)); if (r == no) return no; put(q, k, e.v, dup); }
        return dup ? unspec : r;
    }
    static void fini(Q& q) { for (auto& x : q) V<E>::fini(x.second); }
};
template <class K, class E> struct V<std::map<K, E>> : Map<std::map<K, E>, K, E, true, true> {};
template <class K, class E> struct V<std::multimap<K, E>> : Map<std::multimap<K, E>, K, E, false, true> {};
template <class K, class E> struct V<std::unordered_map<K, E>> : Map<std::unordered_map<K, E>, K, E, true, false> {};
template <class K, class E> struct V<std::unordered_multimap<K, E>> : Map<std::unordered_multimap<K, E>, K, E, false, false> {};

// optional, pointers
template <class E> struct V<std::optional<E>> {
    using Q = std::optional<E>; static constexpr bool det = V<E>::det;
    static void gen(Src& s, Q& q) { if (s.chance(3, 4)) V<E>::gen(s, q.emplace()); else q.reset(); }
    static bool eq(const Q& a, const Q& b) { return bool(a) == bool(b) && (!a || V<E>::eq(*a, *b)); }
    static J toj(const Q& q) { return q ? V<E>::toj(*q) : J::N(); }
    static C toc(const Q& q) { return q ? V<E>::toc(*q) : C::S(23); }
    static Tri fromj(const J& j, Q& q) { return j.k == J::null ? (q.reset(), yes) : V<E>::fromj(j, q.emplace()); }
    static Tri fromc(const C& c, Q& q) { C const& x = cref::untag(c); return x.k == C::simple && x.n == 23 ? (q.reset(), yes) : V<E>::fromc(x, q.emplace()); }
    static void fini(Q& q) { if (q) V<E>::fini(*q); }
};
template <class P, class E> struct Ptr {
    static constexpr bool det = V<E>::det;
    static void gen(Src& s, P& q) { if (s.chance(3, 4)) { make(q); V<E>::gen(s, *q); } }
    static void make(P& q) { if constexpr (std::is_pointer_v<P>) q = new (::operator new(sizeof(E))) E(); else q = P(new E()); }
    static bool eq(const P& a, const P& b) { return !a == !b && (!a || V<E>::eq(*a, *b)); }
    static J toj(const P& q) { return q ? V<E>::toj(*q) : J::N(); }
    static C toc(const P& q) { return q ? V<E>::toc(*q) : C::S(22); }
    static Tri fromj(const J& j, P& q) { if (j.k == J::null) return yes; make(q); return V<E>::fromj(j, *q); }
    static Tri fromc(const C& c, P& q) { C const& x = cref::untag(c); if (x.k == C::simple && x.n == 22) return yes; make(q); return V<E>::fromc(x, *q); }
    static void fini(P& q) { if constexpr (std::is_pointer_v<P>) { if (q) { V<E>::fini(*q); q->~E(); ::operator delete(q); q = nullptr; } } else if (q) V<E>::fini(*q); }
};
template <class E> struct V<std::unique_ptr<E>> : Ptr<std::unique_ptr<E>, E> {};
template <class E> struct V<std::shared_ptr<E>> : Ptr<std::shared_ptr<E>, E> {};
template <class E> struct V<E*, std::enable_if_t<!is_chr<E>>> : Ptr<E*, E> {};
template <class E> struct V<E*, std::enable_if_t<is_chr<E>>> { // C strings
    using P = E*; static constexpr bool det = true;
    static void set(P& q, const std::basic_string<E>& t) { q = static_cast<E*>(::operator new((t.size() + 1) * sizeof(E))); std::copy(t.c_str(), t.c_str() + t.size() + 1, q); }
    static void gen(Src& s, P& q) { if (s.chance(1, 6)) return; auto u = uni::gen(s); u.erase(std::remove(u.begin(), u.end(), U'\0'), u.end()); set(q, uni::to<E>(u)); }
    static std::basic_string<E> str(P q) { return q; }
    static bool eq(const P& a, const P& b) { return !a == !b && (!a || str(a) == str(b)); }
    static J toj(const P& q) { return q ? V<std::basic_string<E>>::toj(str(q)) : J::N(); }
    static C toc(const P& q) {
        if (!q) return C::S(22);
        auto t = str(q); t += E(0);
        return V<std::basic_string<E>>::toc(t);
    }
    static Tri fromj(const J& j, P& q) { if (j.k == J::null) return yes; if (j.k != J::string) return no; set(q, uni::to<E>(j.s)); return yes; }
    static Tri fromc(const C& c, P& q) {
        C const& x = cref::untag(c); if (x.k == C::simple && x.n == 22) return yes;
        if (x.k != C::bytes && x.k != C::text && x.k != C::array) return x.k == C::uint || x.k == C::nint ? unspec : no; // a single character: pinned by tests
        std::basic_string<E> t; Tri r = V<std::basic_string<E>>::fromc(x, t); set(q, t); return r;
    }
    static void fini(P& q) { if (q) ::operator delete(q); q = nullptr; }
};
// tuples
template <class Tu, class ...E> struct Tup {
    static constexpr std::size_t N = sizeof...(E); static constexpr bool det = (V<E>::det && ...);
    template <class F> static void each(F f) { each_(f, std::make_index_sequence<N>()); }
    template <class F, std::size_t ...I> static void each_(F& f, std::index_sequence<I...>) { (f(std::integral_constant<std::size_t, I>()), ...); }
    static void gen(Src& s, Tu& t) { each([&](auto i) { ty::gen(s, std::get<i()>(t)); }); }
    static bool eq(const Tu& a, const Tu& b) { bool r = true; each([&](auto i) { r = r && ty::eq(std::get<i()>(a), std::get<i()>(b)); }); return r; }
    static J toj(const Tu& t) { J j = J::A(); each([&](auto i) { j.a.push_back(V<std::remove_cvref_t<decltype(std::get<i()>(t))>>::toj(std::get<i()>(t))); }); return j; }
    static C toc(const Tu& t) { C c = C::A(); each([&](auto i) { c.a.push_back(V<std::remove_cvref_t<decltype(std::get<i()>(t))>>::toc(std::get<i()>(t))); }); return c; }
    static Tri fromj(const J& j, Tu& t) { if (j.k != J::array || j.a.size() != N) return no; Tri r = yes; each([&](auto i) { r = both(r, elem(V<std::remove_cvref_t<decltype(std::get<i()>(t))>>::fromj(j.a[i()], std::get<i()>(t)))); }); return r; }
    static Tri fromc(const C& c, Tu& t) { C const& x = cref::untag(c); if (x.k != C::array || x.a.size() != N) return no; Tri r = yes; each([&](auto i) { r = both(r, V<std::remove_cvref_t<decltype(std::get<i()>(t))>>::fromc(x.a[i()], std::get<i()>(t))); }); return r; }
    static void fini(Tu& t) { each([&](auto i) { V<std::remove_cvref_t<decltype(std::get<i()>(t))>>::fini(std::get<i()>(t)); }); }
};
template <class ...E> struct V<std::tuple<E...>> : Tup<std::tuple<E...>, E...> {};
template <class A, class B> struct V<std::pair<A, B>> : Tup<std::pair<A, B>, A, B> {};
template <class E> struct V<std::complex<E>> : Plain {
    using Q = std::complex<E>; using P = V<std::pair<E, E>>;
    static void gen(Src& s, Q& q) { E a, b; V<E>::gen(s, a); V<E>::gen(s, b); q = {a, b}; }
    static bool eq(const Q& a, const Q& b) { return V<E>::eq(a.real(), b.real()) && V<E>::eq(a.imag(), b.imag()); }
    static J toj(const Q& q) { return P::toj({q.real(), q.imag()}); }
    static C toc(const Q& q) { return P::toc({q.real(), q.imag()}); }
    static Tri fromj(const J& j, Q& q) { std::pair<E, E> p; Tri r = P::fromj(j, p); q = {p.first, p.second}; return r; }
    static Tri fromc(const C& c, Q& q) { std::pair<E, E> p; Tri r = P::fromc(c, p); q = {p.first, p.second}; return r; }
};
// bitset
template <std::size_t N> struct V<std::bitset<N>> : Plain {
    using Q = std::bitset<N>;
    static void gen(Src& s, Q& q) { switch (s.draw(4)) { case 0: q.reset(); break; case 1: q.set(); break; default: for (std::size_t i = 0; i < N; ++i) q[i] = s.coin(); } }
    static bool eq(const Q& a, const Q& b) { return a == b; }
    static J toj(const Q& q) { U u; for (char c : q.to_string()) u += char32_t(c); return J::S(u); }
    static C toc(const Q& q) {
        std::size_t const M = (N + 7) / 8; std::string b(M + 1, '\0'); b[0] = char(M * 8 - N);
        for (std::size_t i = 0; i < N; ++i) if (q[i]) b[M - i / 8] = char(b[M - i / 8] | (1 << (i % 8)));
        return C::B(b);
    }
    static Tri fromj(const J& j, Q& q) {
        if (j.k != J::string || j.s.size() != N) return no;
        for (std::size_t i = 0; i < N; ++i) { if (j.s[i] != U'0' && j.s[i] != U'1') return no; q[N - 1 - i] = j.s[i] == U'1'; }
        return yes;
    }
    static Tri fromc(const C& c, Q& q) {
        C const& x = cref::untag(c); std::size_t const M = (N + 7) / 8; if (x.k != C::bytes || x.s.size() != M + 1 || u8(x.s[0]) != M * 8 - N) return no;
        if (N % 8 && u8(x.s[1]) >> (N % 8)) return unspec; // padding bits
        for (std::size_t i = 0; i < N; ++i) q[i] = (u8(x.s[M - i / 8]) >> (i % 8)) & 1;
        return yes;
    }
};
// chrono
template <class R, class P> struct V<std::chrono::duration<R, P>> : Plain {
    using Q = std::chrono::duration<R, P>;
    static void gen(Src& s, Q& q) { R r; V<R>::gen(s, r); q = Q(r); }
    static bool eq(const Q& a, const Q& b) { return V<R>::eq(a.count(), b.count()); }
    static J toj(const Q& q) { return V<R>::toj(q.count()); }
    static C toc(const Q& q) { return V<R>::toc(q.count()); }
    static Tri fromj(const J& j, Q& q) { R r{}; Tri x = V<R>::fromj(j, r); q = Q(r); return x; }
    static Tri fromc(const C& c, Q& q) { R r{}; Tri x = V<R>::fromc(c, r); q = Q(r); return x; }
};
template <class Cl, class D> struct V<std::chrono::time_point<Cl, D>> : Plain {
    using Q = std::chrono::time_point<Cl, D>;
    static void gen(Src& s, Q& q) { D d; V<D>::gen(s, d); q = Q(d); }
    static bool eq(const Q& a, const Q& b) { return V<D>::eq(a.time_since_epoch(), b.time_since_epoch()); }
    static J toj(const Q& q) { return V<D>::toj(q.time_since_epoch()); }
    static C toc(const Q& q) { return V<D>::toc(q.time_since_epoch()); }
    static Tri fromj(const J& j, Q& q) { D d{}; Tri x = V<D>::fromj(j, d); q = Q(d); return x; }
    static Tri fromc(const C& c, Q& q) { D d{}; Tri x = V<D>::fromc(c, d); q = Q(d); return x; }
};
// variant
template <> struct V<std::monostate> : Plain {
    static void gen(Src&, std::monostate&) {}
    static bool eq(std::monostate, std::monostate) { return true; }
    static J toj(std::monostate) { return J::N(); }
    static C toc(std::monostate) { return C::S(23); }
    static Tri fromj(const J& j, std::monostate&) { return j.k == J::null ? yes : no; }
    static Tri fromc(const C& c, std::monostate&) { return cref::untag(c).k == C::simple && cref::untag(c).n == 23 ? yes : no; }
};
template <class T> inline constexpr int kinds = 0; // JSON kinds an alternative may have: bit per J::K
template <> inline constexpr int kinds<std::monostate> = 1 << J::null;
template <> inline constexpr int kinds<std::nullptr_t> = 1 << J::null;
template <> inline constexpr int kinds<bool> = 1 << J::boolean;
template <class T> requires (is_int<T> || std::is_floating_point_v<T>) inline constexpr int kinds<T> = 1 << J::number;
template <class T> requires is_chr<T> inline constexpr int kinds<T> = 1 << J::string;
template <class T> inline constexpr int kinds<std::basic_string<T>> = 1 << J::string;
template <class T> inline constexpr int kinds<std::vector<T>> = 1 << J::array;
template <class A, class B> inline constexpr int kinds<std::pair<A, B>> = 1 << J::array;
template <class A, class B> inline constexpr int kinds<std::map<A, B>> = 1 << J::object;
template <class A> inline constexpr int kinds<std::optional<A>> = kinds<A> | 1 << J::null;
template <class ...E> struct V<std::variant<E...>> {
    using Q = std::variant<E...>; static constexpr std::size_t N = sizeof...(E); static constexpr bool det = (V<E>::det && ...);
    static constexpr bool ambiguous() { int all = 0, two = 0; ((two |= all & kinds<E>, all |= kinds<E>), ...); return two != 0; }
    template <class F> static void at(std::size_t n, F f) { at_(n, f, std::make_index_sequence<N>()); }
    template <class F, std::size_t ...I> static void at_(std::size_t n, F& f, std::index_sequence<I...>) { ((n == I ? f(std::integral_constant<std::size_t, I>()) : void()), ...); }
    template <std::size_t I> using A = std::variant_alternative_t<I, Q>;
    static void gen(Src& s, Q& q) { at(s.below(N), [&](auto i) {
        auto& v = q.template emplace<i()>(); V<A<i()>>::gen(s, v);
        if constexpr (std::is_floating_point_v<A<i()>>) { if (!ambiguous() && !std::isfinite(v)) v = 2.5; } // a quoted number is a string
    }); }
    static bool eq(const Q& a, const Q& b) { if (a.index() != b.index()) return false; bool r = false; at(a.index(), [&](auto i) { r = ty::eq(std::get<i()>(a), std::get<i()>(b)); }); return r; }
    static J toj(const Q& q) {
        J j; at(q.index(), [&](auto i) { j = V<A<i()>>::toj(std::get<i()>(q)); });
        if constexpr (ambiguous()) { J o = J::O(); U u; char ok = 0; V<std::size_t>::tokey(q.index(), u, ok); o.add(u, j, ok); return o; }
        return j;
    }
    static C toc(const Q& q) { C c = C::A(); c.a.push_back(C::Un(q.index())); at(q.index(), [&](auto i) { c.a.push_back(V<A<i()>>::toc(std::get<i()>(q))); }); return c; }
    static Tri fromj(const J& j, Q& q) {
        Tri r = no;
        if constexpr (ambiguous()) {
            if (j.k != J::object || j.o.size() != 1) return no;
            std::size_t n = 0; Tri const k = V<std::size_t>::fromkey(j.o[0].first, n); if (k != yes) return k; if (n >= N) return no;
            at(n, [&](auto i) { r = elem(V<A<i()>>::fromj(j.o[0].second, q.template emplace<i()>())); });
            return r;
        }
        std::size_t n = N; int const ks[] = {kinds<E>...};
        for (std::size_t i = 0; i < N; ++i) if (ks[i] >> int(j.k) & 1) n = i;
        if (n == N) return no;
        at(n, [&](auto i) { r = V<A<i()>>::fromj(j, q.template emplace<i()>()); });
        return r;
    }
    static Tri fromc(const C& c, Q& q) {
        C const& x = cref::untag(c); if (x.k != C::array || x.a.size() != 2) return no;
        std::size_t n = 0; Tri const k = V<std::size_t>::fromc(x.a[0], n); if (k != yes) return k; if (n >= N) return no;
        Tri r = no; at(n, [&](auto i) { r = V<A<i()>>::fromc(x.a[1], q.template emplace<i()>()); }); return r;
    }
    static void fini(Q& q) { at(q.index(), [&](auto i) { V<A<i()>>::fini(std::get<i()>(q)); }); }
};

} // ty
