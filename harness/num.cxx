// J07: numbers. Exactness, rounding, ranges, lengths and grammar against libc and 128-bit arithmetic.
#include "cxon/json.hxx"
#include "cxon/cxcf.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/vector.hxx"
#include "common/io.hpp"
#include "common/jref.hpp"
#include <map>
#include <algorithm>
#include <limits>
#include <cmath>
using JX = cxon::JSON<>; using QX = cxon::CXCF<>;
struct FStrict : cxon::json::format_traits { struct number : cxon::json::format_traits::number { static constexpr bool strict = true; }; };
struct FNans : FStrict { static constexpr bool allow_javascript_nans = true; };
using JS = cxon::JSON<FStrict>; using JN = cxon::JSON<FNans>;
template <class X> inline constexpr bool strict = X::number::strict;
namespace np = cxon::json;
using i128 = __int128;

static std::string str(i128 v) { bool const n = v < 0; std::string t; do { int d = int(v % 10); t.insert(t.begin(), char('0' + (d < 0 ? -d : d))); v /= 10; } while (v); return n ? "-" + t : t; }
template <class T> static std::string shown(T v) { char b[64]; if constexpr (std::is_integral_v<T>) return str(i128(v)); else { std::snprintf(b, 64, "%.25Lg", (long double)v); return b; } }
static const char* const SUF[] = {"", ",", "]", "}", " ", "\"", "\n", "x", ":", "\xff", "/"};

// readers: pointers, forward and input iterators, in containers and as keys
template <class X, class T> static io::R read(int k, T& t, const std::string& x) {
    switch (k) {
        case 0: return io::read<X>(t, x, np::num_len_max::set<4096>());
        case 1: return io::read_fwd<X>(t, x, np::num_len_max::set<4096>());
        default: return io::read_in<X>(t, x, np::num_len_max::set<4096>());
    }
}
template <class X, class T, class Eq> static void expect(Src& s, const std::string& n, bool good, T want, Eq eq) {
    std::string const x = n + s.pick(SUF); int const k = int(s.draw(4));
    if (k == 3) { // in a container and as a key
        std::string c = "{\"" + n + "\":[" + n + "," + n + "]}";
        if constexpr (std::is_same_v<X, QX>) c.erase(std::remove(c.begin(), c.end(), '"'), c.end()); // keys that are not texts are not quoted
        if constexpr (std::is_same_v<X, QX>) for (auto& h : c) if (h == ':') h = '='; else if (h == ',') h = ' ';
        std::map<T, std::vector<T>> m; auto const r = io::read<X>(m, c, np::num_len_max::set<4096>());
        if (good) {
            CHECK(r.ok && r.end == long(c.size()), "reject container", "rejected: ", io::msg(r), " at ", r.end, " in ", quote(c));
            CHECK(m.size() == 1 && eq(m.begin()->first, want) && m.begin()->second.size() == 2 && eq(m.begin()->second[0], want) && eq(m.begin()->second[1], want), "value container", "another value is read from ", quote(c));
        }
        else CHECK(!r.ok, "accept container", "accepted: ", quote(c));
    }
    else {
        T t = T(77); auto const r = read<X>(k, t, x);
        if (good) {
            CHECK(r.ok, "reject", "rejected: ", io::msg(r), " in ", quote(x), " (way ", k, ")");
            CHECK(r.end == long(n.size()), "end", "ends at ", r.end, " in ", quote(x), " (way ", k, ")");
            CHECK(eq(t, want), "value", shown(t), " is read, expected ", shown(want), " from ", quote(x), " (way ", k, ")");
        }
        else {
            CHECK(!r.ok, "accept", "accepted as ", shown(t), ": ", quote(x), " (way ", k, ")");
            CHECK(k == 2 || r.end == 0, "rewind", "ends at ", r.end, " in ", quote(x), " (way ", k, ")");
        }
    }
    s.show(n); s.label(good ? "in range" : "out of range");
}
template <class T> static bool eqi(T a, T b) { return a == b; }
template <class T> static bool eqf(T a, T b) { return jref::same_bits(a, b); }

// integers
template <class T> static void ints(Src& s) {
    i128 const lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    i128 v = 0;
    switch (s.draw(7)) {
        case 0: v = hi + s.range(-3, 12); break;
        case 1: v = lo + s.range(-12, 3); break;
        case 2: { i128 const b = (i128(1) << s.draw(70)); v = b + s.range(-2, 2); if (s.coin()) v = -v; break; }
        case 3: { i128 b = 1; for (u64 n = s.draw(32); n--; ) b *= 10; v = b + s.range(-2, 2); if (s.coin()) v = -v; break; }
        case 4: v = s.coin() ? hi * 10 + s.range(-10, 10) : lo * 10 + s.range(-10, 10); break;
        case 5: { v = i128(s.draw(0)) << s.draw(36) | i128(s.draw(0)); if (s.coin()) v = -v; break; }
        default: { v = i128(T(s.bits())); break; }
    }
    if (std::is_unsigned_v<T> && v == 0 && s.coin()) v = 1;
    std::string const n = str(v); bool const good = v >= lo && v <= hi;
    switch (s.draw(4)) {
        case 0: expect<JX>(s, n, good, T(v), &eqi<T>); break;
        case 1: expect<JS>(s, n, good, T(v), &eqi<T>); break;
        case 2: expect<QX>(s, n, good, T(v), &eqi<T>); break;
        default: if (good) { std::string t; auto const r = io::write<JX>(t, T(v)); CHECK(r.ok && t == n, "write", quote(t), " is written for ", n); s.label("written"); std::string m; io::write<JX>(m, std::map<T, T>{{T(v), T(v)}}); CHECK(m == "{\"" + n + "\":" + n + "}", "write key", quote(m), " is written for ", n); }
    }
    s.nontrivial(n.size() > 1);
}

// notations of real numbers
template <class T> static T convert(const std::string& t) { return T(jref::round_to(std::is_same_v<T, float> ? 'f' : std::is_same_v<T, double> ? 'd' : 'l', t)); }
static std::string trim(std::string t) { // zeros at the end of the fraction
    std::size_t const e = t.find('e'); std::string x = e == std::string::npos ? "" : t.substr(e); t.resize(std::min(t.size(), e));
    if (t.find('.') != std::string::npos) { while (t.back() == '0') t.pop_back(); if (t.back() == '.') t.pop_back(); }
    return t + x;
}
static std::string print(const char* f, int p, long double v) { std::string b(12000, 0); b.resize(std::size_t(std::snprintf(b.data(), b.size(), f, p, v))); return b; }
template <class T> static T value(Src& s) {
    using L = std::numeric_limits<T>;
    switch (s.draw(6)) {
        case 0: { static const T E[] = {L::max(), L::min(), L::denorm_min(), T(1), T(0), T(0.1), T(1e22), T(1e23), T(9007199254740992), T(16777216), L::epsilon(), T(123456789), T(5e-324), T(2.2250738585072014e-308), T(1.17549435e-38f), T(1e16), T(8.5)}; T v = s.pick(E); for (u64 k = s.draw(3); k--; ) v = std::nextafter(v, s.coin() ? L::infinity() : T(0)); return std::isfinite(v) ? v : L::max(); }
        case 1: return T(s.range(-1000000, 1000000)) / T(s.range(1, 1000));
        case 2: return std::ldexp(T(1), int(s.range(L::min_exponent - L::digits, L::max_exponent - 1)));
        case 3: { T const v = std::ldexp(T(s.draw(0)), int(s.range(-80, 80))); return std::isfinite(v) ? v : L::max(); }
        default: { T v; if constexpr (sizeof(T) == 4) { std::uint32_t b = std::uint32_t(s.draw(0)); std::memcpy(&v, &b, 4); } else if constexpr (sizeof(T) == 8) { u64 b = s.draw(0); std::memcpy(&v, &b, 8); } else v = std::ldexp((long double)s.draw(0), int(s.range(-16500, 16300))); return std::isfinite(v) ? v : T(1.5); }
    }
}
static std::string digits(Src& s, std::size_t n, bool first = true) { std::string t; for (std::size_t i = 0; i < n; ++i) t += char(i == 0 && first ? '1' + s.draw(9) : '0' + s.draw(10)); return t; }
template <class T> static std::string notation(Src& s) {
    std::string t;
    switch (s.draw(8)) {
        case 0: t = print("%.*Le", int(s.draw(30)), value<T>(s)); break;
        case 1: { T v = value<T>(s); if (std::fabs(v) > 1e40 || (v != 0 && std::fabs(v) < 1e-30)) t = print("%.*Le", 1100, v); else t = print("%.*Lf", 200, v); t = trim(t); break; } // exact
        case 2: case 3: { // halfway between two values, and next to that
            T const a = value<T>(s), b = std::nextafter(a, std::numeric_limits<T>::infinity());
            long double m = std::isinf(b) ? std::ldexp((long double)a, -1) + std::ldexp((long double)a - (long double)std::nextafter(a, T(0)), -2) : ((long double)a + (long double)b) / 2; // halves when past the greatest
            if (std::isinf(b)) { m *= 2; if (std::isinf(m)) m = (long double)a; }
            t = trim(print("%.*Le", 1200, m));
            std::size_t const e = t.find('e'); std::string x = t.substr(e), y = t.substr(0, e);
            switch (s.draw(4)) {
                case 0: break;
                case 1: if (y.find('.') == std::string::npos) y += '.'; y += std::string(s.draw(900), '0') + "1"; break;
                case 2: if (y.back() > '1' && y.find('.') != std::string::npos) { y.back() = char(y.back() - 1); y += std::string(1 + s.draw(20), '9'); } break;
                default: y += y.find('.') == std::string::npos ? ".0" : "0";
            }
            t = y + x; break;
        }
        case 4: { // many digits
            t = s.coin() ? "0" : digits(s, 1 + s.draw(40)); if (s.coin()) t += "." + std::string(s.draw(400) * s.draw(2), '0') + digits(s, 1 + s.draw(60), false);
            if (s.coin()) { t += s.coin() ? 'e' : 'E'; t += s.pick({std::string(), std::string("-"), std::string("+")}); t += std::to_string(s.draw(400)); }
            break;
        }
        case 5: { // large exponents
            t = s.coin() ? "0" : digits(s, 1 + s.draw(3)); if (s.coin()) t += "." + digits(s, 1 + s.draw(3), false);
            t += s.coin() ? 'e' : 'E'; t += s.pick({std::string(), std::string("-"), std::string("+")}); t += s.coin() ? std::to_string(s.bits()) : std::string(s.draw(30), '0') + std::to_string(s.draw(400)); break;
        }
        case 6: { std::size_t const z = s.draw(350); t = "0." + std::string(z, '0') + digits(s, 1 + s.draw(20), false); if (s.coin()) t += "e" + std::to_string(i64(z) + s.range(-5, 5)); break; }
        default: { std::size_t const z = s.draw(350); t = digits(s, 1 + s.draw(20)) + std::string(z, '0'); if (s.coin()) t += "e-" + std::to_string(u64(std::max<i64>(0, i64(z) + s.range(-5, 5)))); }
    }
    if (s.chance(1, 3) && t[0] != '-') t = "-" + t;
    return t;
}
template <class T> static void reals(Src& s) {
    std::string const n = notation<T>(s); CHECK(n.size() < 4000, "harness", "too long");
    T const v = convert<T>(n); bool const good = jref::in_range(v, n);
    switch (s.draw(3)) {
        case 0: expect<JX>(s, n, good, v, &eqf<T>); break;
        case 1: expect<JS>(s, n, good, v, &eqf<T>); break;
        default: expect<JN>(s, n, good, v, &eqf<T>); break;
    }
    s.nontrivial();
}
// written numbers
template <class T, int P> static void precise(Src& s, T v) {
    std::string t; auto const r = io::write<JX>(t, v, np::fp_precision::set<P>());
    CHECK(r.ok, "write", io::msg(r)); jref::J j; CHECK(jref::parse(t, j) && j.k == jref::J::number, "grammar", "not a JSON number: ", quote(t));
    std::string const w = print("%.*Lg", P, v); CHECK(jref::same_bits(convert<T>(t), convert<T>(w)), "precision", quote(t), " is written, expected the value of ", quote(w));
    s.label("precision");
}
template <class T> static void written(Src& s) {
    T const v = s.chance(1, 8) ? s.pick({std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), T(-0.0)}) : s.coin() ? value<T>(s) : -value<T>(s);
    if (std::isfinite(v)) switch (s.draw(9)) { case 6: return precise<T, std::numeric_limits<T>::max_digits10 + 1>(s, v); case 7: return precise<T, 25>(s, v); case 8: return precise<T, 80>(s, v); case 0: return precise<T, 1>(s, v); case 1: return precise<T, 3>(s, v); case 2: return precise<T, std::numeric_limits<T>::digits10>(s, v); default: break; }
    std::string t; auto const r = io::write<JX>(t, v); CHECK(r.ok, "write", io::msg(r));
    if (std::isfinite(v)) { jref::J j; CHECK(jref::parse(t, j) && j.k == jref::J::number, "grammar", "not a JSON number: ", quote(t)); CHECK(jref::same_bits(convert<T>(t), v), "write value", quote(t), " is written for ", shown(v)); }
    else CHECK(t == (std::isnan(v) ? std::signbit(v) ? "\"-nan\"" : "\"nan\"" : v < 0 ? "\"-inf\"" : "\"inf\""), "special", quote(t), " is written for ", shown(v));
    T u = 7; int const k = int(s.draw(3)); auto const q = read<JX>(k, u, t);
    CHECK(q.ok && q.end == long(t.size()), "reread", quote(t), " is rejected: ", io::msg(q)); CHECK(jref::same_bits(u, v), "round trip", shown(u), " after ", shown(v), " as ", quote(t));
    if (!std::isfinite(v)) { std::string w; io::write<JN>(w, v); CHECK(w == (std::isnan(v) ? std::signbit(v) ? "-NaN" : "NaN" : v < 0 ? "-Infinity" : "Infinity"), "special", quote(w), " is written for ", shown(v)); T x = 7; auto const y = read<JN>(k, x, w); CHECK(y.ok && y.end == long(w.size()) && jref::same_bits(x, v), "special", quote(w), " is read as ", shown(x)); }
    s.show(t); s.nontrivial(); s.label("written");
}
// overlong numbers: an error, never another value
template <class T, int N> static void overlong(Src& s) {
    std::string n;
    if constexpr (std::is_integral_v<T>) n = shown(T(s.bits())); else { n = notation<T>(s); if (n.size() > 300) n = "0.1"; }
    if constexpr (std::is_integral_v<T>) if (std::is_unsigned_v<T> && n[0] == '-') return;
    T const v = [&] { if constexpr (std::is_integral_v<T>) return T(n[0] == '-' ? T(std::strtoll(n.c_str(), nullptr, 10)) : T(std::strtoull(n.c_str(), nullptr, 10))); else return convert<T>(n); }();
    bool good = true; if constexpr (!std::is_integral_v<T>) good = jref::in_range(v, n);
    std::string const x = n + s.pick(SUF); T t = T(77); bool const f = s.coin();
    io::R const r = f ? io::read_fwd<JX>(t, x, np::num_len_max::set<N>()) : io::read_in<JX>(t, x, np::num_len_max::set<N>());
    if (r.ok) CHECK(n.size() < N && good && (std::is_integral_v<T> ? t == v : jref::same_bits(t, v)), "overlong", shown(t), " is read from ", quote(x), " with at most ", N, " characters");
    else { CHECK(n.size() >= N || !good, "short", "rejected: ", io::msg(r), " in ", quote(x), " with at most ", N, " characters"); if (n.size() >= N) CHECK(r.ec == cxon::json::read_error::overflow, "overflow", io::msg(r), " for ", quote(x), " with at most ", N, " characters"); }
    s.nontrivial(n.size() + 1 >= N); s.label(n.size() >= N ? "overlong" : "not overlong"); s.show(n);
}
// the grammar, strictly
template <class T> static void grammar(Src& s) {
    static const char* const K[] = {"0", "1", "7", "12", "-", "+", ".", "e", "E", "0", "00", "e5", ".5", "E+", "e-", " ", "x", "\"", "9", "30"};
    std::string x; for (u64 n = 1 + s.draw(7); n--; ) x += s.pick(K);
    std::string n; std::size_t len = 0; bool ok = false;
    { // the longest JSON number (an integer) that is a prefix, leading whitespace allowed
        std::size_t i = 0; while (i < x.size() && x[i] == ' ') ++i;
        std::size_t const o = i; auto dig = [&](std::size_t p) { return p < x.size() && x[p] >= '0' && x[p] <= '9'; };
        std::size_t p = o; bool const neg = p < x.size() && x[p] == '-'; if (neg) ++p;
        if (dig(p) && !(neg && std::is_unsigned_v<T>)) {
            ok = true; if (x[p] == '0') ++p; else while (dig(p)) ++p;
            if constexpr (!std::is_integral_v<T>) {
                if (p < x.size() && x[p] == '.') { ++p; ok = dig(p); while (dig(p)) ++p; }
                if (ok && p < x.size() && (x[p] == 'e' || x[p] == 'E')) { ++p; if (p < x.size() && (x[p] == '-' || x[p] == '+')) ++p; ok = dig(p); while (dig(p)) ++p; }
            }
            len = p; n = x.substr(o, p - o);
        }
    }
    T v{}; if (ok) { if constexpr (std::is_integral_v<T>) { i128 w = 0; for (char c : n) if (c != '-' && w < i128(1) << 100) w = w * 10 + (c - '0'); if (n[0] == '-') w = -w; ok = w >= i128(std::numeric_limits<T>::min()) && w <= i128(std::numeric_limits<T>::max()); v = T(w); } else { v = convert<T>(n); ok = jref::in_range(v, n); } }
    T t = T(77); int const k = int(s.draw(3)); auto const r = read<JS>(k, t, x);
    if (ok) {
        CHECK(r.ok, "reject", "rejected: ", io::msg(r), " in ", quote(x), " (way ", k, ")");
        CHECK(r.end == long(len), "end", "ends at ", r.end, " expected ", len, " in ", quote(x), " (way ", k, ")");
        CHECK(std::is_integral_v<T> ? t == v : jref::same_bits(t, v), "value", shown(t), " is read, expected ", shown(v), " from ", quote(x), " (way ", k, ")");
    }
    else CHECK(!r.ok, "accept", "accepted as ", shown(t), ": ", quote(x), " (way ", k, ")");
    s.show(x); s.nontrivial(x.size() > 1); s.label(ok ? "grammar: a number" : "grammar: not a number");
}

template <class T> static void pi(Src& s) { switch (s.draw(6)) { case 0: return grammar<T>(s); case 1: return s.coin() ? overlong<T, 4>(s) : overlong<T, 20>(s); default: return ints<T>(s); } }
template <class T> static void pf(Src& s) { switch (s.draw(6)) { case 0: return grammar<T>(s); case 1: return s.coin() ? overlong<T, 8>(s) : overlong<T, 64>(s); case 2: case 3: return written<T>(s); default: return reals<T>(s); } }
template <class T> static void pl(Src& s) { return written<T>(s); }
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define I(...) static Reg CAT(r_, __COUNTER__)(#__VA_ARGS__, &pi<__VA_ARGS__>);
#define F(...) static Reg CAT(r_, __COUNTER__)(#__VA_ARGS__, &pf<__VA_ARGS__>, 4);
I(signed char) I(unsigned char) I(short) I(unsigned short) I(int) I(unsigned) I(long) I(unsigned long) I(long long) I(unsigned long long)
F(float) F(double)
static Reg ld("long double", &pl<long double>, 2);
