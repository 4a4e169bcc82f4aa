// Reference CBOR (RFC 7049): item model, shortest and randomized lawful encoders, strict prefix decoder, generator, mutator.
#pragma once
#include "uni.hpp"
#include <cmath>
#include <cstdlib>
#include <limits>
#include <algorithm>

namespace cref {

using uni::U;
using Bytes = std::string;

struct C {
    enum K { uint, nint, bytes, text, array, map, tag, simple, flt } k = uint;
    u64 n = 0;                  // value, -1 - value, tag number, simple value
    Bytes s;
    std::vector<C> a;           // elements; key, value, key, value...; tagged item
    double d = 0; int w = 0;    // floating point and its width (2, 4, 8)
    static C I(long long v) { C c; if (v < 0) c.k = nint, c.n = u64(-1 - v); else c.n = u64(v); return c; }
    static C Un(u64 v) { C c; c.n = v; return c; }
    static C B(Bytes b) { C c; c.k = bytes; c.s = std::move(b); return c; }
    static C T(Bytes b) { C c; c.k = text; c.s = std::move(b); return c; }
    static C A() { C c; c.k = array; return c; }
    static C M() { C c; c.k = map; return c; }
    static C S(unsigned v) { C c; c.k = simple; c.n = v; return c; }
    static C Bool(bool b) { return S(b ? 21 : 20); }
    static C F(double d, int w) { C c; c.k = flt; c.d = d; c.w = w; return c; }
    static C Tag(u64 n, C x) { C c; c.k = tag; c.n = n; c.a.push_back(std::move(x)); return c; }
};

inline bool same_f(double a, double b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
inline bool same(const C& x, const C& y, bool width = true) {
    if (x.k != y.k) return false;
    if (x.k == C::flt) return same_f(x.d, y.d) && (!width || x.w == y.w);
    if (x.n != y.n || x.s != y.s || x.a.size() != y.a.size()) return false;
    for (std::size_t i = 0; i < x.a.size(); ++i) if (!same(x.a[i], y.a[i], width)) return false;
    return true;
}
inline std::string diag(const C& c, int depth = 8) { // diagnostic notation
    if (depth == 0) return "..";
    switch (c.k) {
        case C::uint: return std::to_string(c.n);
        case C::nint: return "-1-" + std::to_string(c.n);
        case C::bytes: return "h'" + hex(c.s) + "'";
        case C::text: return quote(c.s, 80);
        case C::tag: return std::to_string(c.n) + "(" + diag(c.a[0], depth - 1) + ")";
        case C::simple: return c.n == 20 ? "false" : c.n == 21 ? "true" : c.n == 22 ? "null" : c.n == 23 ? "undefined" : "simple(" + std::to_string(c.n) + ")";
        case C::flt: return cat(c.d, "_", c.w);
        default: {
            std::string t = c.k == C::array ? "[" : "{";
            for (std::size_t i = 0; i < c.a.size() && t.size() < 400; ++i) t += (i ? c.k == C::map && i % 2 ? ": " : ", " : "") + diag(c.a[i], depth - 1);
            return t + (c.k == C::array ? "]" : "}");
        }
    }
}

// binary16
inline double half(unsigned h) { // RFC 7049, appendix D
    int const e = (h >> 10) & 0x1f, m = h & 0x3ff;
    double v = e == 0 ? std::ldexp(m, -24) : e != 31 ? std::ldexp(m + 1024, e - 25) : m == 0 ? std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN();
    return h & 0x8000 ? -v : v;
}
inline bool to_half(double d, unsigned& h) { // exact only
    unsigned const sign = std::signbit(d) ? 0x8000 : 0;
    if (d != d) return h = 0x7e00, true;
    double const a = std::fabs(d);
    if (std::isinf(a)) return h = sign | 0x7c00, true;
    if (a == 0) return h = sign, true;
    int e; std::frexp(a, &e);                               // a = f * 2^e, 0.5 <= f < 1
    if (e > 16) return false;
    int const x = std::max(e - 1, -14);                     // exponent of the leading (or of the subnormal) bit
    double const m = std::ldexp(a, 10 - x);                 // integer if exact
    if (m != std::floor(m) || m >= 2048) return false;
    unsigned const mi = unsigned(m);
    h = sign | (mi >= 1024 ? unsigned(x + 15) << 10 | (mi - 1024) : mi);
    return true;
}

// encoding ------------------------------------------------------------------------------------------------------
inline int least_width(u64 n) { return n < 24 ? 0 : n < 0x100 ? 1 : n < 0x10000 ? 2 : n < 0x100000000ull ? 4 : 8; }
inline void be(Bytes& o, u64 n, int w) { for (int i = w; i-- > 0; ) o += char(n >> (8 * i)); }
inline void head(Bytes& o, int major, u64 n, int w) {
    int const ai = w == 0 ? int(n) : w == 1 ? 24 : w == 2 ? 25 : w == 4 ? 26 : 27;
    o += char(major << 5 | ai); be(o, n, w);
}
inline void head(Bytes& o, int major, u64 n) { head(o, major, n, least_width(n)); }
inline void put_f(Bytes& o, double d, int w) {
    if (w == 2) { unsigned h = 0; to_half(d, h); o += char(0xF9); be(o, h, 2); }
    else if (w == 4) { float const f = float(d); std::uint32_t b; std::memcpy(&b, &f, 4); o += char(0xFA); be(o, b, 4); }
    else { u64 b; std::memcpy(&b, &d, 8); o += char(0xFB); be(o, b, 8); }
}

struct Style {
    bool wide = true;       // heads that are not the shortest
    bool indef = true;      // indefinite lengths
    bool fpw = true;        // other exact widths of floating-point values
    unsigned tags = 12;     // 1 of n items gets a tag, 0: none
    bool shuffle = false;   // map entries in any order
};
inline void put(Bytes& o, const C& c, Src* s = nullptr, const Style& st = {}) { // without a source: shortest
    auto const wide = [&](int w) { if (s && st.wide && s->chance(1, 3)) { static const int W[] = {0, 1, 2, 4, 8}; int k = 0; while (W[k] != w) ++k; return W[k + int(s->draw(u64(5 - k)))]; } return w; };
    auto const h = [&](int major, u64 n) { head(o, major, n, wide(least_width(n))); };
    auto const str = [&](int major, const Bytes& b) {
        if (s && st.indef && s->chance(1, 4)) {
            o += char(major << 5 | 31);
            for (std::size_t p = 0; p < b.size() || s->chance(1, 4); ) {
                std::size_t l = s->below(b.size() - p + 1);
                if (major == 3) while (l > 0 && p + l < b.size() && (u8(b[p + l]) & 0xC0) == 0x80) --l; // chunks of text are text
                if (l == 0 && p < b.size() && s->coin()) { l = b.size() - p; }
                h(major, l), o.append(b, p, l), p += l;
            }
            o += char(0xFF);
        }
        else h(major, b.size()), o += b;
    };
    if (s && st.tags && s->chance(1, st.tags)) for (u64 n = 1 + s->draw(s->chance(1, 8) ? 6 : 2); n--; ) h(6, s->coin() ? s->draw(40) : s->bits());
    switch (c.k) {
        case C::uint: h(0, c.n); break;
        case C::nint: h(1, c.n); break;
        case C::bytes: str(2, c.s); break;
        case C::text: str(3, c.s); break;
        case C::array: case C::map: {
            int const major = c.k == C::array ? 4 : 5; std::size_t const step = c.k == C::array ? 1 : 2;
            bool const in = s && st.indef && s->chance(1, 3);
            if (in) o += char(major << 5 | 31); else h(major, c.a.size() / step);
            std::vector<std::size_t> ix; for (std::size_t i = 0; i < c.a.size(); i += step) ix.push_back(i);
            if (s && st.shuffle && c.k == C::map) for (std::size_t i = ix.size(); i > 1; --i) std::swap(ix[i - 1], ix[s->draw(i)]);
            for (auto i : ix) for (std::size_t j = 0; j < step; ++j) put(o, c.a[i + j], s, st);
            if (in) o += char(0xFF);
            break;
        }
        case C::tag: h(6, c.n); put(o, c.a[0], s, st); break;
        case C::simple: if (c.n < 24) o += char(0xE0 | c.n); else o += char(0xF8), o += char(c.n); break;
        case C::flt: {
            int w = c.w; unsigned x;
            if (s && st.fpw && s->coin()) {
                int W[3], n = 0;
                if (to_half(c.d, x)) W[n++] = 2;
                if (c.d != c.d || std::isinf(c.d) || (std::fabs(c.d) <= (double)std::numeric_limits<float>::max() && same_f(double(float(c.d)), c.d))) W[n++] = 4;
                W[n++] = 8;
                w = W[s->draw(u64(n))];
            }
            put_f(o, c.d, w);
        }
    }
}
inline Bytes shortest(const C& c) { Bytes o; put(o, c); return o; }
inline Bytes lawful(const C& c, Src& s, const Style& st = {}) { Bytes o; put(o, c, &s, st); return o; }

// strict prefix decoder ---------------------------------------------------------------------------------------------
struct Dec {
    const u8 *b, *i, *e; const char* err = nullptr; bool minimal = true, definite = true, lax = false; int maxdepth = 0; int limit;
    Dec(const Bytes& t, int limit = 5000) : b((const u8*)t.data()), i(b), e(b + t.size()), limit(limit) {}
    bool bad(const char* m) { if (!err) err = m; return false; }
    bool arg(int ai, u64& n) {
        if (ai < 24) return n = u64(ai), true;
        int const w = 1 << (ai - 24);
        if (e - i < w) return bad("truncated head");
        n = 0; for (int k = 0; k < w; ++k) n = n << 8 | *i++;
        if (least_width(n) != w) minimal = false;
        return true;
    }
    bool item(C& c, int depth = 1) {
        if (depth > maxdepth) maxdepth = depth;
        if (depth > limit) return bad("depth");
        if (i == e) return bad("end");
        int const h = *i++, major = h >> 5, ai = h & 31; u64 n = 0;
        if (major == 7) {
            if (ai < 24) return c = C::S(unsigned(ai)), true;
            if (ai == 24) { if (i == e) return bad("end"); if (*i < 32) lax = true; return c = C::S(*i++), true; }
            if (ai > 27) return bad(ai == 31 ? "break" : "reserved");
            int const w = 1 << (ai - 24); bool const m = minimal; if (!arg(ai, n)) return false; minimal = m;
            c.k = C::flt; c.w = w; c.n = 0;
            if (w == 2) c.d = half(unsigned(n)); else if (w == 4) { std::uint32_t x = std::uint32_t(n); float f; std::memcpy(&f, &x, 4); c.d = double(f); } else std::memcpy(&c.d, &n, 8);
            return true;
        }
        if (ai > 27 && ai < 31) return bad("reserved");
        bool const in = ai == 31;
        if (in) definite = false;
        if (in && (major < 2 || major > 5)) return bad("indefinite");
        if (!in && !arg(ai, n)) return false;
        switch (major) {
            case 0: c.k = C::uint; c.n = n; return true;
            case 1: c.k = C::nint; c.n = n; return true;
            case 2: case 3:
                c.k = major == 2 ? C::bytes : C::text;
                if (!in) { if (u64(e - i) < n) return bad("truncated string"); c.s.assign((const char*)i, n); i += n; return true; }
                for (;;) {
                    if (i == e) return bad("end");
                    if (*i == 0xFF) return ++i, true;
                    if (*i >> 5 != major || (*i & 31) > 27) return bad("chunk");
                    int const x = *i++ & 31; if (!arg(x, n)) return false;
                    if (u64(e - i) < n) return bad("truncated chunk");
                    c.s.append((const char*)i, n); i += n;
                }
            case 4: case 5: {
                c.k = major == 4 ? C::array : C::map; u64 const step = major == 4 ? 1 : 2;
                if (!in) {
                    if (n > u64(e - i)) { n = u64(e - i) + 1; }
                    for (u64 k = 0; k < n * step; ++k) { c.a.emplace_back(); if (!item(c.a.back(), depth + 1)) return false; }
                    return true;
                }
                for (u64 k = 0; ; ++k) {
                    if (i == e) return bad("end");
                    if (*i == 0xFF) { if (k % step) return bad("odd map"); return ++i, true; }
                    c.a.emplace_back(); if (!item(c.a.back(), depth + 1)) return false;
                }
            }
            default: c.k = C::tag; c.n = n; c.a.emplace_back(); return item(c.a[0], depth + 1);
        }
    }
};
inline bool decode(const Bytes& t, C& c, std::size_t& end, const char** err = nullptr, bool* minimal = nullptr, bool* definite = nullptr, bool* lax = nullptr, int* depth = nullptr) {
    Dec d(t); bool const r = d.item(c);
    end = std::size_t(d.i - d.b);
    if (err) *err = d.err; if (minimal) *minimal = d.minimal; if (definite) *definite = d.definite; if (lax) *lax = d.lax; if (depth) *depth = d.maxdepth;
    return r;
}
inline const C& untag(const C& c) { const C* p = &c; while (p->k == C::tag) p = &p->a[0]; return *p; }
inline C untag_all(const C& c) { C r = untag(c); for (auto& x : r.a) x = untag_all(x); return r; }

// generator -----------------------------------------------------------------------------------------------------
inline double gen_double(Src& s) {
    static const double D[] = {0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 65504.0, 65505.0, 5.960464477539063e-8, 6.103515625e-5, 3.4028234663852886e+38, 1.1754943508222875e-38, 1.401298464324817e-45, 1.7976931348623157e+308, 4.9406564584124654e-324, 2.2250738585072014e-308,
        std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 0.1, 1e23, 9007199254740993.0, 1e-7, 123456789.0, 1e21, 1e22};
    switch (s.draw(6)) {
        case 0: return double(s.range(-20, 20));
        case 1: return s.pick(D);
        case 2: return half(unsigned(s.draw(65536)));
        case 3: { std::uint32_t b = std::uint32_t(s.draw(0)); float f; std::memcpy(&f, &b, 4); return double(f); }
        case 4: return double(i64(s.bits())) / 8;
        default: { u64 b = s.draw(0); double d; std::memcpy(&d, &b, 8); return d; }
    }
}
inline C gen(Src& s, int depth = 5, bool tags = true) {
    unsigned const k = unsigned(s.draw(depth > 0 && s.budget > 0 ? 14 : 8));
    switch (k) {
        case 0: case 1: return C::Un(s.bits());
        case 2: { C c = C::Un(s.bits()); c.k = C::nint; return c; }
        case 3: { Bytes b; for (std::size_t n = s.len(8); n--; ) b += char(s.draw(256)); return C::B(b); }
        case 4: case 5: return C::T(uni::to8(uni::gen(s)));
        case 6: switch (s.draw(5)) { case 0: return C::S(unsigned(s.draw(20))); case 1: return C::S(32 + unsigned(s.draw(224))); default: return C::S(20 + unsigned(s.draw(4))); }
        case 7: { static const int W[] = {2, 4, 8}; int const w = s.pick(W); double d = gen_double(s); unsigned h; if (w == 2 && !to_half(d, h)) d = 1.5; if (w == 4) { if (std::isfinite(d) && std::fabs(d) > 3.4e38) d = 2.5; d = double(float(d)); } return C::F(d, w); }
        case 8: case 9: case 10: { C c = C::A(); for (std::size_t n = s.len(); n--; ) c.a.push_back(gen(s, depth - 1, tags)); return c; }
        case 11: case 12: {
            C c = C::M(); std::vector<Bytes> seen;
            for (std::size_t n = s.len(); n--; ) {
                C key = s.chance(2, 3) ? C::T(uni::to8(uni::gen(s, 4))) : gen(s, std::min(depth - 1, 1), tags);
                Bytes x = shortest(key); if (std::find(seen.begin(), seen.end(), x) != seen.end()) continue;
                seen.push_back(x); c.a.push_back(std::move(key)); c.a.push_back(gen(s, depth - 1, tags));
            }
            return c;
        }
        default: return tags ? C::Tag(s.coin() ? s.draw(40) : s.bits(), gen(s, depth - 1, tags)) : C::A();
    }
}
// mutations of a model: almost right values
inline C mutate_model(C c, Src& s) {
    std::vector<C*> all; struct W { static void go(C& c, std::vector<C*>& v) { v.push_back(&c); for (auto& x : c.a) go(x, v); } }; W::go(c, all);
    C& x = *all[s.below(all.size())];
    switch (s.draw(10)) {
        case 0: { C y = gen(s, 2); x = y; break; }
        case 1: if (x.k == C::array && !x.a.empty()) x.a.erase(x.a.begin() + long(s.below(x.a.size()))); else if (x.k == C::array) x.a.push_back(gen(s, 1)); else x.n ^= 1; break;
        case 2: if (x.k == C::array) { C y = x.a.empty() || s.coin() ? gen(s, 1) : x.a[s.below(x.a.size())]; x.a.insert(x.a.begin() + long(s.below(x.a.size() + 1)), y); } else if (x.k == C::map) { C k = gen(s, 1), v = gen(s, 1); x.a.push_back(k); x.a.push_back(v); } else x = C::I(s.range(-300, 300)); break;
        case 3: if (x.k == C::uint) x.k = C::nint; else if (x.k == C::nint) x.k = C::uint; else if (x.k == C::bytes) x.k = C::text; else if (x.k == C::text) x.k = C::bytes; break;
        case 4: if (x.k == C::array && x.a.size() % 2 == 0) x.k = C::map; else if (x.k == C::map) x.k = C::array; break;
        case 5: if (x.k == C::uint || x.k == C::nint) { static const u64 N[] = {23, 24, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff}; x.n = s.pick(N); } else if (x.k == C::text || x.k == C::bytes) { if (x.s.empty() || s.coin()) x.s += char(s.draw(128)); else x.s.pop_back(); } break;
        case 6: { C y = C::A(); y.a.push_back(x); x = y; break; }
        case 7: if (x.k == C::array && x.a.size() == 1) { C y = x.a[0]; x = y; } else x = C::S(unsigned(s.draw(4)) + 20); break;
        case 8: if (x.k == C::text || x.k == C::bytes) { C y = C::A(); for (char ch : x.s) y.a.push_back(C::Un(u8(ch))); x = y; } else x = C::F(gen_double(s), 8); break;
        default: x = C::Tag(s.draw(40), C(x));
    }
    return c;
}
inline Bytes mutate(Bytes t, Src& s, int times = 1) {
    static const u8 B[] = {0x00, 0x17, 0x18, 0x19, 0x1A, 0x1B, 0x1C, 0x1F, 0x20, 0x38, 0x3B, 0x40, 0x41, 0x58, 0x5B, 0x5F, 0x60, 0x61, 0x78, 0x7B, 0x7F, 0x80, 0x81, 0x82, 0x98, 0x9B, 0x9F, 0xA0, 0xA1, 0xB8, 0xBB, 0xBF, 0xC0, 0xD8, 0xDB, 0xDC, 0xE0, 0xF4, 0xF5, 0xF6, 0xF7, 0xF8, 0xF9, 0xFA, 0xFB, 0xFC, 0xFF};
    for (int n = 0; n < times; ++n) {
        std::size_t const p = s.below(t.size() + 1);
        switch (s.draw(9)) {
            case 0: t.resize(p); break;
            case 1: if (p < t.size()) t.erase(p, 1); break;
            case 2: if (p < t.size()) t.erase(p, 1 + s.below(4)); break;
            case 3: t.insert(p, 1, char(s.pick(B))); break;
            case 4: if (p < t.size()) t[p] = char(s.pick(B)); break;
            case 5: if (p < t.size()) t[p] = char(s.draw(256)); break;
            case 6: if (p < t.size()) t[p] = char(t[p] ^ (1 << s.draw(8))); break;
            case 7: if (p < t.size()) { std::size_t l = 1 + s.below(5); t.insert(p, t.substr(p, l)); } break;
            default: { Bytes x; head(x, int(s.draw(7)), s.bits(), 8); t.insert(p, x); }
        }
    }
    return t;
}

// equal, but empty containers of bytes may be strings or arrays
inline bool like(const C& x, const C& y) {
    if (x.k == y.k && x.k == C::flt) return same(x, y);
    if (x.s.empty() && y.s.empty() && x.a.empty() && y.a.empty() && (x.k == C::array || x.k == C::bytes || x.k == C::text) && (y.k == C::array || y.k == C::bytes || y.k == C::text)) return true;
    if (x.k != y.k || x.n != y.n || x.s != y.s || x.a.size() != y.a.size()) return false;
    for (std::size_t i = 0; i < x.a.size(); ++i) if (!like(x.a[i], y.a[i])) return false;
    return true;
}

} // cref
