// Reference JSON: value model, strict RFC 8259 (prefix) parser, randomized renderer, document generator, mutator.
#pragma once
#include "uni.hpp"
#include <cstdlib>
#include <cmath>
#include <limits>
#include <algorithm>
#include <functional>

namespace jref {

using uni::U;

struct Ent;
struct J {
    enum K { null, boolean, number, string, array, object } k = null;
    bool b = false;
    std::string num;                    // the token, or the exact decimal notation
    char fk = 0; long double fv = 0;    // 'f', 'd', 'l': the number is the rounded value fv of that type
    U s; bool opaque = false;           // opaque strings: any text
    std::vector<J> a;
    std::vector<Ent> o; std::vector<char> okey; // okey[i] != 0: the key is opaque ('*'), a floating-point key ('f', 'd') or not text ('#')
    J(); J(const J&); J(J&&) noexcept; J& operator =(const J&); J& operator =(J&&) noexcept; ~J();
    static J N(); static J B(bool b); static J I(std::string t); static J F(char k, long double v); static J S(U u); static J A(); static J O();
    template <class T> static J Int(T v) { return I(std::to_string(v)); }
    void add(U k, J v, char ok = 0);
};
struct Ent { U first; J second; };
inline J::J() = default; inline J::J(const J&) = default; inline J::J(J&&) noexcept = default; inline J& J::operator =(const J&) = default; inline J& J::operator =(J&&) noexcept = default; inline J::~J() = default;
inline J J::N() { return J(); }
inline J J::B(bool b) { J j; j.k = boolean; j.b = b; return j; }
inline J J::I(std::string t) { J j; j.k = number; j.num = std::move(t); return j; }
inline J J::F(char k, long double v) { J j; j.k = number; j.fk = k; j.fv = v; return j; }
inline J J::S(U u) { J j; j.k = string; j.s = std::move(u); return j; }
inline J J::A() { J j; j.k = array; return j; }
inline J J::O() { J j; j.k = object; return j; }
inline void J::add(U k, J v, char ok) { o.push_back(Ent{std::move(k), std::move(v)}); okey.push_back(ok); }

template <class T> inline bool same_bits(T a, T b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
inline long double round_to(char k, const std::string& t) {
    return k == 'f' ? (long double)std::strtof(t.c_str(), nullptr) : k == 'd' ? (long double)std::strtod(t.c_str(), nullptr) : std::strtold(t.c_str(), nullptr);
}

// strict parser -------------------------------------------------------------------------------------------------
struct Parser {
    const char *b, *i, *e; const char* err = nullptr; int depth = 0, maxdepth = 0;
    Parser(const char* b, const char* e) : b(b), i(b), e(e) {}
    bool bad(const char* m) { if (!err) err = m; return false; }
    void ws() { while (i != e && (*i == ' ' || *i == '\t' || *i == '\n' || *i == '\r')) ++i; }
    bool dig() const { return i != e && *i >= '0' && *i <= '9'; }
    bool lit(const char* l) { std::size_t n = std::strlen(l); if (std::size_t(e - i) < n || std::memcmp(i, l, n) != 0) return bad("literal"); i += n; return true; }
    bool num(std::string& t) {
        const char* o = i;
        if (i != e && *i == '-') ++i;
        if (!dig()) return bad("number");
        if (*i == '0') ++i; else while (dig()) ++i;
        if (i != e && *i == '.') { ++i; if (!dig()) return bad("fraction"); while (dig()) ++i; }
        if (i != e && (*i == 'e' || *i == 'E')) { ++i; if (i != e && (*i == '+' || *i == '-')) ++i; if (!dig()) return bad("exponent"); while (dig()) ++i; }
        t.assign(o, i); return true;
    }
    bool hex4(char32_t& c) {
        if (e - i < 4) return bad("\\u");
        c = 0;
        for (int n = 0; n < 4; ++n, ++i) {
            char const h = *i; c <<= 4;
            if (h >= '0' && h <= '9') c |= char32_t(h - '0'); else if (h >= 'a' && h <= 'f') c |= char32_t(h - 'a' + 10); else if (h >= 'A' && h <= 'F') c |= char32_t(h - 'A' + 10); else return bad("\\u");
        }
        return true;
    }
    bool str(U& u) {
        if (i == e || *i != '"') return bad("string");
        ++i; u.clear();
        for (;;) {
            if (i == e) return bad("unterminated string");
            unsigned char c = (unsigned char)*i;
            if (c == '"') { ++i; return true; }
            if (c < 0x20) return bad("control character");
            if (c == '\\') {
                if (++i == e) return bad("escape");
                switch (*i++) {
                    case '"': u += U'"'; break; case '\\': u += U'\\'; break; case '/': u += U'/'; break; case 'b': u += U'\b'; break; case 'f': u += U'\f'; break;
                    case 'n': u += U'\n'; break; case 'r': u += U'\r'; break; case 't': u += U'\t'; break;
                    case 'u': {
                        char32_t h; if (!hex4(h)) return false;
                        if (h >= 0xDC00 && h <= 0xDFFF) return bad("lone surrogate");
                        if (h >= 0xD800 && h <= 0xDBFF) {
                            if (e - i < 2 || i[0] != '\\' || i[1] != 'u') return bad("lone surrogate");
                            i += 2; char32_t l; if (!hex4(l)) return false;
                            if (l < 0xDC00 || l > 0xDFFF) return bad("lone surrogate");
                            h = 0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00);
                        }
                        u += h; break;
                    }
                    default: return bad("escape");
                }
                continue;
            }
            char32_t cp; int n = uni::get8(i, e, cp); if (!n) return bad("utf-8");
            u += cp, i += n;
        }
    }
    bool val(J& j) {
        ws();
        if (i == e) return bad("end");
        switch (*i) {
            case 'n': j.k = J::null; return lit("null");
            case 't': j.k = J::boolean; j.b = true; return lit("true");
            case 'f': j.k = J::boolean; j.b = false; return lit("false");
            case '"': j.k = J::string; return str(j.s);
            case '[': {
                struct D { int& d; ~D() { --d; } } d{++depth, }; if (depth > maxdepth) maxdepth = depth;
                j.k = J::array; ++i; ws();
                if (i != e && *i == ']') { ++i; return true; }
                for (;;) {
                    j.a.emplace_back(); if (!val(j.a.back())) return false;
                    ws(); if (i == e) return bad("end");
                    if (*i == ']') { ++i; return true; }
                    if (*i != ',') return bad("separator"); ++i;
                }
            }
            case '{': {
                struct D { int& d; ~D() { --d; } } d{++depth, }; if (depth > maxdepth) maxdepth = depth;
                j.k = J::object; ++i; ws();
                if (i != e && *i == '}') { ++i; return true; }
                for (;;) {
                    ws(); U k; if (!str(k)) return false;
                    ws(); if (i == e || *i != ':') return bad("colon"); ++i;
                    j.add(k, {}); if (!val(j.o.back().second)) return false;
                    ws(); if (i == e) return bad("end");
                    if (*i == '}') { ++i; return true; }
                    if (*i != ',') return bad("separator"); ++i;
                }
            }
            default: j.k = J::number; return num(j.num);
        }
    }
};
inline bool parse_prefix(const std::string& t, J& j, std::size_t& end, const char** err = nullptr, std::size_t* at = nullptr, int* depth = nullptr) {
    Parser p(t.data(), t.data() + t.size());
    bool const r = p.val(j); end = std::size_t(p.i - p.b);
    if (err) *err = p.err; if (at) *at = std::size_t(p.i - p.b); if (depth) *depth = p.maxdepth;
    return r;
}
inline bool parse(const std::string& t, J& j, const char** err = nullptr) {
    Parser p(t.data(), t.data() + t.size());
    bool const r = p.val(j) && (p.ws(), p.i == p.e || p.bad("trailing text"));
    if (err) *err = p.err;
    return r;
}
inline bool compact(const std::string& t) { // no whitespace outside of strings
    bool q = false;
    for (std::size_t i = 0; i < t.size(); ++i) {
        if (q) { if (t[i] == '\\') ++i; else if (t[i] == '"') q = false; }
        else if (t[i] == '"') q = true;
        else if (t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\r') return false;
    }
    return true;
}

// expected model vs parsed document -------------------------------------------------------------------------------
inline bool match(const J& x, const J& g, std::string& why) {
    if (x.k != g.k) return why = cat("kind ", int(x.k), " != ", int(g.k)), false;
    switch (x.k) {
        case J::null: return true;
        case J::boolean: return x.b == g.b || (why = "boolean", false);
        case J::number:
            if (x.fk) return same_bits(x.fv, round_to(x.fk, g.num)) || (why = "real " + g.num + cat(" expected ", x.fv), false);
            return x.num == g.num || (why = "integer " + g.num + " expected " + x.num, false);
        case J::string: return x.opaque || x.s == g.s || (why = "string " + quote(uni::to8(g.s)) + " expected " + quote(uni::to8(x.s)), false);
        case J::array:
            if (x.a.size() != g.a.size()) return why = cat("array size ", g.a.size(), " expected ", x.a.size()), false;
            for (std::size_t i = 0; i < x.a.size(); ++i) if (!match(x.a[i], g.a[i], why)) return false;
            return true;
        case J::object:
            if (x.o.size() != g.o.size()) return why = cat("object size ", g.o.size(), " expected ", x.o.size()), false;
            for (std::size_t i = 0; i < x.o.size(); ++i) {
                if (x.okey[i] == 'f' || x.okey[i] == 'd') { if (!same_bits(round_to(x.okey[i], uni::to8(x.o[i].first)), round_to(x.okey[i], uni::to8(g.o[i].first)))) return why = "real key", false; }
                else if (x.okey[i] != '*' && x.o[i].first != g.o[i].first) return why = "key " + quote(uni::to8(g.o[i].first)) + " expected " + quote(uni::to8(x.o[i].first)), false;
                if (!match(x.o[i].second, g.o[i].second, why)) return false;
            }
            return true;
    }
    return false;
}

// rendering -----------------------------------------------------------------------------------------------------
struct Style {
    bool ws = true, esc = true;     // random whitespace, random escapes
    unsigned maxnum = 60;           // longest notation of a real number
    bool shuffle = false;           // any member order
    bool kesc = true;               // escapes in keys
};
inline void ws(std::string& t, Src& s, const Style& st) { if (st.ws && s.chance(1, 4)) for (std::size_t n = s.draw(4); n--; ) t += " \t\n\r"[s.draw(4)]; }
inline void esc16(std::string& t, unsigned c, Src& s) {
    char b[8]; std::snprintf(b, 8, s.coin() ? "\\u%04X" : "\\u%04x", c);
    for (int i = 2; b[i]; ++i) if (s.coin()) b[i] = char(b[i] >= 'a' && b[i] <= 'f' ? b[i] - 32 : b[i]);
    t += b;
}
inline void str(std::string& t, const U& u, Src& s, const Style& st) {
    t += '"';
    bool const all = st.esc && s.chance(1, 8), some = st.esc && s.coin();
    for (char32_t c : u) {
        bool const must = c < 0x20 || c == '"' || c == '\\';
        if (must || all || (some && s.chance(1, 4))) {
            char const* sh = nullptr;
            switch (c) { case '"': sh = "\\\""; break; case '\\': sh = "\\\\"; break; case '/': sh = "\\/"; break; case 8: sh = "\\b"; break; case 12: sh = "\\f"; break; case 10: sh = "\\n"; break; case 13: sh = "\\r"; break; case 9: sh = "\\t"; break; default: break; }
            if (sh && (!st.esc || s.coin())) t += sh;
            else if (c < 0x10000) esc16(t, unsigned(c), s);
            else esc16(t, unsigned(0xD800 + ((c - 0x10000) >> 10)), s), esc16(t, unsigned(0xDC00 + ((c - 0x10000) & 0x3FF)), s);
        }
        else uni::put8(t, c);
    }
    t += '"';
}
// any decimal notation that rounds to the value
inline std::string real(char k, long double v, Src& s, unsigned maxlen) {
    if (v != v || std::isinf(v)) return v != v ? "\"nan\"" : v < 0 ? "\"-inf\"" : "\"inf\"";
    int const dig = k == 'f' ? 9 : k == 'd' ? 17 : 21;
    char b[200];
    for (int tries = 0; tries < 4; ++tries) {
        int const p = dig - 1 + int(s.draw(tries == 3 ? 1 : 24));
        int n;
        switch (s.draw(4)) {
            case 0: n = std::snprintf(b, sizeof b, "%.*Lg", p + 1, v); break;
            case 1: n = std::snprintf(b, sizeof b, "%.*Le", p, v); break;
            case 2: n = std::snprintf(b, sizeof b, "%.*LE", p, v); break;
            default: n = std::fabs(v) < 1e15L && (v == 0 || std::fabs(v) > 1e-5L) ? std::snprintf(b, sizeof b, "%.*Lf", std::min(p + 6, 40), v) : std::snprintf(b, sizeof b, "%.*Le", p, v);
        }
        std::string t = b;
        if (n < 0 || t.size() > maxlen || !same_bits(v, round_to(k, t))) continue;
        // vary the exponent
        std::size_t x = t.find_first_of("eE");
        if (x != std::string::npos) {
            if (t[x + 1] == '+' && s.coin()) t.erase(x + 1, 1);
            else if (s.chance(1, 3) && t.size() + 2 < maxlen) t.insert(x + 1 + (t[x + 1] == '-' || t[x + 1] == '+'), "0");
        }
        else if (s.chance(1, 4) && t.size() + 3 <= maxlen) t += s.coin() ? "e0" : "E-0";
        return t;
    }
    std::snprintf(b, sizeof b, "%.*Le", dig - 1, v);
    return b;
}
inline void render(std::string& t, const J& j, Src& s, const Style& st) {
    switch (j.k) {
        case J::null: t += "null"; break;
        case J::boolean: t += j.b ? "true" : "false"; break;
        case J::number: t += j.fk ? real(j.fk, j.fv, s, st.maxnum) : j.num; break;
        case J::string: { Style ks = st; if (j.fk) ks.esc = false; str(t, j.s, s, ks); break; } // fk: not text
        case J::array: {
            t += '['; ws(t, s, st); bool c = false;
            for (auto& x : j.a) { if (c) t += ',', ws(t, s, st); c = true; render(t, x, s, st); ws(t, s, st); }
            t += ']'; break;
        }
        case J::object: {
            std::vector<std::size_t> ix(j.o.size()); for (std::size_t i = 0; i < ix.size(); ++i) ix[i] = i;
            if (st.shuffle) for (std::size_t i = ix.size(); i > 1; --i) std::swap(ix[i - 1], ix[s.draw(i)]);
            t += '{'; ws(t, s, st); bool c = false;
            for (auto i : ix) {
                if (c) t += ',', ws(t, s, st); c = true;
                { Style ks = st; if (j.okey[i] || !st.kesc) ks.esc = false; str(t, j.o[i].first, s, ks); } ws(t, s, st); t += ':'; ws(t, s, st); render(t, j.o[i].second, s, st); ws(t, s, st);
            }
            t += '}'; break;
        }
    }
}
inline std::string render(const J& j, Src& s, const Style& st = {}) { std::string t; ws(t, s, st); render(t, j, s, st); return t; }
inline void plain(std::string& t, const J& j) {
    switch (j.k) {
        case J::null: t += "null"; break;
        case J::boolean: t += j.b ? "true" : "false"; break;
        case J::number: { if (!j.fk) { t += j.num; break; } char b[80]; std::snprintf(b, 80, "%.*Lg", j.fk == 'f' ? 9 : j.fk == 'd' ? 17 : 21, j.fv); t += b; break; }
        case J::string: case J::array: case J::object: {
            auto q = [&](const U& u) { t += '"'; for (char32_t c : u) { if (c == '"' || c == '\\') t += '\\', t += char(c); else if (c < 0x20) { char b[8]; std::snprintf(b, 8, "\\u%04x", unsigned(c)); t += b; } else uni::put8(t, c); } t += '"'; };
            if (j.k == J::string) { q(j.s); break; }
            bool c = false;
            if (j.k == J::array) { t += '['; for (auto& x : j.a) { if (c) t += ','; c = true; plain(t, x); } t += ']'; }
            else { t += '{'; for (auto& x : j.o) { if (c) t += ','; c = true; q(x.first); t += ':'; plain(t, x.second); } t += '}'; }
        }
    }
}
inline std::string plain(const J& j) { std::string t; plain(t, j); return t; }

// documents -----------------------------------------------------------------------------------------------------
// are there tokens like numbers that are not JSON numbers (typed numbers are not strict by default)
inline bool lax_numbers(const std::string& t) {
    bool q = false;
    for (std::size_t i = 0; i < t.size(); ) {
        char const c = t[i];
        if (q) { if (c == '\\') ++i; else if (c == '"') q = false; ++i; continue; }
        if (c == '"') { q = true; ++i; continue; }
        if (!std::strchr("0123456789+-.", c) || !c) { ++i; continue; }
        std::size_t n = i; while (n < t.size() && t[n] && std::strchr("0123456789+-.eEinfaty", t[n])) ++n;
        J g; std::size_t m; if (!parse_prefix(t.substr(i, n - i), g, m) || m != n - i) return true;
        i = n;
    }
    return false;
}
inline std::string gen_num(Src& s) {
    std::string t;
    auto digits = [&](std::size_t n) { std::string d; for (std::size_t i = 0; i < n; ++i) d += char('0' + s.draw(10)); return d; };
    switch (s.draw(10)) {
        case 0: case 1: return std::to_string(int(s.draw(20)));
        case 2: return std::to_string((long long)s.bits());
        case 3: return std::to_string((unsigned long long)s.bits());
        case 4: { // around the limits of 64 bits
            static const char* L[] = {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "-0", "0", "99999999999999999999",
                "9223372036854775806", "-9223372036854775807", "18446744073709551614", "18446744073709551610", "18446744073709551620", "9007199254740993", "1844674407370955161", "-922337203685477580", "10000000000000000000", "-1", "9999999999999999999"};
            return s.pick(L);
        }
        case 5: { if (s.coin()) t += '-'; t += s.coin() ? "0" : char('1' + s.draw(9)) + digits(s.draw(5)); t += '.' + digits(1 + s.draw(5)); return t; }
        case 6: { double d; u64 b = s.draw(0); std::memcpy(&d, &b, 8); if (!(d == d) || std::isinf(d)) d = 0.1; char x[40]; std::snprintf(x, 40, "%.*g", int(s.range(1, 17)), d); t = x; std::size_t p; if ((p = t.find("inf")) != std::string::npos) t = "1e300"; return t; }
        case 7: { if (s.coin()) t += '-'; t += char('1' + s.draw(9)) + digits(s.draw(30)); if (s.coin()) t += '.' + digits(1 + s.draw(10)); return t; }
        default: {
            if (s.coin()) t += '-';
            t += s.coin() ? "0" : char('1' + s.draw(9)) + digits(s.draw(3));
            if (s.coin()) t += '.' + digits(1 + s.draw(4));
            if (s.coin()) { t += s.coin() ? 'e' : 'E'; switch (s.draw(3)) { case 0: t += '-'; break; case 1: t += '+'; break; default: break; } t += s.coin() ? std::to_string(s.draw(290)) : digits(1 + s.draw(2)); }
            return t;
        }
    }
}
// is the notation t, converted to v, in the range of the type of v: neither infinite nor zero unless it denotes zero
template <class T> inline bool in_range(T v, const std::string& t) {
    if (std::isinf(v)) return false;
    if (v != 0) return true;
    for (char c : t) { if (c == 'e' || c == 'E') break; if (c >= '1' && c <= '9') return false; }
    return true;
}
inline bool finite_double(const std::string& t) { double d = std::strtod(t.c_str(), nullptr); if (std::isinf(d)) return false; if (d != 0) return true; for (char c : t) { if (c == 'e' || c == 'E') break; if (c >= '1' && c <= '9') return false; } return true; }
inline J gen_doc(Src& s, int depth = 5, bool unique = true) {
    unsigned const k = unsigned(s.draw(depth > 0 && s.budget > 0 ? 10 : 5));
    switch (k) {
        case 0: return J::N();
        case 1: return J::B(s.coin());
        case 2: { std::string n = gen_num(s); return J::I(finite_double(n) ? n : "1"); }
        case 3: case 4: return J::S(uni::gen(s));
        case 5: case 6: case 7: { J j = J::A(); for (std::size_t n = s.len(); n--; ) j.a.push_back(gen_doc(s, depth - 1, unique)); return j; }
        default: {
            J j = J::O();
            for (std::size_t n = s.len(); n--; ) {
                U key = uni::gen(s, 4); bool dup = false;
                for (auto& x : j.o) dup = dup || x.first == key;
                if (!dup || !unique) j.add(key, gen_doc(s, depth - 1, unique));
            }
            return j;
        }
    }
}

// mutation of texts -----------------------------------------------------------------------------------------------
inline std::string mutate(std::string t, Src& s, int times = 1) {
    static const char* tok[] = {"{", "}", "[", "]", ",", ":", "\"", "\\", "null", "true", "false", "nul", "0", "-", "1", ".", "e", "E5", "+", " ", "\t", "\n", "1.", ".5", "01", "--", "1e", "1e+", "\\u", "\\u12", "\\uD800", "\\uDC00", "\\uD83C\\uDF4C", "\\x", "/", "//", "/*", "*/", "'", "=", ";",
        "\"a\"", "\"\":", "[]", "{}", "[1]", "{\"a\":1}", "NaN", "Infinity", "-Infinity", "inf", "nan", "\xC3\xA9", "\xE2\x80\xA8", "\xF0\x9F\x8D\x8C", "\xC0\x80", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xFF", "\x80", "\xEF\xBB\xBF", "\x1F", "\x7F", "99999999999999999999999999999999999999", "1e999", "-0", "0x1", "\f", "\v"};
    for (int n = 0; n < times; ++n) {
        std::size_t const p = s.below(t.size() + 1);
        switch (s.draw(9)) {
            case 0: t.resize(p); break;                                                             // truncate
            case 1: if (p < t.size()) t.erase(p, 1); break;                                         // delete
            case 2: if (p < t.size()) t.erase(p, 1 + s.below(5)); break;
            case 3: t.insert(p, s.pick(tok)); break;                                                // insert a token
            case 4: if (p < t.size()) t[p] = char(s.draw(256)); break;                              // replace
            case 5: if (p < t.size()) t.replace(p, 1, s.pick(tok)); break;
            case 6: if (p < t.size()) { std::size_t l = 1 + s.below(6); t.insert(p, t.substr(p, l)); } break; // duplicate
            case 7: if (p < t.size()) t[p] = char(t[p] ^ (1 << s.draw(8))); break;                  // flip a bit
            default: { std::size_t q = s.below(t.size() + 1); if (p < t.size() && q < t.size()) std::swap(t[p], t[q]); }
        }
    }
    return t;
}

} // jref
