// J08: strings and characters of every type against reference Unicode codecs.
#include "cxon/json.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/string_view.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/vector.hxx"
#include "common/io.hpp"
#include "common/jref.hpp"
#include <map>
using uni::U; using jref::J;
using JX = cxon::JSON<>;
struct FJs : cxon::json::format_traits { static constexpr bool produce_strict_javascript = true; };
struct FQ : cxon::json::format_traits { struct string : cxon::json::format_traits::string { static constexpr char del = '\''; }; };
struct FNo : cxon::json::format_traits { static constexpr bool assume_no_escapes = true; };
struct FIn : cxon::json::format_traits { static constexpr bool validate_string_encoding = false, validate_string_escapes = false; };
using JJ = cxon::JSON<FJs>; using JQ = cxon::JSON<FQ>; using JE = cxon::JSON<FNo>; using JI = cxon::JSON<FIn>;
template <class C> using S_ = std::basic_string<C>;
static std::string points(const U& u) { std::string t; char b[16]; for (std::size_t i = 0; i < u.size() && i < 40; ++i) std::snprintf(b, 16, "%sU+%04X", i ? " " : "", unsigned(u[i])), t += b; return t + (u.size() > 40 ? ".." : ""); }
template <class C> static std::string points(const S_<C>& s) { U u; for (auto c : s) u += char32_t(std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, char16_t, char32_t>>>(c)); return points(u); }

// sequences of code points
static U text(Src& s) {
    U u;
    auto put = [&](std::size_t n, char32_t c) { while (n--) u += c; };
    switch (s.draw(7)) {
        case 0: { char32_t c = char32_t(s.draw(4352) * 256); for (unsigned i = 0; i < 256; ++i, ++c) if (uni::scalar(c)) u += c; s.label("block"); break; } // all code points, by blocks
        case 1: for (u64 n = s.draw(12); n--; ) u += uni::gen_cp(s); break;
        case 2: { std::size_t const n = s.draw(70); put(n, U'x'); u += uni::gen_cp(s); put(s.draw(40), U'y'); u += uni::gen_cp(s); put(s.draw(20), U'z'); break; } // around blocks of 16
        case 3: for (u64 n = 1 + s.draw(5); n--; ) { put(s.draw(20), U'a'); put(1 + s.draw(3), U"\"\\\n\x1f\x7f\u2028\u2029'/ "[s.draw(10)]); } break;
        case 4: { char32_t const a = uni::gen_cp(s), b = uni::gen_cp(s); for (u64 n = s.draw(40); n--; ) u += s.coin() ? a : b; break; }
        case 5: put(s.draw(300), uni::gen_cp(s)); break;
        default: { static const char32_t E[] = {0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF, 0}; for (u64 n = s.draw(24); n--; ) u += s.pick(E); }
    }
    return u;
}
template <class X, class T> static io::R read(int k, T& t, const std::string& x) { return k == 0 ? io::read<X>(t, x) : k == 1 ? io::read_fwd<X>(t, x) : io::read_in<X>(t, x); }

template <class X, class C> static void reads(Src& s, const U& u, const std::string& t, std::size_t n) { // t is the rendering and a suffix
    int const k = int(s.draw(4)); S_<C> const want = uni::to<C>(u);
    if (k == 3) { // in an array and as a key
        char const q = X::string::del; (void)q; std::string const x = "{" + t.substr(0, n) + ":[" + t.substr(0, n) + "]}";
        std::map<S_<C>, std::vector<S_<C>>> m; auto const r = io::read<X>(m, x);
        CHECK(r.ok && r.end == long(x.size()), "reject inside", "rejected: ", io::msg(r), " at ", r.end, " in ", quote(x));
        CHECK(m.size() == 1 && m.begin()->first == want && m.begin()->second.size() == 1 && m.begin()->second[0] == want, "value inside", "another text is read from ", quote(x), ": ", m.empty() ? "" : points(m.begin()->first), " expected ", points(u));
        return;
    }
    S_<C> a; auto const r = read<X>(k, a, t);
    CHECK(r.ok, "reject", "rejected: ", io::msg(r), " at ", r.end, " in ", quote(t), " (way ", k, ")");
    CHECK(r.end == long(n) || (k == 2 && r.end >= long(n)), "end", "ends at ", r.end, " expected ", n, " in ", quote(t), " (way ", k, ")");
    CHECK(a == want, "value", "another text: ", points(a), " expected ", points(want), " from ", quote(t), " (way ", k, ")");
    if (u.find(U'\0') == U::npos) {
        C* p = nullptr; auto const q = read<X>(k, p, t);
        struct D { C*& p; ~D() { ::operator delete(p); } } d{p};
        CHECK(q.ok && p && S_<C>(p) == want, "pointer", "another text through a pointer from ", quote(t), " (way ", k, "): ", io::msg(q));
    }
    if (u.size() == 1 && (sizeof(C) == 4 || u[0] <= (sizeof(C) == 2 ? 0xFFFF : 0x7F))) {
        C c = C(77); auto const q = read<X>(k, c, t);
        CHECK(q.ok && c == C(u[0]), "character", "another character from ", quote(t), ": ", io::msg(q)); s.label("character");
    }
}
template <class X, class C> static void writes(Src& s, const U& u) {
    S_<C> const v = uni::to<C>(u); std::string t, w;
    auto const r = io::write<X>(t, v); CHECK(r.ok, "write", io::msg(r));
    std::string d = t;
    if (X::string::del == '\'') { // as the same text in double quotes
        d = "\""; CHECK(t.size() >= 2 && t.front() == '\'' && t.back() == '\'', "delimiter", "no quotes: ", quote(t));
        for (std::size_t i = 1; i + 1 < t.size(); ++i) if (t[i] == '\\' && t[i + 1] == '\'') ; else if (t[i] == '\\') d += t[i], d += t[++i]; else if (t[i] == '"') d += "\\\""; else { CHECK(t[i] != '\'' || t[i - 1] == '\\', "delimiter", "a quote inside: ", quote(t)); d += t[i]; }
        d += "\"";
    }
    J g; const char* err = nullptr; CHECK(jref::parse(d, g, &err) && g.k == J::string, "grammar", "not a JSON string (", err ? err : "", "): ", quote(t));
    CHECK(g.s == u, "written", "another text is written: ", points(g.s), " expected ", points(u), ": ", quote(t));
    if (X::produce_strict_javascript) CHECK(t.find("\xE2\x80\xA8") == std::string::npos && t.find("\xE2\x80\xA9") == std::string::npos, "javascript", "a line separator: ", quote(t));
    switch (s.draw(4)) { // the other ways to the same text
        case 0: io::write<X>(w, std::basic_string_view<C>(v)); break;
        case 1: if (u.find(U'\0') == U::npos) { const C* p = v.c_str(); io::write<X>(w, p); break; } [[fallthrough]];
        case 2: if (u.size() == 1 && (sizeof(C) == 4 || u[0] <= (sizeof(C) == 2 ? 0xFFFF : 0x7F))) { io::write<X>(w, C(u[0])); break; } [[fallthrough]];
        default: { std::map<S_<C>, S_<C>> m; m[v] = v; io::write<X>(w, m); CHECK(w.size() == 2 * t.size() + 3 && w.substr(1, t.size()) == t && w.substr(t.size() + 2, t.size()) == t, "written inside", quote(w), " is written for an object of ", quote(t)); w = t; }
    }
    CHECK(w == t, "written", quote(w), " is written instead of ", quote(t));
    S_<C> a; auto const q = io::read<X>(a, t); CHECK(q.ok && q.end == long(t.size()) && a == v, "round trip", "not restored from ", quote(t), ": ", io::msg(q));
}
static std::string single(const std::string& t) { // the same string in single quotes
    std::string r = "'"; for (std::size_t i = 1; i + 1 < t.size(); ++i) if (t[i] == '\\') { if (t[i + 1] == '"') r += '"', ++i; else r += t[i], r += t[++i]; } else if (t[i] == '\'') r += "\\'"; else r += t[i];
    return r + "'";
}
static const char* const SUF[] = {"", ",", "]", "}", " ", "\"", "'", "x", "\xff", "\\"};
template <class C> static void well(Src& s) {
    U const u = text(s); s.nontrivial(!u.empty()); s.show(points(u));
    std::string t; jref::Style st; jref::str(t, u, s, st); std::size_t const n = t.size();
    switch (s.draw(8)) {
        case 0: case 1: case 2: return reads<JX, C>(s, u, t + s.pick(SUF), n);
        case 3: { std::string q = single(t); return reads<JQ, C>(s, u, q + s.pick(SUF), q.size()); }
        case 4: if (s.coin()) return reads<JI, C>(s, u, t + s.pick(SUF), n); if (t.find('\\') == std::string::npos) return reads<JE, C>(s, u, t + s.pick(SUF), n); return reads<JX, C>(s, u, t, n);
        case 5: return writes<JQ, C>(s, u);
        case 6: return writes<JJ, C>(s, u);
        default: return writes<JX, C>(s, u);
    }
}
// ill-formed texts
template <class C> static void ill(Src& s) {
    std::string t = "\"";
    if (s.coin()) {
        static const char* const K[] = {"a", "\\", "\\u", "\\u0", "\\u00", "\\u00e", "\\u00e9", "\\uD8", "\\uD83C", "\\uDF4C", "\\ud83c\\udf4c", "\\uD83C\\uD83C", "\\uDC00", "\\uDBFF", "\\uDFFF", "\\n", "\\x", "\\U", "\\0", "\\'", "\\/", "\\\"", "\\ ", "\xC3\xA9", "\xC3", "\xA9", "\xE2\x82", "\xE2\x80\xA8", "\xF0\x9F", "\xF0\x9F\x8D\x8C", "\xED\xA0\x80", "\xED\x9F\xBF", "\xC0\x80", "\xC1\xBF", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xF0\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xF5\x80\x80\x80", "\xF8\x88\x80\x80\x80", "\xFF", "\xFE", "\x7F", "\x1F", "\x01", "\t", "\n", "\"", "'", "\\uFFFF", "\\u+123", "\\u 123", "\\u12g4", "\\u0000", "aaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaa"};
        for (u64 n = 1 + s.draw(5); n--; ) t += s.pick(K);
    }
    else { // any bytes
        if (s.coin()) t += std::string(s.draw(34), 'a');
        u8 const h = u8(s.draw(256)); t += char(h); for (u64 n = s.draw(5); n--; ) { static const u8 T[] = {0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0x22, 0x5C}; t += char(s.coin() ? 0x80 + s.draw(64) : s.coin() ? s.pick(T) : u8(s.draw(256))); }
    }
    if (s.chance(3, 4)) t += "\""; if (s.chance(1, 4)) t += "]";
    J g; std::size_t n; const char* err = nullptr; jref::Parser p(t.data(), t.data() + t.size()); bool const ok = p.str(g.s); n = std::size_t(p.i - p.b); err = p.err;
    int const k = int(s.draw(3)); S_<C> a; auto const r = read<JX>(k, a, t);
    CHECK(r.end >= 0 && r.end <= long(t.size()), "position", "ends at ", r.end, " in ", quote(t));
    if (ok) {
        CHECK(r.ok, "reject", "rejected: ", io::msg(r), " at ", r.end, " in ", quote(t), " (way ", k, ")");
        CHECK(k == 2 || r.end == long(n), "end", "ends at ", r.end, " expected ", n, " in ", quote(t), " (way ", k, ")");
        CHECK(a == uni::to<C>(g.s), "value", "another text: ", points(a), " expected ", points(g.s), " from ", quote(t), " (way ", k, ")");
    }
    else CHECK(!r.ok, "accept", "ill-formed (", err ? err : "", ") but accepted: ", quote(t), " as ", points(a), " (way ", k, ")");
    { // a single character
        C c = C(77); auto const q = read<JX>(k, c, t);
        if (!ok || g.s.size() != 1) CHECK(!q.ok, "accept character", "not a character but accepted: ", quote(t), " as ", unsigned(c));
        else if (sizeof(C) == 4 || g.s[0] <= (sizeof(C) == 2 ? 0xFFFF : 0x7F)) CHECK(q.ok && c == C(g.s[0]), "character", "another character from ", quote(t), ": ", io::msg(q));
        else if (g.s[0] > (sizeof(C) == 1 ? 0xFF : 0xFFFF)) CHECK(!q.ok, "accept character", "too large but accepted: ", quote(t));
    }
    { std::map<S_<C>, int> m; std::string x = "{" + t + ":1}"; J o; bool const kok = jref::parse(x, o); io::R q = io::read<JX>(m, x); if (kok) CHECK(q.ok && m.size() == 1 && m.begin()->first == uni::to<C>(o.o[0].first), "key", "another key from ", quote(x), ": ", io::msg(q)); else CHECK(!q.ok || q.end < long(x.size()), "accept key", "accepted: ", quote(x)); }
    s.nontrivial(); s.show(quote(t)); s.label(ok ? "well-formed" : "ill-formed");
}
template <class C> static void prop(Src& s) { s.draw(3) ? well<C>(s) : ill<C>(s); }
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define REG(...) static Reg CAT(r_, __COUNTER__)(#__VA_ARGS__, &prop<__VA_ARGS__>);
REG(char) REG(char8_t) REG(char16_t) REG(char32_t) REG(wchar_t)
