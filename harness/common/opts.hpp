// The options of the textual format: a renderer and a parser that know them.
#pragma once
#include "jref.hpp"

namespace opt {

using jref::J; using uni::U;

struct O {
    bool com = false, trail = false, nans = false;  // comments, trailing separators, NaN and Infinity
    bool uq = false;                                // keys that are strings are written without quotes
    bool un = false;                                // keys that are not strings are
    char del = '"', div = ':', msep = ',', lsep = ',';
};
template <class X> inline O of() {
    O o; o.com = X::allow_comments; o.trail = X::allow_trailing_separators; o.nans = X::allow_javascript_nans; o.uq = X::unquote_quoted_keys; o.un = X::unquote_quoted_keys || !X::quote_unquoted_keys;
    o.del = X::string::del; o.div = X::map::div; o.msep = X::map::sep; o.lsep = X::list::sep; return o;
}

// nodes: keys of any kind, strings keep the quotes when the others have none
template <class X> inline O of_node() { O o = of<X>(); o.un = !X::quote_unquoted_keys; o.uq = X::unquote_quoted_keys && X::quote_unquoted_keys; return o; }

// parser --------------------------------------------------------------------------------------------------------
struct Parser : jref::Parser {
    O o; bool unsure = false;
    Parser(const O& o, const char* b, const char* e) : jref::Parser(b, e), o(o) {}
    bool gap() { // whitespace and comments
        for (;;) {
            ws();
            if (!o.com || i == e || *i != '/') return true;
            if (e - i < 2) return bad("comment");
            if (i[1] == '/') { while (i != e && *i != '\n') ++i; }
            else if (i[1] == '*') { i += 2; while (e - i >= 2 && !(i[0] == '*' && i[1] == '/')) ++i; if (e - i < 2) { i = e; unsure = true; return true; } i += 2; }
            else return bad("comment");
        }
    }
    bool esc(U& u, bool key) { // after a backslash
        if (i == e) return bad("escape");
        char const c = *i;
        if (c == '\'' && o.del == '\'') { ++i; u += U'\''; return true; }
        if (key && (c == ' ' || c == o.div)) { ++i; u += char32_t(c); return true; }
        // as in a string
        std::string q = "\""; const char* f = i - 1;
        std::size_t l = 2; if (c == 'u') { l = 6; if (e - f >= 8 && f[6] == '\\' && f[7] == 'u') { jref::Parser p(f, f + 6); char32_t h = 0; p.i += 2; if (p.hex4(h) && h >= 0xD800 && h <= 0xDBFF) l = 12; } }
        q.append(f, std::size_t(std::min<std::ptrdiff_t>(std::ptrdiff_t(l), e - f))); q += '"';
        jref::Parser p(q.data(), q.data() + q.size()); U v;
        if (!p.str(v)) { err = p.err; return false; }
        u += v; i = f + l; return true;
    }
    bool text(U& u, bool raw) { // a string or (raw) a key without quotes
        u.clear();
        if (!raw) { if (i == e || *i != o.del) return bad("string"); ++i; }
        for (;;) {
            if (i == e) return bad("unterminated string");
            unsigned char c = (unsigned char)*i;
            if (!raw && c == (unsigned char)o.del) { ++i; return true; }
            if (raw && (c == ' ' || (c >= 9 && c <= 13) || c == (unsigned char)o.div)) { if (c == 11 || c == 12) unsure = true; return true; }
            if (c < 0x20) return bad("control character");
            if (c == '\\') { ++i; if (!esc(u, raw)) return false; continue; }
            char32_t cp; int n = uni::get8(i, e, cp); if (!n) return bad("utf-8");
            u += cp; i += n;
        }
    }
    bool key(U& u, char& ok) {
        ok = 0;
        if (o.uq) { if (i != e && (*i == '{' || *i == '[')) unsure = true; return text(u, true); } // nodes take them for containers
        if (o.un && (i == e || *i != o.del)) return token(u, ok);
        return text(u, false);
    }
    bool token(U& u, char& ok) { const char* f = i; J x; if (!val(x)) return false; u.clear(); return uni::from8(std::string(f, i), u) && (ok = '#', true); }
    bool sep(char c, char end, bool& done) { // after an element
        const char* f = i;
        if (!gap()) return false;
        if (i == e) return bad("end");
        if (*i == end) { ++i; done = true; return true; }
        if (c == ' ') { if (f == i) unsure = true; return true; } // nothing between the elements
        if (*i != c) return bad("separator");
        ++i;
        if (!gap()) return false;
        if (o.trail && i != e && *i == end) { ++i; done = true; }
        return true;
    }
    bool val(J& j) {
        if (!gap()) return false;
        if (i == e) return bad("end");
        if (*i == o.del) { j.k = J::string; return text(j.s, false); }
        if (o.nans) {
            static const struct { const char* t; const char32_t* v; } N[] = {{"NaN", U"nan"}, {"-NaN", U"-nan"}, {"Infinity", U"inf"}, {"-Infinity", U"-inf"}};
            for (auto& x : N) if (std::size_t(e - i) >= std::strlen(x.t) && !std::memcmp(i, x.t, std::strlen(x.t))) { j.k = J::string; j.s = x.v; j.fk = 'd'; i += std::strlen(x.t); return true; }
        }
        switch (*i) {
            case 'n': j.k = J::null; return lit("null");
            case 't': j.k = J::boolean; j.b = true; return lit("true");
            case 'f': j.k = J::boolean; j.b = false; return lit("false");
            case '[': {
                j.k = J::array; ++i; if (!gap()) return false;
                if (i != e && *i == ']') { ++i; return true; }
                for (bool done = false; !done; ) { j.a.emplace_back(); if (!val(j.a.back()) || !sep(o.lsep, ']', done)) return false; }
                return true;
            }
            case '{': {
                j.k = J::object; ++i; if (!gap()) return false;
                if (i != e && *i == '}') { ++i; return true; }
                for (bool done = false; !done; ) if (!gap() || !member(j) || !sep(o.msep, '}', done)) return false;
                return true;
            }
            default: j.k = J::number; return num(j.num);
        }
    }
    bool member(J& j) {
        U k; char ok = 0; if (!key(k, ok)) return false;
        if (!gap()) return false;
        if (i == e || *i != o.div) return bad("divider"); ++i;
        j.add(k, {}, ok); return val(j.o.back().second);
    }
    bool bare(J& j) { // members to the end
        j.k = J::object;
        for (;;) { if (!gap()) return false; if (i == e) return true; if (!member(j)) return false; }
    }
};

// renderer ------------------------------------------------------------------------------------------------------
struct Render {
    O o; Src& s; jref::Style st; std::string t; bool com = false, trail = false, raw = false, nan = false; /* what was used */ bool apart = false; // comments stand apart
    Render(const O& o, Src& s, const jref::Style& st) : o(o), s(s), st(st) {}
    void comment() {
        static const char* P[] = {"*", "/", "\"", "'", "]", "}", "[", "{", ",", ":", "=", " ", "a", "//", "/*", "**", "\\", "\\\"", "\xC3\xA9", "1", "\t", ";", "null"};
        com = true; if (apart) t += ' ';
        if (s.coin()) {
            std::string c = "/*"; for (u64 n = s.draw(6); n--; ) c += s.coin() ? s.pick(P) : s.chance(1, 4) ? "\n" : "x";
            std::size_t p; while ((p = c.find("*/", 2)) != std::string::npos) c.erase(p, 1);
            t += c + "*/";
        }
        else { t += "//"; for (u64 n = s.draw(6); n--; ) t += s.coin() ? s.pick(P) : "*/"; t += '\n'; }
    }
    void gap(bool space = false) {
        if (space) t += " \t\n\r"[s.draw(4)];
        jref::ws(t, s, st);
        if (o.com && st.ws && s.chance(1, 6)) { comment(); while (s.chance(1, 4)) { jref::ws(t, s, st); comment(); } jref::ws(t, s, st); }
    }
    void str(const U& u, const jref::Style& ks) {
        std::string q; jref::str(q, u, s, ks);
        if (o.del == '"') { t += q; return; }
        t += o.del; // \" may stay as it is
        for (std::size_t i = 1; i + 1 < q.size(); ++i) {
            if (q[i] == '\\') { if (q[i + 1] == '"' && s.coin()) { t += '"'; ++i; continue; } t += q[i++]; t += q[i]; continue; }
            if (q[i] == o.del) { t += '\\'; t += o.del; continue; }
            t += q[i];
        }
        t += o.del;
    }
    void rawkey(const U& u, const jref::Style& ks, bool text) {
        raw = true;
        for (std::size_t i = 0; i < u.size(); ++i) {
            char32_t const c = u[i];
            if (text && (c == ' ' || c == char32_t(o.div)) && s.coin()) { t += '\\'; t += char(c); continue; }
            bool const must = c <= 0x20 || c == '\\' || c == char32_t(o.div) || (text && ((i == 0 && (c == '}' || c == '{' || c == '[' || (c == '/' && o.com))) || (c == 0x7F)));
            if (!text) { uni::put8(t, c); continue; }
            if (c == '\\' && s.coin()) { t += "\\\\"; continue; }
            if (c == '/' && must && s.coin()) { t += "\\/"; continue; }
            if (must) { jref::esc16(t, unsigned(c), s); continue; }
            if (ks.esc && s.chance(1, 8)) { std::string q; jref::Style e = ks; jref::str(q, U(1, c), s, e); t.append(q, 1, q.size() - 2); continue; }
            uni::put8(t, c);
        }
    }
    void key(const U& u, char ok) {
        jref::Style ks = st; if (ok || !st.kesc) ks.esc = false;
        bool const text = ok == 0;
        if (text ? o.uq : o.un) { rawkey(u, ks, text); if (s.coin()) gap(true); }
        else { str(u, ks); gap(); }
    }
    void member(const J& j, std::size_t i) { key(j.o[i].first, j.okey[i]); t += o.div; gap(); val(j.o[i].second); }
    void val(const J& j) {
        switch (j.k) {
            case J::null: t += "null"; break;
            case J::boolean: t += j.b ? "true" : "false"; break;
            case J::number:
                if (j.fk && (j.fv != j.fv || std::isinf(j.fv))) { nan = true; t += j.fv != j.fv ? o.nans ? "NaN" : "\"nan\"" : o.nans ? j.fv < 0 ? "-Infinity" : "Infinity" : j.fv < 0 ? "\"-inf\"" : "\"inf\""; break; }
                t += j.fk ? jref::real(j.fk, j.fv, s, st.maxnum) : j.num; break;
            case J::string: {
                if (j.fk && o.nans) { nan = true; std::string const n = uni::to8(j.s); t += n == "nan" || n == "-nan" ? s.coin() ? "NaN" : "-NaN" : n == "inf" ? "Infinity" : "-Infinity"; break; }
                jref::Style ks = st; if (j.fk) ks.esc = false; str(j.s, ks); break;
            }
            case J::array: {
                t += '['; gap(); bool c = false;
                for (auto& x : j.a) { if (c) { if (o.lsep == ' ') gap(true); else t += o.lsep, gap(); } c = true; val(x); gap(); }
                if (c && o.trail && o.lsep != ' ' && s.coin()) { trail = true; t += o.lsep; gap(); }
                t += ']'; break;
            }
            case J::object: {
                t += '{'; gap(); bool c = false;
                for (auto i : order(j)) { if (c) { if (o.msep == ' ') gap(true); else t += o.msep, gap(); } c = true; member(j, i); gap(); }
                if (c && o.trail && o.msep != ' ' && s.coin()) { trail = true; t += o.msep; gap(); }
                t += '}'; break;
            }
        }
    }
    std::vector<std::size_t> order(const J& j) {
        std::vector<std::size_t> ix(j.o.size()); for (std::size_t i = 0; i < ix.size(); ++i) ix[i] = i;
        if (st.shuffle) for (std::size_t i = ix.size(); i > 1; --i) std::swap(ix[i - 1], ix[s.draw(i)]);
        return ix;
    }
    void doc(const J& j) { gap(); val(j); }
    void bare(const J& j) { gap(); bool c = false; for (auto i : order(j)) { if (c) gap(true); c = true; member(j, i); } if (s.coin()) gap(true); }
};

} // opt
