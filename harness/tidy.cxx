// J13: json::tidy and json::indenter. -DGROUP=<n>: 0 texts, 1-6 values of the groups of types
#include "common/json.hpp"
#include "cxon/lib/node.hxx"
#include "cxon/lang/json/tidy.hxx"
#include "common/io.hpp"
#include "common/groups.hpp"
#include "common/longs.hpp"
#include "common/jref.hpp"
#include <sstream>
using jref::J;
using JX = cxon::JSON<>;

static bool sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static std::string strip(const std::string& t, char del = '"') { // without the whitespace outside of strings
    std::string r; bool q = false;
    for (std::size_t i = 0; i < t.size(); ++i) {
        if (q) { r += t[i]; if (t[i] == '\\' && i + 1 < t.size()) r += t[++i]; else if (t[i] == del) q = false; continue; }
        if (t[i] == del) q = true;
        if (!sp(t[i])) r += t[i];
    }
    return r;
}
// the layout of a text without whitespace: every element of a container that is not empty on a line of its own
static std::string layout(const std::string& t, unsigned tab, char pad) {
    std::string r; std::size_t l = 0; auto nl = [&] { r += '\n'; r.append(l * tab, pad); };
    for (std::size_t i = 0; i < t.size(); ++i) {
        char const c = t[i]; r += c;
        switch (c) {
            case '"': for (++i; t[i] != '"'; ++i) { r += t[i]; if (t[i] == '\\') r += t[++i]; } r += '"'; break;
            case '{': case '[': if (t[i + 1] == '}' || t[i + 1] == ']') r += t[++i]; else ++l, nl(); break;
            case ',': nl(); break;
            case ':': r += ' '; break;
        }
        if (i + 1 < t.size() && (t[i + 1] == '}' || t[i + 1] == ']')) --l, nl();
    }
    return r;
}
struct Tab { unsigned tab; char pad; };
static Tab gen_tab(Src& s) { Tab t; t.tab = s.chance(1, 4) ? unsigned(s.draw(70)) : unsigned(s.draw(9)); t.pad = s.coin() ? '\t' : s.chance(1, 4) ? " \t\n\r"[s.draw(4)] : ' '; return t; }

template <class B> struct Out { // an output iterator that is nothing more
    using iterator_category = std::output_iterator_tag; using value_type = void; using difference_type = void; using pointer = void; using reference = void;
    B* b; struct P { B* b; P& operator =(char c) { b->push_back(c); return *this; } };
    P operator *() { return P{b}; } Out& operator ++() { return *this; } Out operator ++(int) { return *this; }
};
template <class F> static void sizes(Src& s, std::size_t n, F f) { // all capacities, or a sample of them
    if (n < 40) for (std::size_t k = 0; k <= n + 2; ++k) f(k);
    else { for (std::size_t k : {n - 1, n, n + 1, std::size_t(0), std::size_t(1)}) f(k); for (int i = 0; i < 12; ++i) f(s.below(n)); }
}

#if GROUP == 0
static void same(const std::string& a, const std::string& b, const char* l, const std::string& t, Tab m) {
    CHECK(a == b, l, "tab ", m.tab, " pad ", int(m.pad), ": ", quote(a), " and not ", quote(b), " for ", quote(t));
}
static std::string text(Src& s) {
    J const j = jref::gen_doc(s, int(2 + s.draw(8))); jref::Style st; st.ws = !s.chance(1, 4);
    std::string t = jref::render(j, s, st);
    if (s.chance(1, 6)) t += " \n"[s.draw(2)];
    return t;
}
static void tokens(Src& s) {
    std::string const t = text(s); Tab const m = gen_tab(s); s.show(quote(t)); s.nontrivial(t.size() > 2);
    std::string const r = cxon::json::tidy(t, m.tab, m.pad), c = strip(t);
    same(strip(r), c, "tokens", t, m);
    same(r, layout(c, m.tab, m.pad), "layout", t, m);
    same(cxon::json::tidy(r, m.tab, m.pad), r, "idempotent", t, m);
    Tab const m2 = gen_tab(s); same(cxon::json::tidy(r, m2.tab, m2.pad), cxon::json::tidy(t, m2.tab, m2.pad), "again", t, m2);
    cxon::json::node a, b; bool const x = io::read<JX>(a, t).ok, y = io::read<JX>(b, r).ok;
    CHECK(x == y && (!x || a == b), "value", "another value is read from ", quote(r), " than from ", quote(t));
}
template <class O> static void input(Src& s, const std::string& t, Tab m, const std::string& w) {
    O o; std::string r;
    switch (s.draw(7)) {
        case 0: { io::Heap const h(t); o = cxon::json::tidy<cxon::json::format_traits, O>(h.begin(), h.end(), m.tab, m.pad); break; }
        case 1: { io::Heap const h(t); io::In::St st{h.begin(), h.end()}; io::In b; b.s = &st; o = cxon::json::tidy<cxon::json::format_traits, O>(b, io::In{}, m.tab, m.pad); break; }
        case 2: { io::Heap const h(t); io::Fwd b, e; b.i = h.begin(), e.i = h.end(); o = cxon::json::tidy<cxon::json::format_traits, O>(b, e, m.tab, m.pad); break; }
        case 3: { std::list<char> const l(t.begin(), t.end()); o = cxon::json::tidy<cxon::json::format_traits, O>(l, m.tab, m.pad); break; }
        case 4: { std::vector<char> const l(t.begin(), t.end()); o = cxon::json::tidy<cxon::json::format_traits, O>(l, m.tab, m.pad); break; }
        case 5: { std::istringstream is(t); o = cxon::json::tidy<cxon::json::format_traits, O>(std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>(), m.tab, m.pad); break; }
        default: { o = cxon::json::tidy<cxon::json::format_traits, O>(t.begin(), t.end(), m.tab, m.pad); break; }
    }
    same(std::string(o.begin(), o.end()), w, "input", t, m);
}
static void forms(Src& s) {
    std::string const t = text(s); Tab const m = gen_tab(s); s.show(quote(t)); s.nontrivial(t.size() > 2);
    std::string const w = layout(strip(t), m.tab, m.pad);
    using X = cxon::json::format_traits;
    switch (s.draw(8)) {
        case 0: return input<std::string>(s, t, m, w);
        case 1: return input<std::vector<char>>(s, t, m, w);
        case 2: return input<std::list<char>>(s, t, m, w);
        case 3: { std::string r; bool ok;
            if (s.coin()) { io::Heap const h(t); ok = cxon::json::tidy<X>(std::back_inserter(r), h.begin(), h.end(), m.tab, m.pad); }
            else ok = cxon::json::tidy<X>(std::back_inserter(r), t, m.tab, m.pad);
            CHECK(ok, "output", "back inserter: failed"); return same(r, w, "output", t, m); }
        case 4: { std::ostringstream os; bool const ok = cxon::json::tidy<X>(std::ostreambuf_iterator<char>(os), t, m.tab, m.pad); CHECK(ok, "output", "stream: failed"); return same(os.str(), w, "output", t, m); }
        case 5: { std::string r; bool const ok = cxon::json::tidy<X>(Out<std::string>{&r}, t, m.tab, m.pad); CHECK(ok, "output", "output iterator: failed"); return same(r, w, "output", t, m); }
        default: sizes(s, w.size(), [&](std::size_t n) {
            std::unique_ptr<char[]> p(new char[n]); std::memset(p.get(), '#', n); bool ok;
            if (s.coin()) ok = cxon::json::tidy<X>(p.get(), p.get() + n, t.begin(), t.end(), m.tab, m.pad);
            else          ok = cxon::json::tidy<X>(p.get(), p.get() + n, t, m.tab, m.pad);
            CHECK(ok == (n >= w.size() || strip(w.substr(n)).empty()), "range", "a range of ", n, " for ", w.size(), ": ", ok);
            std::size_t const k = std::min(n, w.size()); CHECK(std::memcmp(p.get(), w.data(), k) == 0 || !ok, "range", "another text in a range of ", n, " for ", w.size());
            CHECK(std::memcmp(p.get(), w.data(), std::min<std::size_t>(k, 1)) == 0, "range", "nothing in a range of ", n);
            for (std::size_t i = 0; i < k; ++i) if (p[i] != w[i]) { CHECK(p[i] == '#', "range", "not a part of the text in a range of ", n); for (; i < k; ++i) CHECK(p[i] == '#', "range", "not a part of the text in a range of ", n); }
        });
    }
}
static void nodes(Src& s) {
    std::string const t = text(s); Tab const m = gen_tab(s);
    cxon::json::node a; if (!io::read<JX>(a, t).ok) return;
    std::string d, r; CHECK(io::write<JX>(d, a).ok, "write", "writing failed");
    s.show(quote(d)); s.nontrivial(d.size() > 2);
    auto const w = cxon::to_bytes(cxon::json::make_indenter(r, m.tab, m.pad), a); CHECK(!w.ec, "write", "writing failed");
    same(strip(r), d, "tokens", d, m); same(r, layout(d, m.tab, m.pad), "layout", d, m);
    cxon::json::node b, c; CHECK(io::read<JX>(b, r).ok && io::read<JX>(c, d).ok && b == c, "value", "another value from ", quote(r));
}
static void any(Src& s) { // any text: no failure, nothing but whitespace changed outside of strings
    std::string t = text(s); t = jref::mutate(t, s, 1 + int(s.draw(4))); Tab const m = gen_tab(s); s.show(quote(t)); s.nontrivial(t.size() > 2);
    std::string const r = cxon::json::tidy(t, m.tab, m.pad);
    auto all = [](const std::string& t) { std::string r; for (char c : t) if (!sp(c) && c) r += c; return r; };
    same(all(r), all(t), "characters", t, m);
}
static Reg r1("tokens", &tokens, 4), r2("forms", &forms, 4), r3("nodes", &nodes, 2), r4("any", &any, 1);
#else
using namespace ty;
template <class T> static void prop(Src& s) {
    Box<T> b; ty::make(s, b.v); Tab const m = gen_tab(s); std::string d, r;
    auto const o = io::write<JX>(d, b.v); if (!o.ok) return;
    std::string const w = layout(d, m.tab, m.pad); s.show(quote(d)); s.nontrivial(d.size() > 2);
    switch (s.draw(6)) {
        case 0: case 1: { auto const x = cxon::to_bytes<JX>(cxon::json::make_indenter(r, m.tab, m.pad), b.v); CHECK(!x.ec, "write", "writing failed"); break; }
        case 2: { auto const x = cxon::to_bytes<JX>(cxon::json::make_indenter(std::back_inserter(r), m.tab, m.pad), b.v); CHECK(!x.ec, "write", "writing failed"); break; }
        case 3: { auto const x = cxon::to_bytes<JX>(cxon::json::make_indenter(Out<std::string>{&r}, m.tab, m.pad), b.v); CHECK(!x.ec, "write", "writing failed"); break; }
        case 4: { std::ostringstream os; auto const x = cxon::to_bytes<JX>(cxon::json::make_indenter(std::ostreambuf_iterator<char>(os), m.tab, m.pad), b.v); CHECK(!x.ec, "write", "writing failed"); r = os.str(); break; }
        default: return sizes(s, w.size(), [&](std::size_t n) {
            std::unique_ptr<char[]> p(new char[n]); std::memset(p.get(), '#', n);
            auto const x = cxon::to_bytes<JX>(cxon::json::make_indenter(p.get(), p.get() + n, m.tab, m.pad), b.v);
            CHECK(!x.ec == (n >= w.size()), "range", "a range of ", n, " for ", w.size(), ": ", x.ec ? x.ec.message() : "success");
            if (n >= w.size()) CHECK(std::memcmp(p.get(), w.data(), w.size()) == 0, "range", "another text in a range of ", n, ": ", quote(std::string(p.get(), w.size())), " and not ", quote(w));
        });
    }
    CHECK(strip(r) == d, "tokens", "tab ", m.tab, ": ", quote(r), " for ", quote(d));
    CHECK(r == w, "layout", "tab ", m.tab, ": ", quote(r), " and not ", quote(w));
    CHECK(r == cxon::json::tidy(d, m.tab, m.pad), "tidy", "another text than from tidy: ", quote(r));
}
#define STR_(x) #x
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define REG(...) static Reg CAT(r_, __COUNTER__)(#__VA_ARGS__, &prop<__VA_ARGS__>);
#if GROUP == 1
TYPES_G1(REG) TYPES_G1J(REG)
#elif GROUP == 2
TYPES_G2(REG) TYPES_G2S(REG)
#elif GROUP == 3
TYPES_G3(REG) TYPES_G3K(REG)
#elif GROUP == 4
TYPES_G4(REG)
#endif
#endif
