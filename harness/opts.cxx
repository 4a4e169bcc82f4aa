// J12: the options of the textual format. -DFMT=<n>
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "common/json.hpp"
#include "common/cbor.hpp"
#include "cxon/lib/node.hxx"
#include "cxon/lib/node.ordered.hxx"
#include "common/io.hpp"
#include "common/groups.hpp"
#include "common/classes.hpp"
#include "common/nodes.hpp"
#include "common/opts.hpp"
using namespace ty;

namespace { // every unit has its own

using F = cxon::json::format_traits;
#if FMT == 1
struct Tr : F { static constexpr bool allow_comments = true; };
#elif FMT == 2
struct Tr : F { static constexpr bool allow_trailing_separators = true; };
#elif FMT == 3
struct Tr : F { static constexpr bool allow_comments = true, allow_trailing_separators = true; struct map : F::map { static constexpr char sep = ';'; }; struct list : F::list { static constexpr char sep = ';'; }; };
#elif FMT == 4
struct Tr : F { static constexpr bool quote_unquoted_keys = false; };
#elif FMT == 5
struct Tr : F { static constexpr bool unquote_quoted_keys = true; };
#elif FMT == 6
struct Tr : F { static constexpr bool quote_unquoted_keys = false, unquote_quoted_keys = true, allow_comments = true, allow_trailing_separators = true, allow_javascript_nans = true; };
#elif FMT == 7
struct Tr : F { static constexpr bool allow_javascript_nans = true, produce_strict_javascript = true; };
#elif FMT == 8
struct Tr : F { struct string : F::string { static constexpr char del = '\''; }; };
#elif FMT == 9
struct Tr : F { struct map : F::map { static constexpr char div = '='; static constexpr char sep = ' '; }; struct list : F::list { static constexpr char sep = ' '; }; };
#elif FMT == 10
using Tr = cxon::cxcf::format_traits;
#elif FMT == 11
struct Tr : cxon::cxcf::format_traits { static constexpr bool allow_trailing_separators = true, quote_unquoted_keys = true; struct string : F::string { static constexpr char del = '\''; }; };
#elif FMT == 12
struct Tr : F { static constexpr bool validate_string_encoding = false, validate_string_escapes = false, assume_unique_object_keys = false; };
#endif
using X = cxon::JSON<Tr>;
struct Strict : Tr { struct number : Tr::number { static constexpr bool strict = true; }; }; // what other numbers are accepted is not specified
struct OffC : Tr { static constexpr bool allow_comments = false; struct number : Tr::number { static constexpr bool strict = true; }; };
struct OffT : Tr { static constexpr bool allow_trailing_separators = false; struct number : Tr::number { static constexpr bool strict = true; }; };
struct OffK : Tr { static constexpr bool quote_unquoted_keys = true, unquote_quoted_keys = false; struct number : Tr::number { static constexpr bool strict = true; }; };

}

template <class T> inline constexpr bool multi = false;
template <class ...A> inline constexpr bool multi<std::multimap<A...>> = true;
template <class T> inline constexpr bool anykey = false; // keys that are values on their own
template <class K, class E> inline constexpr bool anykey<std::map<K, E>> = !keyed<K>;

template <class T> static jref::Style style(Src& s) { jref::Style st; st.shuffle = !multi<T>; if (s.chance(1, 6)) st.ws = false; if (s.chance(1, 6)) st.esc = false; return st; }
template <class T> static opt::Render render(Src& s, const J& j) { opt::Render r(opt::of<X>(), s, style<T>(s)); r.doc(j); return r; }

// what is written is the value in the notation of the format, and reads back
template <class T> static void out(Src& s) {
    Box<T> b; ty::gen(s, b.v);
    std::string t; auto const w = io::write<X>(t, b.v);
    CHECK(w.ok, "write", "writing failed: ", io::msg(w), ", got ", quote(t));
    s.show(quote(t)); s.nontrivial(t.size() > 2);
    if constexpr (!anykey<T> || (!X::unquote_quoted_keys && (X::string::del == '"' || !X::quote_unquoted_keys))) { // apostrophes within such keys stay as they are
        opt::Parser p(opt::of<X>(), t.data(), t.data() + t.size()); J g;
        CHECK(p.val(g) && p.gap() && p.i == p.e && !p.unsure, "grammar", "not a document of the format (", p.err ? p.err : "", "): ", quote(t));
        if constexpr (!anykey<T>) { std::string why; CHECK(jref::match(V<T>::toj(b.v), g, why), "value", "the document denotes another value (", why, "): ", quote(t)); }
    }
    if (X::produce_strict_javascript) CHECK(t.find("\xE2\x80\xA8") == t.npos && t.find("\xE2\x80\xA9") == t.npos, "javascript", "line or paragraph separators: ", quote(t));
    Box<T> a; auto const r = s.chance(1, 4) ? io::read_in<X>(a.v, t) : io::read<X>(a.v, t);
    CHECK(r.ok, "reject", "own output is rejected: ", io::msg(r), " at ", r.end, " in ", quote(t));
    CHECK(r.end == long(t.size()), "end", "ends at ", r.end, " in ", quote(t));
    CHECK(ty::eq(a.v, b.v), "restored", "another value is restored from ", quote(t));
}
// any rendering reads as the value
template <class T> static void in(Src& s) {
    Box<T> b; ty::gen(s, b.v); J const j = V<T>::toj(b.v);
    auto rn = render<T>(s, j); std::string t = rn.t; std::size_t const n = t.size();
    { opt::Parser p(opt::of<X>(), t.data(), t.data() + n); J g; std::string why; CHECK(p.val(g) && p.i == p.e && (rn.st.shuffle || jref::match(j, g, why)), "harness", "the printer is wrong: ", p.err ? p.err : "", why, " ", quote(t)); }
    static const char* suf[] = {"", "", ",", "]", "}", " ", "\n1", "\"x", " \xff", ":", "\t", "/", " /*", "//", "=", ";"};
    t += s.pick(suf);
    s.show(quote(t)); s.nontrivial(rn.com || rn.trail || rn.raw || rn.nan || n > 4); if (rn.com) s.label("comments"); if (rn.trail) s.label("trailing separators"); if (rn.raw) s.label("keys without quotes"); if (rn.nan) s.label("NaN");
    Box<T> a; bool const fwd = s.chance(1, 4); if (fwd) t.resize(n);
    auto const r = fwd ? s.coin() ? io::read_in<X>(a.v, t) : io::read_fwd<X>(a.v, t) : io::read<X>(a.v, t);
    CHECK(r.ok, "reject", "a lawful text is rejected: ", io::msg(r), " at ", r.end, " in ", quote(t));
    CHECK(r.end == long(n), "end", "ends at ", r.end, " expected ", n, " in ", quote(t));
    CHECK(ty::eq(a.v, b.v), "value", "another value: ", quote(jref::plain(V<T>::toj(a.v))), " from ", quote(t));
}
static bool names(J& j, bool& mixed) { // NaN and Infinity become numbers
    bool r = false;
    if (j.k == J::string) {
        if (j.fk) { j = J::I("1"); return true; }
        if (j.s == U"nan" || j.s == U"-nan" || j.s == U"inf" || j.s == U"-inf") mixed = true;
    }
    for (auto& x : j.a) r |= names(x, mixed);
    for (auto& x : j.o) r |= names(x.second, mixed);
    return r;
}
template <class Y, class T> static void judge(Src& s, const std::string& t, const char* what) {
    opt::Parser p(opt::of<Y>(), t.data(), t.data() + t.size()); J g; Box<T> x, a;
    bool const ok = p.val(g); std::size_t const n = std::size_t(p.i - p.b);
    Tri want = p.unsure ? unspec : ok ? V<T>::fromj(g, x.v) : std::strchr("[{'\"", *t.c_str()) && std::strstr("comment separator divider end", p.err) ? no : unspec;
    bool named = false;
    if (ok && Y::allow_javascript_nans) { J h = g; bool mixed = false; Box<T> y; if ((named = names(h, mixed)) && want == yes && V<T>::fromj(h, y.v) != yes) want = no; if (mixed) want = unspec; }
    if (want == unspec || want == pre) return;
    if (std::is_same_v<T, t_mp> && want != yes) s.noleak = true;
    auto const r = io::read<Y>(a.v, t);
    if (want == no) { CHECK(!r.ok, "accept", what, "not a value of the type (", p.err ? p.err : "", ") but accepted: ", quote(t), " as ", quote(jref::plain(V<T>::toj(a.v)))); s.label("rejected"); }
    else {
        CHECK(r.ok, "reject", what, "lawful but rejected: ", io::msg(r), " at ", r.end, " in ", quote(t));
        CHECK(r.end == long(n), "end", what, "ends at ", r.end, " expected ", n, " in ", quote(t));
        CHECK(named || ty::eq(a.v, x.v), "value", what, "another value: ", quote(jref::plain(V<T>::toj(a.v))), " from ", quote(t));
        s.label("accepted");
    }
}
// without the option that a text uses
template <class T> static void off(Src& s) {
    Box<T> b; ty::gen(s, b.v); auto const rn = render<T>(s, V<T>::toj(b.v));
    std::string const& t = rn.t; std::size_t f = 0; while (f < t.size() && std::strchr(" \t\n\r", t[f])) ++f;
    s.show(quote(t)); s.nontrivial(rn.com || rn.trail || rn.raw);
    if constexpr (X::allow_comments) if (rn.com) judge<cxon::JSON<OffC>, T>(s, t.substr(f), "no comments: ");
    if constexpr (X::allow_trailing_separators) if (rn.trail) judge<cxon::JSON<OffT>, T>(s, t.substr(f), "no trailing separators: ");
    if constexpr (X::unquote_quoted_keys || !X::quote_unquoted_keys) if (rn.raw) judge<cxon::JSON<OffK>, T>(s, t.substr(f), "no keys without quotes: ");
}
// almost right texts
template <class T> static void near(Src& s) {
    Box<T> b; ty::gen(s, b.v); std::string t = render<T>(s, V<T>::toj(b.v)).t;
    static const char* tok[] = {"/", "//", "/*", "*/", "/**/", "//\n", "*", "\n", " ", ",", ";", "]", "}", ",]", ";]", ",}", ";}", ":", "=", "\\ ", "\\=", "\\:", "\\'", "\\\"", "'", "\"", "NaN", "Infinity", "a", "1", "\\", "[", "{", "\v", "\f", ", ,", "\t", "null"};
    for (u64 n = 1 + s.draw(2); n--; ) {
        std::size_t const p = s.below(t.size() + 1);
        switch (s.draw(4)) {
            case 0: t.insert(p, s.pick(tok)); break;
            case 1: if (p < t.size()) t.erase(p, 1 + s.draw(2)); break;
            case 2: if (p < t.size()) t.replace(p, 1, s.pick(tok)); break;
            default: t.resize(p);
        }
    }
    s.show(quote(t)); s.nontrivial(t.size() > 2);
    judge<cxon::JSON<Strict>, T>(s, t, "");
}
// what plain JSON is, the extended formats are as well
template <class T> static void plain(Src& s) {
    constexpr bool super = !X::unquote_quoted_keys && !X::allow_javascript_nans && X::map::div == ':' && X::map::sep == ',' && X::list::sep == ',' && X::string::del == '"' && X::quote_unquoted_keys;
    if constexpr (super) {
        Box<T> b, a, c; ty::gen(s, b.v); J j = V<T>::toj(b.v);
        std::string t = jref::render(j, s, style<T>(s)); if (s.coin()) t = jref::mutate(t, s, 1 + int(s.draw(2)));
        s.show(quote(t)); if (std::is_same_v<T, t_mp>) s.noleak = true;
        auto const r = io::read<cxon::JSON<>>(a.v, t), q = io::read<X>(c.v, t);
        s.nontrivial(r.ok && t.size() > 2); s.label(r.ok ? "accepted" : "rejected");
        if (r.ok) { CHECK(q.ok && q.end == r.end, "extension", "a plain text is not read in the same way: ", io::msg(q), " at ", q.end, " expected ", r.end, " in ", quote(t)); CHECK(ty::eq(a.v, c.v), "extension", "another value from a plain text: ", quote(t)); }
    }
    else in<T>(s);
}

static J tokens(J j, Src& s, const opt::O& o);
// members that are skipped hold anything
struct Sk { int a = 0; str b; std::vector<int> c; };
CXON_JSON_CLS(Sk, CXON_JSON_CLS_FIELD_SKIP("s"), CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_SKIP("t-t"), CXON_JSON_CLS_FIELD_ASIS(b), CXON_JSON_CLS_FIELD_ASIS(c), CXON_JSON_CLS_FIELD_SKIP("u"))
template <> struct ty::Cls<Sk> : ClsBase CLS(Sk, FD(a), FD(b), FD(c)) };
static void plainkeys(J& j) { // brackets, quotes and slashes in keys without quotes are not told from others in what is skipped (a known finding)
    for (auto& x : j.a) plainkeys(x);
    for (auto& x : j.o) { for (auto& c : x.first) if (std::strchr("[]{}\"'/", int(c & 0x7F)) && c < 0x80) c = U'k'; plainkeys(x.second); }
}
static void skip(Src& s) {
    Sk b, a; ty::gen(s, b); auto const o = opt::of<X>(); J j = V<Sk>::toj(b);
    static const char32_t* K[] = {U"s", U"t-t", U"u"}; bool some = false;
    for (auto k : K) if (s.coin()) { J v = tokens(jref::gen_doc(s, 3), s, o); if (o.uq) plainkeys(v); j.add(k, v); some = true; }
    jref::Style st; st.shuffle = true; if (s.chance(1, 4)) st.ws = false; st.kesc = false;
    opt::Render rn(o, s, st); rn.apart = o.uq; rn.doc(j); std::string const& t = rn.t;
    s.show(quote(t)); s.nontrivial(some);
    auto const r = s.chance(1, 4) ? io::read_in<X>(a, t) : io::read<X>(a, t);
    CHECK(r.ok, "skip", "skipped members are rejected: ", io::msg(r), " at ", r.end, " in ", quote(t));
    CHECK(r.end == long(t.size()), "end", "ends at ", r.end, " expected ", t.size(), " in ", quote(t));
    CHECK(ty::eq(a, b), "value", "another value: ", quote(jref::plain(V<Sk>::toj(a))), " from ", quote(t));
}

// bare classes: members to the end, at the root
struct Bare { int a = 0; std::string b; std::vector<int> c; double d = 0; std::map<std::string, bool> e; std::optional<int> f; };
CXON_JSON_CLS_BARE(Bare)
CXON_JSON_CLS(Bare, CXON_JSON_CLS_FIELD_ASIS_DFLT(a, self.a == 0), CXON_JSON_CLS_FIELD_NAME("b.b", b), CXON_JSON_CLS_FIELD_ASIS(c), CXON_JSON_CLS_FIELD_ASIS(d), CXON_JSON_CLS_FIELD_NAME("e-e", e), CXON_JSON_CLS_FIELD_ASIS(f))
template <> struct ty::Cls<Bare> : ClsBase CLS(Bare, FDD("a", a, self.a == 0), FDN("b.b", b), FD(c), FD(d), FDN("e-e", e), FD(f)) };
static void bare(Src& s) {
    Bare b, a; ty::gen(s, b); J const j = V<Bare>::toj(b); auto const o = opt::of<X>();
    if (s.coin()) {
        std::string t; auto const w = io::write<X>(t, b); CHECK(w.ok, "write", "writing failed: ", io::msg(w));
        opt::Parser p(o, t.data(), t.data() + t.size()); J g; std::string why; CHECK(p.bare(g) && jref::match(j, g, why), "bare", "not the members (", p.err ? p.err : "", why, "): ", quote(t));
        s.show(quote(t)); s.nontrivial();
        auto const r = s.chance(1, 4) ? io::read_in<X>(a, t) : io::read<X>(a, t);
        CHECK(r.ok && r.end == long(t.size()), "reject", "own output is rejected: ", io::msg(r), " at ", r.end, " in ", quote(t)); CHECK(ty::eq(a, b), "restored", "another value is restored from ", quote(t));
    }
    else {
        opt::Render rn(o, s, style<Bare>(s)); J v = j; for (std::size_t i = v.o.size(); i-- > 0; ) if (s.chance(1, 6)) v.o.erase(v.o.begin() + long(i)), v.okey.erase(v.okey.begin() + long(i));
        rn.bare(v); Bare x; Tri const want = V<Bare>::fromj(v, x); (void)want;
        s.show(quote(rn.t)); s.nontrivial();
        auto const r = s.chance(1, 4) ? io::read_in<X>(a, rn.t) : io::read<X>(a, rn.t);
        { Bare y; opt::Parser p(o, rn.t.data(), rn.t.data() + rn.t.size()); J g; CHECK(p.bare(g) && V<Bare>::fromj(g, y) == yes, "harness", "the printer is wrong: ", p.err ? p.err : "", " ", quote(rn.t)); x = y; }
        CHECK(r.ok && r.end == long(rn.t.size()), "reject", "members are rejected: ", io::msg(r), " at ", r.end, " in ", quote(rn.t)); CHECK(ty::eq(a, x), "value", "another value: ", quote(jref::plain(V<Bare>::toj(a))), " from ", quote(rn.t));
    }
}

// nodes
using nd::NV;
static NV doc(const opt::O& o, const J& j) {
    NV v;
    switch (j.k) {
        case J::string: if (j.fk) return NV::R(j.s == U"inf" ? std::numeric_limits<double>::infinity() : j.s == U"-inf" ? -std::numeric_limits<double>::infinity() : std::numeric_limits<double>::quiet_NaN()); return NV::S(uni::to8(j.s));
        case J::array: v.k = NV::array; for (auto& x : j.a) v.a.push_back(doc(o, x)); return v;
        case J::object: v.k = NV::object; for (std::size_t i = 0; i < j.o.size(); ++i) {
            if (j.okey[i] == '#') { std::string const t = uni::to8(j.o[i].first); opt::Parser p(o, t.data(), t.data() + t.size()); J k; CHECK(p.val(k) && p.i == p.e, "harness", "token"); v.a.push_back(doc(o, k)); }
            else v.a.push_back(NV::S(uni::to8(j.o[i].first)));
            v.a.push_back(doc(o, j.o[i].second));
        } return v;
        default: return nd::from_doc(j);
    }
}
static bool outside(const opt::O& o, const J& j) { // numbers out of the range of double
    if (j.k == J::number) return !jref::finite_double(j.num);
    for (auto& x : j.a) if (outside(o, x)) return true;
    for (std::size_t i = 0; i < j.o.size(); ++i) {
        if (j.okey[i] == '#') { std::string const t = uni::to8(j.o[i].first); opt::Parser p(o, t.data(), t.data() + t.size()); J k; if (p.val(k) && outside(o, k)) return true; }
        if (outside(o, j.o[i].second)) return true;
    }
    return false;
}
static bool range(const NV& v) { if (v.k == NV::real && std::isinf(v.d)) return true; for (auto& x : v.a) if (range(x)) return true; return false; }
static J tokens(J j, Src& s, const opt::O& o) { // some keys are not strings, some values not finite
    if (o.nans && j.k != J::array && j.k != J::object && s.chance(1, 8)) { static const char32_t* N[] = {U"nan", U"-nan", U"inf", U"-inf"}; J x = J::S(s.pick(N)); x.fk = 'd'; return x; }
    for (auto& x : j.a) x = tokens(x, s, o);
    for (std::size_t i = 0; i < j.o.size(); ++i) { j.o[i].second = tokens(j.o[i].second, s, o); if (o.un && s.chance(1, 4)) { static const char32_t* K[] = {U"1", U"-1", U"0", U"true", U"false", U"null", U"[]", U"{}", U"1.5", U"[1]", U"1e3", U"[[]]"}; j.o[i].first = s.pick(K); j.okey[i] = '#'; } }
    return j;
}
template <class N> static NV normal(NV v) { return std::is_same_v<N, cxon::json::ordered_node> ? v : nd::canon(std::move(v)); }
template <class N> static void node_in(Src& s) {
    auto const o = opt::of_node<X>(); J const j = tokens(jref::gen_doc(s, 4), s, o);
    jref::Style st; st.shuffle = true; if (s.chance(1, 6)) st.ws = false;
    opt::Render rn(o, s, st); rn.doc(j); std::string t = rn.t; std::size_t const n = t.size();
    bool const mut = s.chance(1, 3); if (mut) t = jref::mutate(t, s, 1 + int(s.draw(2)));
    s.show(quote(t)); s.nontrivial(n > 2); if (rn.com) s.label("comments"); if (rn.trail) s.label("trailing separators"); if (rn.raw) s.label("keys without quotes"); if (rn.nan) s.label("NaN");
    opt::Parser p(o, t.data(), t.data() + t.size()); J g; bool const ok = p.val(g);
    CHECK(mut || (ok && p.i == p.e), "harness", "the printer is wrong: ", p.err ? p.err : "", " ", quote(t));
    if (p.unsure || (FMT == 12 && !ok)) return;
    N a; auto const r = io::read<X>(a, t);
    if (!ok) { CHECK(!r.ok, "accept", "not a document (", p.err ? p.err : "", ") but accepted: ", quote(t), " as ", nd::show(nd::model(a))); s.label("rejected"); return; }
    if (mut && outside(o, g)) return s.label("unspecified");
    NV const v = doc(o, g); if (!o.nans && range(v)) return;
    CHECK(r.ok, "reject", "a lawful text is rejected: ", io::msg(r), " at ", r.end, " in ", quote(t));
    CHECK(r.end == long(p.i - p.b), "end", "ends at ", r.end, " expected ", p.i - p.b, " in ", quote(t));
    if (!std::is_same_v<N, cxon::json::ordered_node> && !nd::unique_keys(v)) return;
    CHECK(nd::same(normal<N>(nd::model(a)), normal<N>(v)), "value", "another node: ", nd::show(nd::model(a)), " expected ", nd::show(v), " from ", quote(t));
}
static bool negzero(const NV& v) { if (v.k == NV::real && v.d == 0 && std::signbit(v.d)) return true; for (auto& x : v.a) if (negzero(x)) return true; return false; } // -0 is read as an integer
static bool realkey(const NV& v) { for (std::size_t i = 0; i < v.a.size(); ++i) if ((v.k == NV::object && i % 2 == 0 && v.a[i].k != NV::string) || realkey(v.a[i])) return true; return false; } // 1e3 is read as an integer after it is written, and keys are ordered by kinds
template <class N> static void node_out(Src& s) {
    auto const o = opt::of_node<X>(); J const j = tokens(jref::gen_doc(s, 4), s, o);
    opt::Render rn(o, s, jref::Style{}); rn.doc(j);
    N a, b; auto const r0 = io::read<X>(a, rn.t); if (!r0.ok) return;
    NV const v = nd::model(a);
    std::string t; auto const w = io::write<X>(t, a); CHECK(w.ok, "write", "writing failed: ", io::msg(w));
    s.show(quote(t)); s.nontrivial(t.size() > 2);
    opt::Parser p(o, t.data(), t.data() + t.size()); J g; CHECK(p.val(g) && p.gap() && p.i == p.e && !p.unsure, "grammar", "not a document of the format (", p.err ? p.err : "", "): ", quote(t));
    auto const r = io::read<X>(b, t);
    CHECK(r.ok && r.end == long(t.size()), "reject", "own output is rejected: ", io::msg(r), " at ", r.end, " in ", quote(t));
    if (nd::unique_keys(v)) { NV const w2 = nd::model(b); std::string u; CHECK(io::write<X>(u, b).ok && (u == t || negzero(v) || realkey(v)), "rewrite", "another text is written: ", quote(u), " after ", quote(t)); CHECK(w2.k == v.k || v.k == NV::sint || v.k == NV::real, "kind", "another node is restored from ", quote(t)); }
}

template <class T> static void prop(Src& s) {
    if constexpr (anykey<T>) return out<T>(s); else
    switch (s.draw(8)) {
        case 0: case 1: return out<T>(s);
        case 2: case 3: case 4: return in<T>(s);
        case 5: if constexpr (X::allow_comments || X::allow_trailing_separators || X::unquote_quoted_keys || !X::quote_unquoted_keys) return off<T>(s); else return out<T>(s);
        case 6: return plain<T>(s);
        default: if constexpr ((X::unquote_quoted_keys && !(std::is_same_v<T, t_m1> || std::is_same_v<T, t_m3> || std::is_same_v<T, bc::P1>))) return in<T>(s); else return near<T>(s);
    }
}
using t_od = std::optional<double>; using t_vd = std::vector<double>; using t_vi = std::vector<int>; using t_vf = std::vector<float>; using t_mvi = std::map<int, std::vector<int>>; using t_vs = std::vector<str>; using t_kp = std::map<std::pair<int, str>, int>; using t_kt = std::map<std::tuple<str, bool, str>, str>; using t_kv = std::map<t_vs, int>; using t_kk = std::map<t_m1, int>; using t_cd = std::vector<std::complex<double>>;
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define STR_(x) #x
#define STR(x) STR_(x)
#define REG(...) static Reg CAT(r_, __COUNTER__)("F" STR(FMT) " " #__VA_ARGS__, &prop<__VA_ARGS__>);
REG(str) REG(t_vi) REG(t_vd) REG(t_od) REG(char[8]) REG(std::u16string) REG(std::set<str>) REG(t_v2) REG(t_v3)
REG(t_m1) REG(t_m2) REG(t_m3) REG(t_m5) REG(t_mb) REG(t_mc) REG(t_m16) REG(t_mm1) REG(t_mk1) REG(t_nest1) REG(t_kp) REG(t_kt) REG(t_kv) REG(t_kk) REG(t_cd) REG(t_tup3)
REG(bc::Em) REG(t_mem) REG(bc::P1) REG(bc::P3) REG(bc::P4) REG(bc::P9)
#if FMT == 10
static void f_skip(Src&) { Sk a; auto const r = io::read<X>(a, "{s={]=1 [=2 \"=3} a=1}"); CHECK(r.ok && a.a == 1, "skip", "the value of a skipped member is not delimited: ", io::msg(r), " at ", r.end); }
static Reg rf("finding: keys of skipped maps", &f_skip, 0);
#endif
#if FMT == 1 || FMT == 10
static void run(Src& s) { // many comments
    std::string t; static const u64 N[] = {1, 2, 100, 1000, 20000, 200000}; u64 const n = s.pick(N); bool const l = s.coin();
    for (u64 k = 0; k < n; ++k) t += l ? "//\n" : "/**/";
    std::string const v = t + "42"; s.show(cat(n, " comments")); s.nontrivial(n > 1);
    int a = 0; auto const r = s.coin() ? io::read<X>(a, v) : io::read_in<X>(a, v); CHECK(r.ok && a == 42, "comments", n, " comments: ", io::msg(r));
}
static Reg rrun("F" STR(FMT) " run", &run);
#endif
static Reg rs("F" STR(FMT) " skip", &skip, 2);
static Reg rb("F" STR(FMT) " bare", &bare), rn1("F" STR(FMT) " node/in", &node_in<cxon::json::node>, 3), rn2("F" STR(FMT) " ordered_node/in", &node_in<cxon::json::ordered_node>, 3), rn3("F" STR(FMT) " node/out", &node_out<cxon::json::node>, 2), rn4("F" STR(FMT) " ordered_node/out", &node_out<cxon::json::ordered_node>, 2);
