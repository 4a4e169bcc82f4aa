// J01, J02, J03, J05: JSON of the supported types. -DP_<property> -DGROUP=<n>
#include "common/json.hpp"
#include "common/io.hpp"
#include "common/groups.hpp"
#include "common/longs.hpp"
#if GROUP >= 7
#include "common/boost.hpp"
#endif
using namespace ty;
using JX = cxon::JSON<>;

template <class T> inline constexpr bool escapes = true;
template <std::size_t N> inline constexpr bool escapes<std::bitset<N>> = false; // escapes are not decoded there
template <class T> inline constexpr bool multi = false; // the order of members with the same key matters
template <class ...A> inline constexpr bool multi<std::multimap<A...>> = true;
#if GROUP >= 7
template <class ...A> inline constexpr bool escapes<boost::dynamic_bitset<A...>> = false;
template <> inline constexpr bool escapes<t_d3> = false;
template <class ...A> inline constexpr bool multi<bc::multimap<A...>> = true;
template <class ...A> inline constexpr bool multi<bc::flat_multimap<A...>> = true;
#endif
template <class T> static void style(jref::Style& st) { if (!escapes<T>) st.esc = false; if (multi<T>) st.shuffle = false; }

#if defined(P_J01)
// Output is one complete, compact document in well-formed UTF-8 that denotes the value.
template <class T> static void prop(Src& s) {
    Box<T> b; ty::make(s, b.v);
    std::string t; auto const r = io::write<JX>(t, b.v);
    CHECK(r.ok, "write", "writing failed: ", io::msg(r), ", got ", quote(t));
    J g; const char* err = nullptr;
    CHECK(jref::parse(t, g, &err), "grammar", "not a JSON document (", err ? err : "", "): ", quote(t));
    CHECK(jref::compact(t), "compact", "insignificant whitespace: ", quote(t));
    std::string why; CHECK(jref::match(V<T>::toj(b.v), g, why), "value", "the document denotes another value (", why, "): ", quote(t));
    s.show(quote(t)); s.nontrivial(t.size() > 2);
}
#elif defined(P_J02)
// Any lawful rendering reads as the value and is consumed exactly.
template <class T> static void prop(Src& s) {
    Box<T> b; ty::make(s, b.v);
    J const j = V<T>::toj(b.v);
    jref::Style st; st.shuffle = true; if (s.chance(1, 8)) st.ws = false; if (s.chance(1, 8)) st.esc = false;
    style<T>(st);
    std::string t = jref::render(j, s, st); std::size_t const n = t.size();
    static const char* suf[] = {"", "", ",", "]", "}", " ", "\n1", "\"x", " \xff", ":", "\t"};
    t += s.pick(suf);
    Box<T> a; auto const r = io::read<JX>(a.v, t);
    CHECK(r.ok, "reject", "a lawful text is rejected: ", io::msg(r), " at ", r.end, " in ", quote(t));
    CHECK(r.end == long(n), "end", "ends at ", r.end, " expected ", n, " in ", quote(t));
    CHECK(ty::eq(a.v, b.v), "value", "another value: ", quote(jref::plain(V<T>::toj(a.v))), " from ", quote(t));
    s.show(quote(t)); s.nontrivial(n > 2 && t != jref::plain(j));
}
#elif defined(P_J03)
// Round trip.
template <class T> static void prop(Src& s) {
    Box<T> b; ty::make(s, b.v);
    std::string t; auto const w = io::write<JX>(t, b.v);
    CHECK(w.ok, "write", "writing failed: ", io::msg(w), ", got ", quote(t));
    Box<T> a; auto const r = io::read<JX>(a.v, t);
    CHECK(r.ok, "reject", "own output is rejected: ", io::msg(r), " at ", r.end, " in ", quote(t));
    CHECK(r.end == long(t.size()), "end", "ends at ", r.end, " in ", quote(t));
    CHECK(ty::eq(a.v, b.v), "value", "another value is restored from ", quote(t));
    std::string u; auto const w2 = io::write<JX>(u, a.v);
    CHECK(w2.ok && (!V<T>::det || t == u), "rewrite", "another text is written: ", quote(u), " after ", quote(t));
    s.show(quote(t)); s.nontrivial(t.size() > 2);
}
#elif defined(P_J05)
// Accepted exactly when the text is a lawful value of the type.
static J mutate(J j, Src& s) {
    std::vector<J*> all; struct W { static void go(J& j, std::vector<J*>& v) { v.push_back(&j); for (auto& x : j.a) go(x, v); for (auto& x : j.o) go(x.second, v); } }; W::go(j, all);
    J& x = *all[s.below(all.size())];
    switch (s.draw(9)) {
        case 0: { J y = jref::gen_doc(s, 2); x = y; break; }
        case 1: if (x.k == J::array && !x.a.empty()) x.a.erase(x.a.begin() + long(s.below(x.a.size()))); else if (x.k == J::array) x.a.push_back(jref::gen_doc(s, 1)); else if (x.k == J::string && !x.s.empty()) x.s.pop_back(); else x = J::I(jref::gen_num(s)); break;
        case 2: if (x.k == J::array) { J y = x.a.empty() || s.coin() ? jref::gen_doc(s, 1) : x.a[s.below(x.a.size())]; x.a.insert(x.a.begin() + long(s.below(x.a.size() + 1)), y); } else if (x.k == J::object) x.add(uni::gen(s, 3), jref::gen_doc(s, 1)); else if (x.k == J::string) x.s += uni::gen_cp(s); else if (x.k == J::number && !x.fk) x.num += char('0' + s.draw(10)); break;
        case 3: { J y = J::A(); y.a.push_back(x); x = y; break; }
        case 4: if (x.k == J::array && x.a.size() == 1) { J y = x.a[0]; x = y; } else x = J::N(); break;
        case 5: if (x.k == J::number) { J y = J::S(U()); std::string p = jref::plain(x); for (char c : p) y.s += char32_t(c); x = y; } else if (x.k == J::string) x = J::I("1"); else x = J::B(true); break;
        case 6: if (x.k == J::object && !x.o.empty()) { x.o[s.below(x.o.size())].first += uni::gen_cp(s); } else x = J::S(uni::gen(s, 3)); break;
        case 7: if (x.k == J::number) { std::string p = jref::plain(x); if (p.find_first_of(".eE") == std::string::npos) x = J::I(p + (s.coin() ? ".5" : "e1")); else x = J::I("3"); } else if (x.k == J::array) { J y = J::O(); for (auto& z : x.a) { U k; for (char c : std::to_string(y.o.size())) k += char32_t(c); y.add(k, z); } x = y; } break;
        default: if (x.k == J::number) { J y; y = J::I(jref::gen_num(s)); x = y; } else x = jref::gen_doc(s, 0);
    }
    return j;
}
template <class T> static void prop(Src& s) {
    J j;
    if (s.chance(1, 10)) j = jref::gen_doc(s, 3);
    else { Box<T> b; ty::make(s, b.v); j = V<T>::toj(b.v); for (u64 n = s.draw(3); n--; ) j = mutate(j, s); }
    jref::Style st; st.shuffle = true; st.kesc = false;
    style<T>(st);
    std::string t = jref::render(j, s, st); std::size_t n;
    J g; if (!jref::parse_prefix(t, g, n) || n != t.size()) return; // a number the mutation spoiled
    Box<T> x; Tri const want = V<T>::fromj(g, x.v);
    if (std::is_same_v<T, t_mp> && want != yes) s.noleak = true; // repeated keys: the pointer read first is lost
    Box<T> a; auto const r = io::read<JX>(a.v, t);
    CHECK(r.end >= 0 && r.end <= long(t.size()), "position", "end is out of the input: ", r.end);
    if (want == yes) {
        CHECK(r.ok, "reject", "lawful for the type but rejected: ", io::msg(r), " at ", r.end, " in ", quote(t));
        CHECK(r.end == long(n), "end", "ends at ", r.end, " expected ", n, " in ", quote(t));
        CHECK(ty::eq(a.v, x.v), "value", "another value: ", quote(jref::plain(V<T>::toj(a.v))), " from ", quote(t));
        s.label("accepted");
    }
    else if (want == no) {
        CHECK(!r.ok, "accept", "not a value of the type but accepted: ", quote(t), " as ", quote(jref::plain(V<T>::toj(a.v))));
        s.label("rejected");
    }
    else s.label("unspecified");
    s.show(quote(t)); s.nontrivial(want == yes || want == no);
}
#endif

#define STR_(x) #x
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#if GROUP < 7
#   define PID ""
#elif defined(P_J01)
#   define PID "J01 "
#elif defined(P_J02)
#   define PID "J02 "
#elif defined(P_J03)
#   define PID "J03 "
#elif defined(P_J05)
#   define PID "J05 "
#endif
#define REG(...) static Reg CAT(r_, __COUNTER__)(PID #__VA_ARGS__, &prop<__VA_ARGS__>);
#if GROUP == 1
TYPES_G1(REG)
#define REGL(...) static Reg CAT(r_, __COUNTER__)("long " #__VA_ARGS__, &as_long<__VA_ARGS__, &prop<__VA_ARGS__>>);
TYPES_LONG(REGL)
#   if !defined(P_J05) // libstdc++ from_chars(long double) reads past the end of texts like nul
TYPES_G1J(REG)
#   endif
#elif GROUP == 2
TYPES_G2(REG)
#   if defined(P_J01) || defined(P_J05)
TYPES_G2S(REG)
#   endif
#elif GROUP == 3
TYPES_G3(REG)
#   if defined(P_J01) || defined(P_J03)
TYPES_G3K(REG)
#   endif
#elif GROUP == 4
TYPES_G4(REG)
#elif GROUP == 7
TYPES_GB(REG)
#elif GROUP == 8
TYPES_GC(REG)
#endif

#if defined(P_J03) && GROUP == 2
static Reg f1("finding: stack is reversed", [](Src&) {
    std::stack<int> a, b; a.push(1), a.push(2);
    std::string t; io::write<JX>(t, a); auto const r = io::read<JX>(b, t);
    CHECK(r.ok && a == b, "value", "a stack is restored reversed from ", t);
}, 0);
#endif

#if defined(P_J01) && GROUP == 3
static Reg f2("finding: null keys have no quotes", [](Src&) {
    std::map<std::optional<std::string>, int> m; m[std::nullopt] = 2;
    std::string t; auto const w = io::write<JX>(t, m); jref::J j;
    CHECK(!w.ok || jref::parse(t, j), "grammar", "not a JSON text: ", t);
}, 0);
#endif
