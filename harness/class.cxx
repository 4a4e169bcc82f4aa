// J11, C06: bound classes and enums. -DP_<property>
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "common/json.hpp"
#include "common/cbor.hpp"
#include "common/io.hpp"
#include "common/classes.hpp"
using namespace ty;

// names around the size of the buffer for them
#define S8(C) C C C C C C C C
#define L63 "long " S8("length ") "63"
namespace lc {
struct N { int f0 = 0, f1 = 0, f2 = 0, f3 = 0, f4 = 0, f5 = 0, f6 = 0, f7 = 0; int at(std::size_t k) const { return (const int[]){f0, f1, f2, f3, f4, f5, f6, f7}[k]; } };
enum class E { e0, e1, e2, e3, e4, e5, e6, e7 };
inline constexpr const char* names[] = {"a", "seven_7", "eight_88", "nine_9999", L63 "", L63 "+", L63 "+-", L63 "++++-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-"};
static_assert(sizeof(L63 "") == 64, "the name has 63 characters");
}
#define LN(M, X, ...) M(X##_NAME, "a", 0), M(X##_NAME, "seven_7", 1), M(X##_NAME, "eight_88", 2), M(X##_NAME, "nine_9999", 3), M(X##_NAME, L63 "", 4), M(X##_NAME, L63 "+", 5), M(X##_NAME, L63 "+-", 6), M(X##_NAME, L63 "++++-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-", 7)
#define LF(X, S, I) X(S, f##I)
#define LE(X, S, I) X(S, e##I)
#if defined(P_J11)
CXON_JSON_CLS(lc::N, LN(LF, CXON_JSON_CLS_FIELD))
CXON_JSON_ENM(lc::E, LN(LE, CXON_JSON_ENM_VALUE))
#else
CXON_CBOR_CLS(lc::N, LN(LF, CXON_CBOR_CLS_FIELD))
#endif

template <class T> inline constexpr bool isc = bound<T>;
template <class T> static bool scalars() { if constexpr (bound<T>) return Cls<T>::scalars; return false; }
template <class T> static bool skips() { if constexpr (bound<T>) return Cls<T>::skips; return true; }
template <class T> static void init(Src& s, T& a, T& x) { // the same members, before reading
    if constexpr (bound<T>) if constexpr (Cls<T>::scalars) if (s.coin()) { V<T>::gen(s, a); x = a; }
    (void)s; (void)a; (void)x;
}

#if defined(P_J11)
using JX = cxon::JSON<>;
struct Rep : cxon::json::format_traits { static constexpr bool assume_unique_object_keys = false; };
using JR = cxon::JSON<Rep>;

// a subset of the members and the skipped ones
template <class T> static void vary(J& j, Src& s) {
    if constexpr (bound<T>) {
        for (std::size_t i = j.o.size(); i-- > 0; ) if (s.chance(1, 6)) j.o.erase(j.o.begin() + long(i)), j.okey.erase(j.okey.begin() + long(i));
        for (auto& f : Cls<T>::fields()) if (f.skip && s.coin()) {
            std::size_t const p = s.below(j.o.size() + 1);
            j.o.insert(j.o.begin() + long(p), jref::Ent{name(f.name), jref::gen_doc(s, 4, false)}); j.okey.insert(j.okey.begin() + long(p), char(0)); s.label("skipped");
        }
    }
}
template <class T> static void out(Src& s) {
    Box<T> b; ty::gen(s, b.v);
    std::string t; auto const r = io::write<JX>(t, b.v);
    CHECK(r.ok, "write", "writing failed: ", io::msg(r), ", got ", quote(t));
    J g; const char* err = nullptr; CHECK(jref::parse(t, g, &err) && jref::compact(t), "grammar", "not a compact JSON document (", err ? err : "", "): ", quote(t));
    std::string why; CHECK(jref::match(V<T>::toj(b.v), g, why), "value", "the document denotes another value (", why, "): ", quote(t));
    Box<T> a; auto const r2 = io::read<JX>(a.v, t);
    CHECK(r2.ok && r2.end == long(t.size()), "reject", "own output is rejected: ", io::msg(r2), " at ", r2.end, " in ", quote(t));
    CHECK(ty::eq(a.v, b.v), "restored", "another value is restored from ", quote(t));
    s.show(quote(t)); s.nontrivial(t.size() > 4); s.label("written");
}
template <class X, class T> static void expect(Src& s, const std::string& t, std::size_t n, Tri want, T& a, T& x) {
    auto const r = io::read<X>(a, t);
    CHECK(r.end >= 0 && r.end <= long(t.size()), "position", "end is out of the input: ", r.end);
    if (want == yes) {
        CHECK(r.ok, "reject", "lawful for the type but rejected: ", io::msg(r), " at ", r.end, " in ", quote(t));
        CHECK(r.end == long(n), "end", "ends at ", r.end, " expected ", n, " in ", quote(t));
        CHECK(ty::eq(a, x), "value", "another value: ", quote(jref::plain(V<T>::toj(a))), " expected ", quote(jref::plain(V<T>::toj(x))), " from ", quote(t));
        s.label("accepted");
    }
    else if (want == no) { CHECK(!r.ok, "accept", "not a value of the type but accepted: ", quote(t), " as ", quote(jref::plain(V<T>::toj(a)))); s.label("rejected"); }
    s.show(quote(t)); s.nontrivial(want != unspec && t.size() > 4);
}
template <class T> static jref::Style style(Src& s) { jref::Style st; st.shuffle = true; if (s.chance(1, 6)) st.ws = false; if (s.chance(1, 6)) st.esc = false; return st; }
template <class T> static void in(Src& s) {
    Box<T> b; ty::gen(s, b.v); J j = V<T>::toj(b.v); vary<T>(j, s);
    std::string t = jref::render(j, s, style<T>(s)); std::size_t const n = t.size();
    static const char* suf[] = {"", "", ",", "]", "}", " ", "\n1", "\"x", " \xff", ":", "\t"}; std::string const sx = t; t += s.pick(suf);
    Box<T> a, x; init(s, a.v, x.v);
    J g; std::size_t gn; CHECK(jref::parse_prefix(sx, g, gn) && gn == n, "harness", "the printer is wrong: ", quote(t));
    Tri const want = V<T>::fromj(g, x.v); CHECK(want == yes, "harness", "the model is not lawful: ", quote(t));
    expect<JX>(s, t, n, want, a.v, x.v);
}
// almost right documents
static void members(J& j, std::vector<J*>& v) { v.push_back(&j); for (auto& x : j.a) members(x, v); for (auto& x : j.o) members(x.second, v); }
static J near(J j, Src& s) {
    std::vector<J*> all; members(j, all); J& x = *all[s.coin() ? 0 : s.below(all.size())];
    if (x.k == J::object && !x.o.empty()) {
        std::size_t const i = s.below(x.o.size()); U& k = x.o[i].first;
        switch (s.draw(8)) {
            case 0: { J v = s.coin() ? x.o[i].second : jref::gen_doc(s, 1); U const c = k; x.add(c, v); break; }                           // repeated
            case 1: if (k.empty() || s.coin()) k += s.coin() ? U"abces0123_ "[s.draw(11)] : uni::gen_cp(s); else k.pop_back(); break;     // another name
            case 2: x.add(uni::gen(s, 3), jref::gen_doc(s, 2)); break;
            case 3: { static const char* K[] = {"s", "t", "skip me", "a", "b", "c", "d", "", "ab", "abc", "A", "e", "B", "opt", "o"}; x.add(name(s.pick(K)), jref::gen_doc(s, 2)); break; }
            case 4: x.o[i].second = jref::gen_doc(s, 2); break;
            case 5: { std::size_t l = s.draw(140); k.clear(); while (l--) k += U'k'; break; }
            case 6: x.o.erase(x.o.begin() + long(i)); x.okey.erase(x.okey.begin() + long(i)); break;
            default: { J a = J::A(); for (auto& e : x.o) a.a.push_back(e.second); x = a; }
        }
    }
    else if (x.k == J::string) { if (x.s.empty() || s.coin()) x.s += s.coin() ? U"abcs0123 "[s.draw(9)] : uni::gen_cp(s); else x.s.pop_back(); }
    else if (s.coin()) { J y = jref::gen_doc(s, 2); x = y; }
    else { J y = J::A(); y.a.push_back(x); x = y; }
    return j;
}
template <class T> static void typed(Src& s) {
    Box<T> b; ty::gen(s, b.v); J j = V<T>::toj(b.v); vary<T>(j, s);
    for (u64 n = 1 + s.draw(3); n--; ) j = near(j, s);
    if (std::is_same_v<T, bc::P5>) s.noleak = true; // pointers are members: repeated in maps
    std::string t = jref::render(j, s, style<T>(s)); std::size_t n;
    J g; if (!jref::parse_prefix(t, g, n) || n != t.size()) return;
    Box<T> a, x; init(s, a.v, x.v);
    expect<JX>(s, t, n, V<T>::fromj(g, x.v), a.v, x.v);
}
// repeated members with the option off: the last one counts
template <class T> static void repeat(Src& s) {
    if constexpr (bound<T>) if constexpr (Cls<T>::scalars) {
        Box<T> x, a; init(s, a.v, x.v);
        J j = J::O();
        for (u64 n = s.draw(8); n--; ) {
            auto& f = s.pick(Cls<T>::fields()); f.gen(s, x.v);
            j.add(name(f.name), f.toj(x.v));
        }
        jref::Style st = style<T>(s); st.shuffle = false;
        std::string t = jref::render(j, s, st);
        s.label("repeated"); expect<JR>(s, t, t.size(), yes, a.v, x.v); return;
    }
    in<T>(s);
}
// syntax: texts around the class
template <class T> static void syntax(Src& s) {
    Box<T> b; ty::gen(s, b.v); J j = V<T>::toj(b.v); vary<T>(j, s);
    jref::Style st = style<T>(s); if (s.coin()) st.ws = false;
    std::string t = jref::render(j, s, st);
    switch (s.draw(3)) {
        case 0: t.resize(s.below(t.size() + 1)); break;
        case 1: { static const char C[] = "{}[],:\"\\ \n0a-.=\x01\xff"; std::size_t const p = s.below(t.size() + 1); s.coin() && p < t.size() ? t[p] = C[s.draw(17)] : *t.insert(t.begin() + long(p), C[s.draw(17)]); break; }
        default: if (!t.empty()) t.erase(s.below(t.size()), 1);
    }
    std::size_t n; J g; bool const ok = jref::parse_prefix(t, g, n);
    Box<T> a, x; init(s, a.v, x.v);
    Tri const want = ok ? V<T>::fromj(g, x.v) : skips<T>() || jref::lax_numbers(t) ? unspec : no; // the contents of skipped members are only delimited
    expect<JX>(s, t, n, want == pre ? unspec : want, a.v, x.v);
    s.label(ok ? "syntax: still a document" : "syntax: broken");
}
template <class T> static void prop(Src& s) {
    switch (s.draw(8)) { case 0: return out<T>(s); case 1: case 2: return in<T>(s); case 3: case 4: case 5: return typed<T>(s); case 6: return repeat<T>(s); default: return syntax<T>(s); }
}
template <class E> static void unbound(Src& s, E e) {
    std::string t; auto const r = io::write<JX>(t, e); CHECK(!r.ok && r.ec == cxon::json::write_error::argument_invalid, "unbound", "an unbound enumerator is written as ", quote(t));
    s.nontrivial();
}
#endif

#if defined(P_C06)
using CX = cxon::CBOR<>;
template <class T> static void vary(C& c, Src& s) {
    if constexpr (bound<T>) {
        for (std::size_t i = c.a.size(); i > 0; i -= 2) if (s.chance(1, 6)) c.a.erase(c.a.begin() + long(i - 2), c.a.begin() + long(i));
        for (auto& f : Cls<T>::fields()) if (f.skip && s.coin()) {
            C v = cref::gen(s, 4); while (v.k == C::tag) { C w = v.a[0]; v = w; } // a known finding: tags of skipped members
            std::size_t const p = 2 * s.below(c.a.size() / 2 + 1); c.a.insert(c.a.begin() + long(p), v); c.a.insert(c.a.begin() + long(p), C::T(f.name)); s.label("skipped");
        }
        for (std::size_t i = 0; i < c.a.size(); i += 2) if (s.coin() && !c.a[i].s.empty() && c.a[i].s.back() == 0) c.a[i].s.pop_back(); // the terminator is optional
    }
}
template <class T> static cref::Style style() { cref::Style st; st.shuffle = true; if (skips<T>()) st.tags = 0; return st; }
template <class T> static void out(Src& s) {
    Box<T> b; ty::gen(s, b.v);
    std::string t; auto const r = io::write<CX>(t, b.v);
    CHECK(r.ok, "write", "writing failed: ", io::msg(r), ", got ", hex(t));
    C g; std::size_t n; bool minimal = false, definite = false; CHECK(cref::decode(t, g, n, nullptr, &minimal, &definite) && n == t.size() && minimal && definite, "wellformed", "not one well-formed item of the shortest form: ", hex(t));
    CHECK(cref::like(V<T>::toc(b.v), g), "value", "another value: ", cref::diag(g), " expected ", cref::diag(V<T>::toc(b.v)));
    Box<T> a; auto const r2 = io::read<CX>(a.v, t);
    CHECK(r2.ok && r2.end == long(t.size()), "reject", "own output is rejected: ", io::msg(r2), " at ", r2.end, " in ", hex(t));
    CHECK(ty::eq(a.v, b.v), "restored", "another value is restored from ", hex(t));
    s.show(hex(t)); s.nontrivial(t.size() > 2); s.label("written");
}
template <class T> static void expect(Src& s, const std::string& t, std::size_t n, Tri want, T& a, T& x, const C& g) {
    auto const r = io::read<CX>(a, t);
    CHECK(r.end >= 0 && r.end <= long(t.size()), "position", "end is out of the input: ", r.end);
    if (want == yes) {
        CHECK(r.ok, "reject", "lawful for the type but rejected: ", io::msg(r), " at ", r.end, " in ", hex(t), " ", cref::diag(g));
        CHECK(r.end == long(n), "end", "ends at ", r.end, " expected ", n, " in ", hex(t), " ", cref::diag(g));
        CHECK(ty::eq(a, x), "value", "another value: ", cref::diag(V<T>::toc(a)), " expected ", cref::diag(V<T>::toc(x)), " from ", hex(t), " ", cref::diag(g));
        s.label("accepted");
    }
    else if (want == no) { CHECK(!r.ok, "accept", "not a value of the type but accepted: ", hex(t), " ", cref::diag(g), " as ", cref::diag(V<T>::toc(a))); s.label("rejected"); }
    s.show(hex(t)); s.nontrivial(want != unspec && t.size() > 2);
}
template <class T> static void in(Src& s) {
    Box<T> b; ty::gen(s, b.v); C c = V<T>::toc(b.v); vary<T>(c, s);
    std::string t = cref::lawful(c, s, style<T>()); std::size_t const n = t.size();
    C g; std::size_t gn; CHECK(cref::decode(t, g, gn) && gn == n, "harness", "the encoder is wrong: ", hex(t));
    for (u64 k = s.draw(3); k--; ) t += char(s.coin() ? 0xFF : s.draw(256));
    Box<T> a, x; init(s, a.v, x.v);
    Tri const want = V<T>::fromc(g, x.v); CHECK(want == yes, "harness", "the model is not lawful: ", cref::diag(g));
    expect(s, t, n, want, a.v, x.v, g);
}
static void maps(C& c, std::vector<C*>& v) { if (c.k == C::map) v.push_back(&c); for (auto& x : c.a) maps(x, v); }
static C near(C c, Src& s) {
    std::vector<C*> all; maps(c, all); if (all.empty() || s.chance(1, 3)) return cref::mutate_model(c, s);
    C& x = *all[s.coin() ? 0 : s.below(all.size())]; std::size_t const i = x.a.empty() ? 0 : 2 * s.below(x.a.size() / 2);
    static const char* K[] = {"s", "t", "skip me", "a", "b", "c", "d", "", "ab", "abc", "A", "e", "B", "opt", "o"};
    if (x.a.empty()) { x.a.push_back(C::T(s.pick(K))); x.a.push_back(cref::gen(s, 1, false)); return c; }
    C k = x.a[i], v = x.a[i + 1];
    switch (s.draw(8)) {
        case 0: x.a.push_back(k); x.a.push_back(s.coin() ? v : cref::gen(s, 1, false)); break;
        case 1: { auto& n = x.a[i].s; bool const z = !n.empty() && n.back() == 0; if (z) n.pop_back(); if (n.empty() || s.coin()) n += "abces0123_ "[s.draw(11)]; else n.pop_back(); if (z) n += '\0'; break; }
        case 2: x.a.push_back(C::T(uni::to8(uni::gen(s, 3)))); x.a.push_back(cref::gen(s, 2, false)); break;
        case 3: x.a.push_back(C::T(s.pick(K))); x.a.push_back(cref::gen(s, 2, false)); break;
        case 4: x.a[i + 1] = cref::gen(s, 2, false); break;
        case 5: x.a[i].s.assign(s.draw(140), 'k'); break;
        case 6: x.a.erase(x.a.begin() + long(i), x.a.begin() + long(i + 2)); break;
        default: x.a[i] = C::I(s.range(-30, 30));
    }
    return c;
}
template <class T> static void typed(Src& s) {
    Box<T> b; ty::gen(s, b.v); C c = V<T>::toc(b.v); vary<T>(c, s);
    for (u64 n = 1 + s.draw(3); n--; ) c = near(c, s);
    if (std::is_same_v<T, bc::P5>) s.noleak = true;
    std::string t = cref::lawful(c, s, style<T>()); std::size_t n; C g; bool lax = false;
    CHECK(cref::decode(t, g, n, nullptr, nullptr, nullptr, &lax) && n == t.size(), "harness", "the encoder is wrong: ", hex(t));
    Box<T> a, x; init(s, a.v, x.v);
    Tri const want = lax ? unspec : V<T>::fromc(g, x.v);
    expect(s, t, n, want, a.v, x.v, g);
}
template <class T> static void broken(Src& s) { // truncated or with changed bytes
    Box<T> b; ty::gen(s, b.v); C c = V<T>::toc(b.v); vary<T>(c, s);
    std::string t = cref::lawful(c, s, style<T>());
    bool const cut = s.coin(); if (cut) t.resize(s.below(t.size())); else t = cref::mutate(t, s, 1);
    std::size_t n; C g; bool lax = false; bool const ok = cref::decode(t, g, n, nullptr, nullptr, nullptr, &lax);
    Box<T> a, x; init(s, a.v, x.v);
    Tri const want = lax ? unspec : ok ? V<T>::fromc(g, x.v) : !cut && skips<T>() ? unspec : no; // chunks of skipped strings are not validated
    if (std::is_same_v<T, bc::P5>) s.noleak = true;
    expect(s, t, n, want, a.v, x.v, g);
    s.label(cut ? "truncated" : ok ? "bytes: still an item" : "bytes: broken");
}
template <class T> static void prop(Src& s) {
    switch (s.draw(8)) { case 0: return out<T>(s); case 1: case 2: case 3: return in<T>(s); case 4: case 5: return typed<T>(s); default: return broken<T>(s); }
}
template <class E> static void unbound(Src& s, E e) {
    std::string t; auto const r = io::write<CX>(t, e); CHECK(!r.ok && r.ec == cxon::cbor::write_error::argument_invalid, "unbound", "an unbound enumerator is written as ", hex(t));
    s.nontrivial();
}
static Reg f1("finding: tagged skipped member", [](Src&) {
    bc::P4 p; auto const r = io::read<CX>(p, std::string("\xA2\x61s\xC1\x01\x61" "a\x02", 8));
    CHECK(r.ok && p.a == 2, "reject", "{\"s\": 1(1), \"a\": 2} is not read by a class that skips s");
}, 0);
#endif

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define REG(...) static Reg CAT(r_, __COUNTER__)(#__VA_ARGS__, &prop<__VA_ARGS__>);
TYPES_CLS(REG)
static Reg u1("unbound", [](Src& s) { switch (s.draw(4)) { case 0: return unbound(s, bc::Em::none); case 1: return unbound(s, bc::El::un); case 2: { int n = int(s.range(2000, 100000)); return unbound(s, bc::Em(n)); } default: { unsigned n = 25 + unsigned(s.draw(200)); return unbound(s, bc::Es(n)); } } });

template <unsigned L> static void names(Src& s) {
    std::size_t const k = s.draw(8); std::string const name = lc::names[k]; int const v = int(s.range(-1000, 1000)); int const form = int(s.draw(3));
    bool good = true; std::string t; io::R r; lc::N n;
#   if defined(P_J11)
    namespace np = cxon::json;
    auto read = [&](auto& x) { return L == 64 && form == 0 ? io::read<JX>(x, t) : form == 0 ? io::read<JX>(x, t, np::ids_len_max::set<L>()) : form == 1 ? io::read_fwd<JX>(x, t, np::ids_len_max::set<L>()) : io::read_in<JX>(x, t, np::ids_len_max::set<L>()); };
    good = name.size() <= L;
    if (s.coin()) {
        t = "\"" + name + "\""; lc::E e = lc::E(9); r = read(e); s.show(t); s.nontrivial();
        CHECK(r.ok == good, "name", quote(t), r.ok ? " is read" : " is rejected", " with names of at most ", L);
        if (good) CHECK(int(e) == int(k), "name", quote(t), " is read as enumerator ", int(e));
        return;
    }
    std::string const m = "\"" + name + "\":" + std::to_string(v); std::size_t const h = s.draw(4);
    t = s.coin() ? "{" + m + "}" : L < 1 || h == k ? "{" + m + "}" : s.coin() ? "{\"" + std::string(lc::names[h]) + "\":7," + m + "}" : "{" + m + ",\"" + lc::names[h] + "\":7}";
    if (t.find(lc::names[h]) != std::string::npos && t.find(":7") != std::string::npos && h != k) { if (std::strlen(lc::names[h]) > L) good = false; }
    r = read(n);
#   else
    namespace np = cxon::cbor;
    bool const z = s.coin(); good = name.size() + z <= L;
    t = "\xA1"; cref::head(t, 3, name.size() + z, 1); t += name; if (z) t += '\0'; t += cref::shortest(C::I(v));
    auto read = [&](auto& x) { return L == 64 && form == 0 ? io::read<CX>(x, t) : form == 0 ? io::read<CX>(x, t, np::ids_len_max::set<L>()) : form == 1 ? io::read_fwd<CX>(x, t, np::ids_len_max::set<L>()) : io::read_in<CX>(x, t, np::ids_len_max::set<L>()); };
    r = read(n);
#   endif
    s.show(quote(t)); s.nontrivial();
    CHECK(r.ok == good, "name", quote(t), r.ok ? " is read" : " is rejected", " with names of at most ", L);
    if (good) CHECK(n.at(k) == v, "name", quote(t), " is read as ", n.at(k));
}
static Reg n1("names 1", &names<1>), n8("names 8", &names<8>), n9("names 9", &names<9>), n64("names 64", &names<64>), n65("names 65", &names<65>), n200("names 200", &names<200>);
