// Classes and enums bound to JSON and CBOR, with models of their members.
#pragma once
#include "types.hpp"

namespace bc { // bound types

enum class Em { a, ab, abc, b = 10, esc = -5, sp = 1000000, none = 77, uni = 8 };                   // none is not bound
enum Es : unsigned char { es0, es1 = 23, es2 = 24, es3 = 255 };
enum class El : long long { lo = -9223372036854775807ll - 1, z = 0, m = -1, hi = 9223372036854775807ll, un = 5 };   // un is not bound

struct P1 { int a = 0; double b = 0; std::string c; bool d = false; };
struct P2 { int a = 0, ab = 0, abc = 0, b = 0, e = 0; short A = 0; };                                // names are prefixes of one another, and empty
struct P3 { int a = 0; std::string b; std::optional<int> c; std::vector<int> d; bool e = false; };  // defaults
struct P4 { int a = 0; std::string b; };                                                            // skipped members
struct P6b { unsigned x = 0; std::array<short, 2> y{}; };
class P6 : public P6b { // intrusive, inherited members
    Em e_ = Em::a; std::map<std::string, long> m_;
public:
    Em& e() { return e_; } const Em& e() const { return e_; } std::map<std::string, long>& m() { return m_; } const std::map<std::string, long>& m() const { return m_; }
    CXON_JSON_CLS_MEMBER(P6, CXON_JSON_CLS_FIELD_NAME("e", e_), CXON_JSON_CLS_FIELD_ASIS(x), CXON_JSON_CLS_FIELD_NAME_DFLT("map", m_, self.m_.empty()), CXON_JSON_CLS_FIELD_ASIS(y))
    CXON_CBOR_CLS_MEMBER(P6, CXON_CBOR_CLS_FIELD_NAME("e", e_), CXON_CBOR_CLS_FIELD_ASIS(x), CXON_CBOR_CLS_FIELD_NAME_DFLT("map", m_, self.m_.empty()), CXON_CBOR_CLS_FIELD_ASIS(y))
};
struct P7 { int a = 0, b = 0, c = 0, d = 0, e = 0; std::string f; };                                // names that need escapes
struct P8 { int f[30] = {}; };
struct W { int f00=0,f01=0,f02=0,f03=0,f04=0,f05=0,f06=0,f07=0,f08=0,f09=0,f10=0,f11=0,f12=0,f13=0,f14=0,f15=0,f16=0,f17=0,f18=0,f19=0,f20=0,f21=0,f22=0,f23=0,f24=0,f25=0; };
struct P9 { std::variant<int, std::string> v; std::tuple<int, Es> t{0, es0}; std::complex<double> z; char c = 0; Em m = Em::a; El l = El::z; float g = 0; std::array<bool, 3> bs{}; unsigned long long u = 0; signed char s = 0; };
struct P5 { P1 p; std::vector<P2> v; std::map<std::string, P4> m; std::optional<P3> o; std::unique_ptr<P5> n; std::map<Em, int> em; std::vector<Es> es; std::unique_ptr<P9> r; }; // nested

struct P0 { bool b = false; };                                                                    // a single byte

} // bc

CXON_JSON_ENM(bc::Em, CXON_JSON_ENM_VALUE_ASIS(a), CXON_JSON_ENM_VALUE_ASIS(ab), CXON_JSON_ENM_VALUE_ASIS(abc), CXON_JSON_ENM_VALUE_NAME("", b), CXON_JSON_ENM_VALUE_NAME("q\"\\\n\x01/", esc), CXON_JSON_ENM_VALUE_NAME("with space", sp), CXON_JSON_ENM_VALUE_NAME("\xD1\x8F\xF0\x9F\x8D\x8C", uni))
CXON_CBOR_ENM(bc::Em, CXON_CBOR_ENM_VALUE_NAME(0, a), CXON_CBOR_ENM_VALUE_NAME(23, ab), CXON_CBOR_ENM_VALUE_NAME(24, abc), CXON_CBOR_ENM_VALUE_NAME(256, b), CXON_CBOR_ENM_VALUE_NAME(-1, esc), CXON_CBOR_ENM_VALUE_NAME(-2147483647 - 1, sp), CXON_CBOR_ENM_VALUE_NAME(2147483647, uni))
CXON_JSON_ENM(bc::Es, CXON_JSON_ENM_VALUE_ASIS(es0), CXON_JSON_ENM_VALUE_ASIS(es1), CXON_JSON_ENM_VALUE_ASIS(es2), CXON_JSON_ENM_VALUE_ASIS(es3))
CXON_CBOR_ENM(bc::Es, CXON_CBOR_ENM_VALUE_NAME(0, es0), CXON_CBOR_ENM_VALUE_NAME(23, es1), CXON_CBOR_ENM_VALUE_NAME(24, es2), CXON_CBOR_ENM_VALUE_NAME(255, es3))
CXON_JSON_ENM(bc::El, CXON_JSON_ENM_VALUE_NAME("lowest value of all, a name with exactly sixty-three characters", lo), CXON_JSON_ENM_VALUE_ASIS(z), CXON_JSON_ENM_VALUE_ASIS(m), CXON_JSON_ENM_VALUE_ASIS(hi))
CXON_CBOR_ENM(bc::El, CXON_CBOR_ENM_VALUE_NAME(-9223372036854775807ll - 1, lo), CXON_CBOR_ENM_VALUE_NAME(0, z), CXON_CBOR_ENM_VALUE_NAME(-1, m), CXON_CBOR_ENM_VALUE_NAME(9223372036854775807ll, hi))

#define BOTH(T, X, ...) CXON_##X##_CLS(T, __VA_ARGS__)
#define F_(X, F) CXON_##X##_CLS_FIELD_ASIS(F)
#define N_(X, N, F) CXON_##X##_CLS_FIELD_NAME(N, F)
#define D_(X, F, ...) CXON_##X##_CLS_FIELD_ASIS_DFLT(F, __VA_ARGS__)
#define ND_(X, N, F, ...) CXON_##X##_CLS_FIELD_NAME_DFLT(N, F, __VA_ARGS__)
#define S_(X, N) CXON_##X##_CLS_FIELD_SKIP(N)
BOTH(bc::P0, JSON, F_(JSON, b))
BOTH(bc::P0, CBOR, F_(CBOR, b))
BOTH(bc::P1, JSON, F_(JSON, a), F_(JSON, b), F_(JSON, c), F_(JSON, d))
BOTH(bc::P1, CBOR, F_(CBOR, a), F_(CBOR, b), F_(CBOR, c), F_(CBOR, d))
BOTH(bc::P2, JSON, F_(JSON, abc), F_(JSON, a), F_(JSON, ab), N_(JSON, "", e), F_(JSON, b), F_(JSON, A))
BOTH(bc::P2, CBOR, F_(CBOR, abc), F_(CBOR, a), F_(CBOR, ab), N_(CBOR, "", e), F_(CBOR, b), F_(CBOR, A))
BOTH(bc::P3, JSON, D_(JSON, a, self.a == 0), ND_(JSON, "b.b", b, self.b.empty()), D_(JSON, c, !self.c), D_(JSON, d, self.d.empty()), D_(JSON, e, !self.e))
BOTH(bc::P3, CBOR, D_(CBOR, a, self.a == 0), ND_(CBOR, "b.b", b, self.b.empty()), D_(CBOR, c, !self.c), D_(CBOR, d, self.d.empty()), D_(CBOR, e, !self.e))
BOTH(bc::P4, JSON, S_(JSON, "s"), F_(JSON, a), S_(JSON, "skip me"), ND_(JSON, "b", b, self.b.empty()), S_(JSON, "t"))
BOTH(bc::P4, CBOR, S_(CBOR, "s"), F_(CBOR, a), S_(CBOR, "skip me"), ND_(CBOR, "b", b, self.b.empty()), S_(CBOR, "t"))
CXON_JSON_CLS_NONTRIVIAL_KEY(bc::P7)
BOTH(bc::P7, JSON, N_(JSON, "q\"q", a), N_(JSON, "\\", b), N_(JSON, "\x01\n\x1f/", c), N_(JSON, "\xD0\xBA\xD0\xBB\xD1\x8E\xD1\x87 \xF0\x9F\x8D\x8C", d), N_(JSON, "q", e), N_(JSON, "a name with exactly sixty-three characters, as many as can be..", f))
BOTH(bc::P7, CBOR, N_(CBOR, "q\"q", a), N_(CBOR, "\\", b), N_(CBOR, "\x01\n\x1f/", c), N_(CBOR, "\xD0\xBA\xD0\xBB\xD1\x8E\xD1\x87 \xF0\x9F\x8D\x8C", d), N_(CBOR, "q", e), N_(CBOR, "a name with exactly sixty-three characters, as many as can be..", f))
#define WF(X) F_(X, f00), F_(X, f01), F_(X, f02), F_(X, f03), F_(X, f04), F_(X, f05), F_(X, f06), F_(X, f07), F_(X, f08), F_(X, f09), F_(X, f10), F_(X, f11), F_(X, f12), F_(X, f13), F_(X, f14), F_(X, f15), F_(X, f16), F_(X, f17), F_(X, f18), F_(X, f19), F_(X, f20), F_(X, f21), F_(X, f22), F_(X, f23), F_(X, f24), D_(X, f25, self.f25 == 0)
BOTH(bc::W, JSON, WF(JSON))
BOTH(bc::W, CBOR, WF(CBOR))
#define P9F(X) F_(X, v), F_(X, t), F_(X, z), F_(X, c), F_(X, m), F_(X, l), F_(X, g), F_(X, bs), F_(X, u), F_(X, s)
BOTH(bc::P9, JSON, P9F(JSON))
BOTH(bc::P9, CBOR, P9F(CBOR))
#define P5F(X) F_(X, p), F_(X, v), F_(X, m), ND_(X, "opt", o, !self.o), F_(X, n), F_(X, em), F_(X, es), F_(X, r)
BOTH(bc::P5, JSON, P5F(JSON))
BOTH(bc::P5, CBOR, P5F(CBOR))

namespace ty {

// a bound member: how it is written, read, generated and compared
template <class T> struct Fd {
    std::string name; bool skip;
    J (*toj)(const T&); C (*toc)(const T&); Tri (*fromj)(const J&, T&); Tri (*fromc)(const C&, T&);
    void (*gen)(Src&, T&); bool (*eq)(const T&, const T&); void (*fini)(T&); bool (*dflt)(const T&);
};
template <class T, class G> struct Fm { // G: static auto& get(T&)
    template <class X> static auto& at(X& t) { return G::get(const_cast<T&>(t)); }
    using M = std::remove_reference_t<decltype(G::get(std::declval<T&>()))>;
    static J toj(const T& t) { return V<M>::toj(at(t)); } static C toc(const T& t) { return V<M>::toc(at(t)); }
    static Tri fromj(const J& j, T& t) { return elem(V<M>::fromj(j, at(t))); } static Tri fromc(const C& c, T& t) { return V<M>::fromc(c, at(t)); }
    static void gen(Src& s, T& t) { V<M>::gen(s, at(t)); } static bool eq(const T& a, const T& b) { return V<M>::eq(at(a), at(b)); } static void fini(T& t) { V<M>::fini(at(t)); }
    static Fd<T> make(std::string n, bool (*d)(const T&) = [](const T&) { return false; }) { return {n, false, toj, toc, fromj, fromc, gen, eq, fini, d}; }
};
template <class T> inline Fd<T> skip(std::string n) {
    return {n, true, nullptr, nullptr, [](const J&, T&) { return yes; }, [](const C& c, T&) { return c.k == C::tag ? unspec : yes; /* a known finding */ }, [](Src&, T&) {}, [](const T&, const T&) { return true; }, [](T&) {}, nullptr};
}
template <class T> struct Cls; // static const std::vector<Fd<T>>& fields(); escapes in keys; scalars only
template <class T> concept bound = requires { Cls<T>::fields(); };
struct ClsBase { static constexpr bool scalars = false, skips = false; };
#define FD(F) [] { struct G { static auto& get(Self& t) { return t.F; } }; return Fm<Self, G>::make(#F); }()
#define FDN(N, F) [] { struct G { static auto& get(Self& t) { return t.F; } }; return Fm<Self, G>::make(N); }()
#define FDD(N, F, ...) [] { struct G { static auto& get(Self& t) { return t.F; } }; return Fm<Self, G>::make(N, [](const Self& self) { return bool(__VA_ARGS__); }); }()
#define CLS(T, ...) { using Self = T; static const std::vector<Fd<T>>& fields() { static const std::vector<Fd<T>> f = {__VA_ARGS__}; return f; }
template <> struct Cls<bc::P0> : ClsBase CLS(bc::P0, FD(b)) };
template <> struct Cls<bc::P1> : ClsBase CLS(bc::P1, FD(a), FD(b), FD(c), FD(d)) };
template <> struct Cls<bc::P2> : ClsBase CLS(bc::P2, FD(abc), FD(a), FD(ab), FDN("", e), FD(b), FD(A)) static constexpr bool scalars = true; };
template <> struct Cls<bc::P3> : ClsBase CLS(bc::P3, FDD("a", a, self.a == 0), FDD("b.b", b, self.b.empty()), FDD("c", c, !self.c), FDD("d", d, self.d.empty()), FDD("e", e, !self.e)) };
template <> struct Cls<bc::P4> : ClsBase CLS(bc::P4, skip<bc::P4>("s"), FD(a), skip<bc::P4>("skip me"), FDD("b", b, self.b.empty()), skip<bc::P4>("t")) static constexpr bool skips = true; };
template <> struct Cls<bc::P6> : ClsBase CLS(bc::P6, FDN("e", e()), FD(x), FDD("map", m(), self.m().empty()), FD(y)) };
template <> struct Cls<bc::P7> : ClsBase CLS(bc::P7, FDN("q\"q", a), FDN("\\", b), FDN("\x01\n\x1f/", c), FDN("\xD0\xBA\xD0\xBB\xD1\x8E\xD1\x87 \xF0\x9F\x8D\x8C", d), FDN("q", e), FDN("a name with exactly sixty-three characters, as many as can be..", f)) };
template <> struct Cls<bc::W> : ClsBase CLS(bc::W, FD(f00), FD(f01), FD(f02), FD(f03), FD(f04), FD(f05), FD(f06), FD(f07), FD(f08), FD(f09), FD(f10), FD(f11), FD(f12), FD(f13), FD(f14), FD(f15), FD(f16), FD(f17), FD(f18), FD(f19), FD(f20), FD(f21), FD(f22), FD(f23), FD(f24), FDD("f25", f25, self.f25 == 0)) static constexpr bool scalars = true; };
template <> struct Cls<bc::P9> : ClsBase CLS(bc::P9, FD(v), FD(t), FD(z), FD(c), FD(m), FD(l), FD(g), FD(bs), FD(u), FD(s)) static constexpr bool scalars = true; };
template <> struct Cls<bc::P5> : ClsBase CLS(bc::P5, FD(p), FD(v), FD(m), FDD("opt", o, !self.o), FD(n), FD(em), FD(es), FD(r)) static constexpr bool skips = true; };

inline U name(const std::string& n) { U u; uni::from8(n, u); return u; }
template <bound T> struct V<T> {
    using B = Cls<T>; static constexpr bool det = true;
    static void gen(Src& s, T& t) { if (s.budget <= 0) return; s.budget -= 3; for (auto& f : B::fields()) f.gen(s, t); }
    static bool eq(const T& a, const T& b) { for (auto& f : B::fields()) if (!f.eq(a, b)) return false; return true; }
    static void fini(T& t) { for (auto& f : B::fields()) f.fini(t); }
    static J toj(const T& t) { J j = J::O(); for (auto& f : B::fields()) if (!f.skip && !f.dflt(t)) j.add(name(f.name), f.toj(t)); return j; }
    static C toc(const T& t) { C c = C::M(); for (auto& f : B::fields()) if (!f.skip && !f.dflt(t)) c.a.push_back(C::T(f.name + '\0')), c.a.push_back(f.toc(t)); return c; } // the names are C strings
    static Tri fromj(const J& j, T& t) {
        if (j.k != J::object) return no;
        Tri r = yes; std::vector<char> seen(B::fields().size());
        for (auto& x : j.o) {
            std::size_t n = 0; while (n < seen.size() && name(B::fields()[n].name) != x.first) ++n;
            if (n == seen.size()) { bool nul = false; for (auto c : x.first) nul = nul || c == 0; if (nul) { r = both(r, unspec); continue; } return no; }
            if (seen[n]) return no;
            seen[n] = 1; r = both(r, B::fields()[n].fromj(x.second, t)); if (r == no) return no;
        }
        return r;
    }
    static Tri fromc(const C& c0, T& t) {
        C const& c = cref::untag(c0); if (c.k != C::map) return no;
        Tri r = yes; std::vector<char> seen(B::fields().size());
        for (std::size_t i = 0; i < c.a.size(); i += 2) {
            C const& k = cref::untag(c.a[i]); if (k.k == C::bytes || k.k == C::array) { r = unspec; continue; } // strings as bytes and arrays
            if (k.k != C::text) return no;
            std::string id = k.s; if (!id.empty() && id.back() == 0) id.pop_back();
            if (id.find('\0') != std::string::npos) { r = unspec; continue; }
            std::size_t n = 0; while (n < seen.size() && B::fields()[n].name != id) ++n;
            if (n == seen.size() || seen[n]) return r == unspec ? unspec : no;
            seen[n] = 1; r = both(r, B::fields()[n].fromc(c.a[i + 1], t)); if (r == no) return no;
        }
        return r;
    }
};
// enums
template <class E> struct EnV { E e; const char* n; std::size_t len; long long alias; };
template <class E> struct En;
template <> struct En<bc::Em> { using T = bc::Em; static constexpr EnV<T> v[] = {{T::a, "a", 1, 0}, {T::ab, "ab", 2, 23}, {T::abc, "abc", 3, 24}, {T::b, "", 0, 256}, {T::esc, "q\"\\\n\x01/", 6, -1}, {T::sp, "with space", 10, -2147483648ll}, {T::uni, "\xD1\x8F\xF0\x9F\x8D\x8C", 6, 2147483647}}; };
template <> struct En<bc::Es> { using T = bc::Es; static constexpr EnV<T> v[] = {{bc::es0, "es0", 3, 0}, {bc::es1, "es1", 3, 23}, {bc::es2, "es2", 3, 24}, {bc::es3, "es3", 3, 255}}; };
template <> struct En<bc::El> { using T = bc::El; static constexpr EnV<T> v[] = {{T::lo, "lowest value of all, a name with exactly sixty-three characters", 63, -9223372036854775807ll - 1}, {T::z, "z", 1, 0}, {T::m, "m", 1, -1}, {T::hi, "hi", 2, 9223372036854775807ll}}; };
template <class E> requires std::is_enum_v<E> struct V<E> : Plain {
    static const EnV<E>& of(E e) { for (auto& x : En<E>::v) if (x.e == e) return x; return En<E>::v[0]; }
    static U text(const EnV<E>& x) { return name(std::string(x.n, x.len)); }
    static void gen(Src& s, E& e) { e = s.pick(En<E>::v).e; }
    static bool eq(E a, E b) { return a == b; }
    static J toj(E e) { return J::S(text(of(e))); }
    static C toc(E e) { return C::I(of(e).alias); }
    static Tri fromj(const J& j, E& e) { return j.k != J::string ? no : fromkey(j.s, e); }
    static Tri fromc(const C& c, E& e) {
        C const& x = cref::untag(c); if (x.k != C::uint && x.k != C::nint) return no;
        for (auto& v : En<E>::v) if (cref::same(C::I(v.alias), x)) return e = v.e, yes;
        return no;
    }
    static void tokey(E e, U& u, char&) { u = text(of(e)); }
    static Tri fromkey(const U& u, E& e) { for (auto& v : En<E>::v) if (text(v) == u) return e = v.e, yes; for (auto c : u) if (!c) return unspec; return no; }
};

using t_vp3 = std::vector<bc::P3>; using t_mem = std::map<bc::Em, bc::P1>; using t_vem = std::vector<bc::Em>; using t_mes = std::map<bc::Es, short>; using t_vp0 = std::vector<bc::P0>; using t_les = std::list<bc::Es>; using t_aes = std::array<bc::Es, 3>;
#define TYPES_CLS(X) X(bc::Em) X(bc::Es) X(bc::El) X(bc::P1) X(bc::P2) X(bc::P3) X(bc::P4) X(bc::P6) X(bc::P7) X(bc::W) X(bc::P9) X(bc::P5) X(t_vp3) X(t_mem) X(t_vem) X(t_mes) X(t_vp0) X(t_les) X(t_aes)

} // ty
