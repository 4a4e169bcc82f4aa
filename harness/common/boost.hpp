// Boost types: each is decided as the std type that holds the same value.
#pragma once
#include "types.hpp"
#include "cxon/lib/boost/dynamic_bitset.hxx"
#include "cxon/lib/boost/variant.hxx"
#include "cxon/lib/boost/variant2.hxx"
#include "cxon/lib/boost/container/deque.hxx"
#include "cxon/lib/boost/container/flat_map.hxx"
#include "cxon/lib/boost/container/flat_set.hxx"
#include "cxon/lib/boost/container/list.hxx"
#include "cxon/lib/boost/container/map.hxx"
#include "cxon/lib/boost/container/set.hxx"
#include "cxon/lib/boost/container/slist.hxx"
#include "cxon/lib/boost/container/small_vector.hxx"
#include "cxon/lib/boost/container/stable_vector.hxx"
#include "cxon/lib/boost/container/static_vector.hxx"
#include "cxon/lib/boost/container/string.hxx"

namespace ty {

namespace bc = boost::container; namespace b2 = boost::variant2;

// X: to(const Q&) -> D, from(D&&, Q&)
template <class Q, class D, class X> struct Via {
    static constexpr bool det = V<D>::det;
    static void gen(Src& s, Q& q) { Box<D> d; V<D>::gen(s, d.v); X::from(d.v, q); }
    static bool eq(const Q& a, const Q& b) { Box<D> x, y; X::to(a, x.v); X::to(b, y.v); return V<D>::eq(x.v, y.v); }
    static J toj(const Q& q) { Box<D> d; X::to(q, d.v); return V<D>::toj(d.v); }
    static C toc(const Q& q) { Box<D> d; X::to(q, d.v); return V<D>::toc(d.v); }
    static Tri fromj(const J& j, Q& q) { Box<D> d; Tri const r = V<D>::fromj(j, d.v); X::from(d.v, q); return r; }
    static Tri fromc(const C& c, Q& q) { Box<D> d; Tri const r = V<D>::fromc(c, d.v); X::from(d.v, q); return r; }
    static void tokey(const Q& q, U& u, char& c) requires keyed<D> { Box<D> d; X::to(q, d.v); V<D>::tokey(d.v, u, c); }
    static Tri fromkey(const U& u, Q& q) requires keyed<D> { Box<D> d; Tri const r = V<D>::fromkey(u, d.v); X::from(d.v, q); return r; }
    static void fini(Q&) {}
};
struct Copy {
    template <class Q, class D> static void to(const Q& q, D& d) { d = D(q.begin(), q.end()); }
    template <class D, class Q> static void from(D& d, Q& q) { q = Q(d.begin(), d.end()); }
};
struct CopyMap {
    template <class Q, class D> static void to(const Q& q, D& d) { d.clear(); for (auto& e : q) d.emplace(e.first, e.second); }
    template <class D, class Q> static void from(D& d, Q& q) { q.clear(); for (auto& e : d) q.emplace(e.first, e.second); }
};
template <class T> struct V<bc::basic_string<T>> : Via<bc::basic_string<T>, std::basic_string<T>, Copy> {};
template <class E> struct V<bc::deque<E>> : Via<bc::deque<E>, std::vector<E>, Copy> {};
template <class E> struct V<bc::list<E>> : Via<bc::list<E>, std::vector<E>, Copy> {};
template <class E> struct V<bc::slist<E>> : Via<bc::slist<E>, std::vector<E>, Copy> {};
template <class E> struct V<bc::stable_vector<E>> : Via<bc::stable_vector<E>, std::vector<E>, Copy> {};
template <class E, std::size_t N> struct V<bc::small_vector<E, N>> : Via<bc::small_vector<E, N>, std::vector<E>, Copy> {};
template <class E, std::size_t N> struct V<bc::static_vector<E, N>> : Via<bc::static_vector<E, N>, std::vector<E>, Copy> { // never more than N
    using Q = bc::static_vector<E, N>; using P = std::vector<E>;
    static void gen(Src& s, Q& q) { P p; V<P>::gen(s, p); while (p.size() < N && s.coin()) { p.emplace_back(); V<E>::gen(s, p.back()); } if (p.size() > N) p.resize(N); q.assign(p.begin(), p.end()); }
    static Tri cut(Tri r, P& p, Q& q) { if (p.size() > N) { p.resize(N); r = r == unspec ? unspec : no; } q.assign(p.begin(), p.end()); return r; }
    static Tri fromj(const J& j, Q& q) { if (j.k == J::array && j.a.size() > N) return no; P p; Tri const r = V<P>::fromj(j, p); return cut(r, p, q); }
    static Tri fromc(const C& c0, Q& q) { C const& c = cref::untag(c0); if ((c.k == C::array && c.a.size() > N) || ((c.k == C::bytes || c.k == C::text) && c.s.size() > N)) return no; P p; Tri const r = V<P>::fromc(c0, p); return cut(r, p, q); }
};
template <class E> struct V<bc::set<E>> : Via<bc::set<E>, std::set<E>, Copy> {};
template <class E> struct V<bc::multiset<E>> : Via<bc::multiset<E>, std::multiset<E>, Copy> {};
template <class E> struct V<bc::flat_set<E>> : Via<bc::flat_set<E>, std::set<E>, Copy> {};
template <class E> struct V<bc::flat_multiset<E>> : Via<bc::flat_multiset<E>, std::multiset<E>, Copy> {};
template <class K, class E> struct V<bc::map<K, E>> : Via<bc::map<K, E>, std::map<K, E>, CopyMap> {};
template <class K, class E> struct V<bc::multimap<K, E>> : Via<bc::multimap<K, E>, std::multimap<K, E>, CopyMap> {};
template <class K, class E> struct V<bc::flat_map<K, E>> : Via<bc::flat_map<K, E>, std::map<K, E>, CopyMap> {};
template <class K, class E> struct V<bc::flat_multimap<K, E>> : Via<bc::flat_multimap<K, E>, std::multimap<K, E>, CopyMap> {};

template <class B, class A> struct V<boost::dynamic_bitset<B, A>> : Plain {
    using Q = boost::dynamic_bitset<B, A>;
    static void gen(Src& s, Q& q) { std::size_t const n = s.chance(1, 3) ? s.below(20) : s.chance(1, 2) ? std::size_t(s.range(0, 300)) : sizeof(B) * 8 * s.draw(4) + s.draw(2); q.resize(n); switch (s.draw(4)) { case 0: break; case 1: q.set(); break; default: for (std::size_t i = 0; i < n; ++i) q[i] = s.coin(); } }
    static bool eq(const Q& a, const Q& b) { return a == b; }
    static J toj(const Q& q) { U u; for (std::size_t i = q.size(); i--; ) u += q[i] ? U'1' : U'0'; return J::S(u); }
    static C toc(const Q& q) {
        std::size_t const N = q.size(), M = (N + 7) / 8; std::string b(M + 1, '\0'); b[0] = char(M * 8 - N);
        for (std::size_t i = 0; i < N; ++i) if (q[i]) b[M - i / 8] = char(b[M - i / 8] | (1 << (i % 8)));
        return C::B(b);
    }
    static Tri fromj(const J& j, Q& q) {
        q.clear(); if (j.k != J::string) return no; q.resize(j.s.size());
        for (std::size_t i = 0; i < j.s.size(); ++i) { if (j.s[i] != U'0' && j.s[i] != U'1') return no; q[j.s.size() - 1 - i] = j.s[i] == U'1'; }
        return yes;
    }
    static Tri fromc(const C& c, Q& q) {
        q.clear(); C const& x = cref::untag(c); if (x.k != C::bytes || x.s.empty()) return no;
        unsigned const p = u8(x.s[0]); std::size_t const M = x.s.size() - 1; if (p > 7 || (p && !M)) return no;
        std::size_t const N = M * 8 - p; if (p && u8(x.s[1]) >> (8 - p)) return unspec; // padding bits
        q.resize(N); for (std::size_t i = 0; i < N; ++i) q[i] = (u8(x.s[M - i / 8]) >> (i % 8)) & 1;
        return yes;
    }
};

template <> struct V<b2::monostate> : Plain {
    static void gen(Src&, b2::monostate&) {}
    static bool eq(b2::monostate, b2::monostate) { return true; }
    static J toj(b2::monostate) { return J::N(); }
    static C toc(b2::monostate) { return C::S(23); }
    static Tri fromj(const J& j, b2::monostate&) { return j.k == J::null ? yes : no; }
    static Tri fromc(const C& c, b2::monostate&) { return cref::untag(c).k == C::simple && cref::untag(c).n == 23 ? yes : no; }
};
template <> inline constexpr int kinds<b2::monostate> = 1 << J::null;
template <class T> inline constexpr int kinds<bc::basic_string<T>> = 1 << J::string;
template <class T> inline constexpr int kinds<bc::deque<T>> = 1 << J::array;
template <class T> inline constexpr int kinds<bc::list<T>> = 1 << J::array;
template <class T, std::size_t N> inline constexpr int kinds<bc::small_vector<T, N>> = 1 << J::array;
template <class A, class B> inline constexpr int kinds<bc::map<A, B>> = 1 << J::object;
template <class A, class B> inline constexpr int kinds<bc::flat_map<A, B>> = 1 << J::object;
template <class ...E> struct Var1 {
    using D = std::variant<E...>;
    static void to(const boost::variant<E...>& q, D& d) { int const n = q.which(); V<D>::at(std::size_t(n), [&](auto i) { d.template emplace<i()>(boost::get<std::variant_alternative_t<i(), D>>(q)); }); }
    static void from(const D& d, boost::variant<E...>& q) { V<D>::at(d.index(), [&](auto i) { std::variant_alternative_t<i(), D> v = std::get<i()>(d); q = boost::variant<E...>(std::move(v)); }); }
};
template <class ...E> struct V<boost::variant<E...>> : Via<boost::variant<E...>, std::variant<E...>, Var1<E...>> {};
template <class ...E> struct Var2 {
    using D = std::variant<E...>;
    static void to(const b2::variant<E...>& q, D& d) { V<D>::at(q.index(), [&](auto i) { d.template emplace<i()>(b2::get<i()>(q)); }); }
    static void from(const D& d, b2::variant<E...>& q) { V<D>::at(d.index(), [&](auto i) { q.template emplace<i()>(std::get<i()>(d)); }); }
};
template <class ...E> struct V<b2::variant<E...>> : Via<b2::variant<E...>, std::variant<E...>, Var2<E...>> {};

using bstr = bc::string;
#define TYPES_GB(X) \
    X(bstr) X(t_bu16) X(t_bu32) X(t_bw) X(bc::deque<int>) X(t_b1) X(bc::list<str>) X(bc::list<double>) X(bc::slist<bool>) X(t_b2) X(bc::stable_vector<unsigned char>) X(bc::stable_vector<str>) \
    X(t_b3) X(t_b4) X(t_b5) X(t_b6) X(t_b7) X(t_b8) X(t_b9) X(t_b10) X(t_b11)
#define TYPES_GC(X) \
    X(bc::set<int>) X(bc::multiset<str>) X(bc::flat_set<str>) X(bc::flat_multiset<int>) X(bc::flat_set<double>) X(t_c1) X(t_c2) X(t_c3) X(t_c4) X(t_c5) X(t_c6) X(t_c7) X(t_c8) X(t_c9) \
    X(t_d1) X(t_d2) X(t_d3) X(t_e1) X(t_e2) X(t_e3) X(t_e4) X(t_e5) X(t_f1) X(t_f2) X(t_f3) X(t_f4) X(t_f5)
using t_bu16 = bc::basic_string<char16_t>; using t_bu32 = bc::basic_string<char32_t>; using t_bw = bc::wstring;
using t_b1 = bc::deque<bc::deque<std::string>>; using t_b2 = bc::slist<bc::string>; using t_b3 = bc::small_vector<int, 3>; using t_b4 = bc::small_vector<std::string, 2>; using t_b5 = bc::small_vector<char, 4>;
using t_b6 = bc::static_vector<int, 4>; using t_b7 = bc::static_vector<std::string, 2>; using t_b8 = bc::static_vector<unsigned char, 30>; using t_b9 = bc::static_vector<std::vector<bool>, 3>; using t_b10 = std::vector<bc::static_vector<char, 2>>; using t_b11 = bc::static_vector<double, 0>;
using t_c1 = bc::map<std::string, int>; using t_c2 = bc::map<int, bc::string>; using t_c3 = bc::multimap<std::string, double>; using t_c4 = bc::flat_map<bc::string, bc::list<int>>; using t_c5 = bc::flat_multimap<int, std::string>; using t_c6 = bc::flat_map<bool, int>;
using t_c7 = bc::map<std::string, bc::flat_map<std::string, std::optional<int>>>; using t_c8 = std::map<bc::string, bc::small_vector<float, 2>>; using t_c9 = bc::flat_map<double, bc::set<short>>;
using t_d1 = boost::dynamic_bitset<>; using t_d2 = boost::dynamic_bitset<unsigned char>; using t_d3 = std::vector<boost::dynamic_bitset<unsigned short>>;
using t_e1 = boost::variant<int, std::string>; using t_e2 = boost::variant<bool, double, std::string, std::vector<int>, std::map<std::string, int>, std::nullptr_t>; using t_e3 = boost::variant<int, double>; using t_e4 = boost::variant<bc::list<int>, bc::string, bc::deque<std::string>>; using t_e5 = boost::variant<bc::flat_map<std::string, int>, bool>;
using t_f1 = b2::variant<int, std::string>; using t_f2 = b2::variant<bool, double, std::string, std::vector<int>, std::map<std::string, int>, std::nullptr_t>; using t_f3 = b2::variant<b2::monostate, int>; using t_f4 = std::vector<b2::variant<bc::list<int>, bc::string, std::vector<std::string>>>; using t_f5 = b2::variant<b2::monostate, double, int, bool>;

} // ty
