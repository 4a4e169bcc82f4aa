// N01: histories of operations over a pool of nodes, checked against a model of values. -DGROUP=<n>
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "cxon/lib/node.hxx"
#include "cxon/lib/node.ordered.hxx"
#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/unordered_map.hxx"
#include "cxon/lib/std/vector.hxx"
#include "common/types.hpp"
#include "common/io.hpp"
#include "common/nodes.hpp"
#include <unordered_map>
using namespace nd;
using JX = cxon::JSON<>; using CX = cxon::CBOR<>;
namespace {
using JK = cxon::json::node_kind; using CK = cxon::cbor::node_kind;
struct traits32 : cxon::json::node_traits<> {
    template <class T> using array_type = std::deque<T>;
    template <class K, class V> using object_type = std::unordered_map<K, V>;
    using string_type = std::u16string; using sint_type = int; using uint_type = unsigned;
    using dynamic_types = cxon::scalar_sequence<JK, JK::object, JK::array, JK::string>;
};
struct traitsL : cxon::json::node_traits<> {
    template <class T> using array_type = std::list<T>;
    template <class K, class V> using object_type = std::multimap<K, V>;
    using string_type = std::u32string;
};
struct traitsD : cxon::json::node_traits<> { // everything is dynamic
    using dynamic_types = cxon::scalar_sequence<JK, JK::object, JK::array, JK::string, JK::real, JK::sint, JK::uint, JK::boolean>;
};
struct traitsC : cxon::cbor::node_traits<> {
    template <class K, class V> using map_type = std::multimap<K, V>;
    template <class T> using array_type = std::list<T>;
    using bytes_type = std::deque<unsigned char>;
    using dynamic_types = cxon::scalar_sequence<CK, CK::map, CK::array, CK::tag, CK::text, CK::bytes>;
};
struct traitsE : cxon::cbor::node_traits<> {
    using dynamic_types = cxon::scalar_sequence<CK, CK::map, CK::array, CK::tag, CK::bytes, CK::text, CK::real, CK::sint, CK::uint, CK::simple, CK::boolean>;
};
struct traitsU : cxon::cbor::ordered_node_traits<> {
    using text_type = std::string; using dynamic_types = cxon::scalar_sequence<CK, CK::map, CK::array, CK::tag, CK::real>;
};
using J1 = cxon::json::node; using J2 = cxon::json::ordered_node; using J3 = cxon::json::basic_node<traits32>; using J4 = cxon::json::basic_node<traitsL>; using J5 = cxon::json::basic_node<traitsD>;
using C1 = cxon::cbor::node; using C2 = cxon::cbor::ordered_node; using C3 = cxon::cbor::basic_node<traitsC>; using C4 = cxon::cbor::basic_node<traitsE>; using C5 = cxon::cbor::basic_node<traitsU>;

template <class N, bool = is_cbor<N>::value> struct Ty { using Obj = typename N::object; using Str = typename N::string; };
template <class N> struct Ty<N, true> { using Obj = typename N::map; using Str = typename N::text; };
template <class N> constexpr bool cb = is_cbor<N>::value;
template <class N> constexpr bool ordered = std::is_same_v<N, J2> || std::is_same_v<N, C2> || std::is_same_v<N, C5>;
template <class N> constexpr bool lists = std::is_same_v<N, J4> || std::is_same_v<N, C3>;
template <class N> constexpr bool small = std::is_same_v<N, J3>;
template <class N> constexpr bool less = !std::is_same_v<N, J3>;

template <class N> NV fit(NV v) {
    for (auto& x : v.a) x = fit<N>(std::move(x));
    if (small<N>) { if (v.k == NV::sint) v.i = int(v.i); else if (v.k == NV::uint) v.n = unsigned(v.n); }
    return v;
}
template <class N> NV gen_nv(Src& s, int depth = 3) { return nd::unique(fit<N>(nd::gen(s, cb<N>, depth))); }
template <class N> NV norm(NV v) { return ordered<N> ? v : canon(std::move(v)); }
// == of the nodes: NaN is not equal to itself, zeros are equal
bool eqv(const NV& x, const NV& y) {
    if (x.k != y.k) return false;
    if (x.k == NV::real) return x.d == y.d;
    if (x.k == NV::object || x.k == NV::array || x.k == NV::tag) { if (x.n != y.n || x.a.size() != y.a.size()) return false; for (std::size_t i = 0; i < x.a.size(); ++i) if (!eqv(x.a[i], y.a[i])) return false; return true; }
    return same(x, y);
}
template <class N> bool equal(const NV& x, const NV& y) { if (ordered<N>) return eqv(x, y); return eqv(canon(zero(x)), canon(zero(y))); }

template <class N> struct Ref { N* n; NV* v; bool key = false; std::size_t root; std::vector<std::size_t> path; };
template <class N> struct Pool {
    static constexpr std::size_t size = 3;
    N n[size]; NV v[size];
    using Obj = typename Ty<N>::Obj; using Arr = typename N::array; using Str = typename Ty<N>::Str;

    Ref<N> pick(Src& s, bool keys) {
        Ref<N> r; r.root = s.below(size); r.n = &n[r.root]; r.v = &v[r.root];
        while (!r.v->a.empty() && s.chance(1, 2)) {
            std::size_t i = s.below(r.v->a.size()); NV* const c = &r.v->a[i];
            if (r.v->k == NV::object) {
                auto& o = r.n->template get<Obj>(); auto it = std::next(o.begin(), long(i / 2));
                if (i % 2 == 0) { if (!ordered<N>) { if (!keys) { ++i; r.n = &it->second; r.v = &r.v->a[i]; r.path.push_back(i); continue; } r.key = true; } r.n = const_cast<N*>(&it->first); }
                else r.n = &it->second;
            }
            else if (r.v->k == NV::array) r.n = &*std::next(r.n->template get<Arr>().begin(), long(i));
            else if constexpr (cb<N>) r.n = &r.n->template get<typename N::tag>().value;
            r.v = c; r.path.push_back(i);
        }
        return r;
    }
    void check(const char* op) {
        for (std::size_t i = 0; i < size; ++i) {
            NV const m = nd::model(n[i]);
            CHECK(same(norm<N>(m), norm<N>(v[i])), op, "after ", op, ": ", show(m), " and not ", show(v[i]));
            v[i] = m;
        }
    }
};
template <class N> bool inside(const Ref<N>& a, const Ref<N>& b) { return a.root == b.root && a.path.size() >= b.path.size() && std::equal(b.path.begin(), b.path.end(), a.path.begin()); } // a in b, or the same

template <class N, class F> void typed(const NV& v, F f) { // f.operator()<T>() with the type of the alternative
    switch (v.k) {
        case NV::object: return f.template operator()<typename Ty<N>::Obj>(); case NV::array: return f.template operator()<typename N::array>(); case NV::string: return f.template operator()<typename Ty<N>::Str>();
        case NV::real: return f.template operator()<typename N::real>(); case NV::sint: return f.template operator()<typename N::sint>(); case NV::uint: return f.template operator()<typename N::uint>();
        case NV::boolean: return f.template operator()<typename N::boolean>(); case NV::null: return f.template operator()<typename N::null>();
        default: if constexpr (cb<N>) switch (v.k) {
            case NV::bytes: return f.template operator()<typename N::bytes>(); case NV::tag: return f.template operator()<typename N::tag>(); case NV::simple: return f.template operator()<typename N::simple>(); default: return f.template operator()<typename N::undefined>();
        }
    }
}
template <class N> NV kind_nv(Src& s) { // the default value of a kind
    static const NV::K K[] = {NV::object, NV::array, NV::string, NV::real, NV::sint, NV::uint, NV::boolean, NV::null, NV::bytes, NV::simple, NV::undefined};
    return NV::mk(K[s.draw(cb<N> ? 11 : 8)]);
}
template <class N> void kinds(const N& n, const NV& v) { // the queries and accessors agree
    int count = 0; bool right = false;
    auto one = [&]<class T>(bool me) {
        bool const i = n.template is<T>(); count += i;
        CHECK((n.template get_if<T>() != nullptr) == i && cxon::json::is<T>(n) == i, "kinds", "get_if and is do not agree");
        CHECK((const_cast<N&>(n).template get_if<T>() != nullptr) == i, "kinds", "get_if and is do not agree");
        if (i) { right = me; CHECK(n.template get_if<T>() == &n.template get<T>(), "kinds", "get and get_if do not agree"); }
    };
    one.template operator()<typename Ty<N>::Obj>(v.k == NV::object); one.template operator()<typename N::array>(v.k == NV::array); one.template operator()<typename Ty<N>::Str>(v.k == NV::string); one.template operator()<typename N::real>(v.k == NV::real);
    one.template operator()<typename N::sint>(v.k == NV::sint); one.template operator()<typename N::uint>(v.k == NV::uint); one.template operator()<typename N::boolean>(v.k == NV::boolean); one.template operator()<typename N::null>(v.k == NV::null);
    if constexpr (cb<N>) { one.template operator()<typename N::bytes>(v.k == NV::bytes); one.template operator()<typename N::tag>(v.k == NV::tag); one.template operator()<typename N::simple>(v.k == NV::simple); one.template operator()<typename N::undefined>(v.k == NV::undefined); }
    CHECK(count == 1 && right, "kinds", "the node holds ", count, " alternatives, or another one than ", show(v));
}
template <class N, class T> void literal(Ref<N>& r, T t, NV v, bool assign) {
    if (assign) { N& x = (*r.n = t); CHECK(&x == r.n, "return", "the assignment does not return the node"); }
    else { N c(t); N d(t, typename N::allocator_type()); CHECK(c == d || v.k == NV::real, "construct", "with and without an allocator"); *r.n = std::move(d); }
    *r.v = std::move(v);
    CHECK(v.k == NV::real || *r.n == *r.n, "literal", "");
}
template <class T> NV int_nv(T t) { return std::is_signed<T>::value && !cxon::is_char<T>::value ? NV::In(i64(t)) : NV::Un(u64(t)); }
template <class N> std::size_t hash_of(const N& n) { return std::hash<N>()(n); }

void shuffle(NV& v, Src& s) { // the members of the objects
    for (auto& x : v.a) shuffle(x, s);
    if (v.k == NV::object) for (std::size_t i = v.a.size() / 2; i > 1; --i) { std::size_t const j = s.draw(i); std::swap(v.a[2 * i - 2], v.a[2 * j]); std::swap(v.a[2 * i - 1], v.a[2 * j + 1]); }
}
template <class N> const char* step(Src& s, Pool<N>& p) {
    using Obj = typename Ty<N>::Obj; using Arr = typename N::array; using Str = typename Ty<N>::Str;
    Ref<N> d = p.pick(s, false);
    switch (s.draw(22)) {
        case 0: case 1: { NV const v = gen_nv<N>(s); d.n->reset(); if (cb<N>) CHECK(d.n->kind() == N().kind(), "reset", "not the default kind after reset"); nd::build(*d.n, v); *d.v = v; return "build"; }
        case 2: { // copies
            Ref<N> r = p.pick(s, true); NV const t = *r.v;
            switch (s.draw(4)) {
                case 0: { N& x = (*d.n = *const_cast<const N*>(r.n)); CHECK(&x == d.n, "return", "the assignment does not return the node"); break; }
                case 1: { N c(*const_cast<const N*>(r.n)); *d.n = c; break; }
                case 2: { N c(*const_cast<const N*>(r.n), r.n->get_allocator()); *d.n = std::move(c); break; }
                default: { std::vector<N> c; c.push_back(*r.n); c.push_back(*r.n); c.resize(5, *r.n); *d.n = c[s.below(5)]; }
            }
            *d.v = t; return "copy";
        }
        case 3: { // moves
            Ref<N> r = p.pick(s, false); if (inside(d, r) && !(inside(r, d))) return "none"; // into its own part
            bool const in = inside(r, d); NV const t = *r.v; bool const self = in && inside(d, r);
            switch (s.draw(4)) {
                case 0: case 1: { N& x = (*d.n = std::move(*r.n)); CHECK(&x == d.n, "return", "the assignment does not return the node"); if (!in) *r.v = nd::model(*r.n); break; }
                case 2: { N c(std::move(*r.n)); NV const m = nd::model(c); CHECK(same(norm<N>(m), norm<N>(t)), "move", "moved to ", show(m), " from ", show(t)); if (!in) *r.v = nd::model(*r.n); *d.n = std::move(c); break; }
                default: { N c(std::move(*r.n), r.n->get_allocator()); if (!in) *r.v = nd::model(*r.n); *d.n = c; break; }
            }
            (void)self; *d.v = t; return "move";
        }
        case 4: { // values of the alternatives, which may be parts of the node
            Ref<N> r = p.pick(s, true); NV const t = *r.v; bool const mv = !r.key && s.coin() && (!inside(d, r) || inside(r, d)), in = inside(r, d); int const how = int(s.draw(3));
            typed<N>(t, [&]<class T>() {
                if (mv) { auto& x = r.n->template get<T>(); if (how == 0) *d.n = std::move(x); else { N c(std::move(x)); *d.n = std::move(c); } if (!in) *r.v = nd::model(*r.n); }
                else { auto const& x = const_cast<const N*>(r.n)->template get<T>(); if (how == 0) *d.n = x; else if (how == 1) { N c(x); *d.n = std::move(c); } else { N c(x, d.n->get_allocator()); *d.n = c; } }
            });
            *d.v = t; return mv ? "move a value" : "copy a value";
        }
        case 5: { // swaps
            Ref<N> r = p.pick(s, false); if (inside(d, r) != inside(r, d)) return "none";
            if (s.coin()) d.n->swap(*r.n); else { using std::swap; swap(*d.n, *r.n); }
            if (d.v != r.v) std::swap(*d.v, *r.v);
            return "swap";
        }
        case 6: { d.n->reset(); *d.v = cb<N> ? NV::mk(NV::undefined) : NV(); return "reset"; }
        case 7: { NV const k = kind_nv<N>(s);
            if (k.k == NV::null || k.k == NV::undefined) { typed<N>(k, [&]<class T>() { d.n->template imbue<T>(); }); *d.v = k; return "imbue"; }
            typed<N>(k, [&]<class T>() { T& x = d.n->template imbue<T>(); CHECK(&x == &d.n->template get<T>(), "imbue", "another object"); if (d.v->k != k.k) x = T(); });
            if (d.v->k != k.k) *d.v = k;
            return "imbue"; }
        case 8: { // literals
            bool const as = s.coin(); u64 const b = s.bits();
            switch (s.draw(13)) {
                case 0: literal<N>(d, (signed char)b, fit<N>(int_nv((signed char)b)), as); break; case 1: literal<N>(d, (unsigned char)b, NV::Un((unsigned char)b), as); break;
                case 2: literal<N>(d, short(b), NV::In(short(b)), as); break; case 3: literal<N>(d, (unsigned short)b, NV::Un((unsigned short)b), as); break;
                case 4: literal<N>(d, int(b), NV::In(int(b)), as); break; case 5: literal<N>(d, unsigned(b), NV::Un(unsigned(b)), as); break;
                case 6: if (small<N>) return "none"; literal<N>(d, long(b), NV::In(long(b)), as); break; case 7: if (small<N>) return "none"; literal<N>(d, (unsigned long)b, NV::Un(b), as); break;
                case 8: literal<N>(d, char(b & 0x7f), NV::Un(b & 0x7f), as); break; case 9: literal<N>(d, char16_t(b), NV::Un(char16_t(b)), as); break;
                case 10: literal<N>(d, bool(b & 1), NV::B(b & 1), as); break; case 11: literal<N>(d, nullptr, NV(), as); break;
                default: { double const x = cref::gen_double(s); if (as) *d.n = x; else { N c(x); *d.n = c; } *d.v = NV::R(x); }
            }
            return "literal";
        }
        case 9: { // C strings, which may be of a part of the node
            Ref<N> r = p.pick(s, true); if (r.v->k != NV::string) return "none";
            NV t = NV::S(r.v->s.substr(0, r.v->s.find('\0'))); auto const* c = const_cast<const N*>(r.n)->template get<Str>().c_str();
            if (s.coin()) *d.n = c; else { N x(c); N y(c, x.get_allocator()); CHECK(x == y, "construct", "with and without an allocator"); *d.n = s.coin() ? x : std::move(y); }
            *d.v = t; return "C string";
        }
        case 10: if constexpr (!lists<N>) { // lists of nodes
            NV a = gen_nv<N>(s, 2), b = gen_nv<N>(s, 2), c = gen_nv<N>(s, 1); N x, y, z; nd::build(x, a), nd::build(y, b), nd::build(z, c); unsigned const n = unsigned(s.draw(4)); unsigned const how = unsigned(s.draw(5));
            if (s.coin()) { // pairs
                a = NV::mk(NV::array), a.a = {NV::S("k"), b}, x = Arr{N(NV::S("k").s.empty() ? nullptr : nullptr), y}; { N kk; nd::build(kk, a.a[0]); x.template get<Arr>()[0] = kk; }
                c = NV::mk(NV::array), c.a = {NV::S("l"), b}; z = N(); nd::build(z, c); if (n == 2) b = a, b.a[0] = NV::S("m"), nd::build(y = N(), b);
            }
            std::vector<NV> l; if (n > 0) l.push_back(a); if (n > 1) l.push_back(b); if (n > 2) l.push_back(c);
            bool obj = true; for (auto& e : l) obj = obj && e.k == NV::array && e.a.size() == 2;
            NV w = NV::mk(obj ? NV::object : NV::array); for (auto& e : l) if (obj) w.a.push_back(e.a[0]), w.a.push_back(e.a[1]); else w.a.push_back(e);
            if (obj && !unique_keys(w) ) return "none";
            auto go = [&](std::initializer_list<N> il) { switch (how) { case 0: case 1: case 2: *d.n = il; break; case 3: { N q(il); *d.n = q; break; } default: { N q(il, d.n->get_allocator()); *d.n = std::move(q); } } };
            switch (n) { case 0: go({}); break; case 1: { std::initializer_list<N> il = {x}; go(il); break; } case 2: go({x, y}); break; default: go({x, y, z}); }
            *d.v = w; return "list";
        } else return "none";
        case 11: { // edits of containers
            if (d.v->k == NV::array) {
                auto& a = d.n->template get<Arr>(); NV const v = gen_nv<N>(s, 2); N x; nd::build(x, v); std::size_t const i = s.below(a.size() + 1);
                switch (s.draw(6)) {
                    case 0: a.push_back(x); d.v->a.push_back(v); return "push_back";
                    case 1: a.push_back(std::move(x)); d.v->a.push_back(v); return "push_back";
                    case 2: a.insert(std::next(a.begin(), long(i)), x); d.v->a.insert(d.v->a.begin() + long(i), v); return "insert";
                    case 3: if (i == a.size()) return "none"; a.erase(std::next(a.begin(), long(i))); d.v->a.erase(d.v->a.begin() + long(i)); return "erase";
                    case 4: a.resize(i); d.v->a.resize(i); return "resize";
                    default: a.clear(); d.v->a.clear(); return "clear";
                }
            }
            if (d.v->k == NV::object) {
                auto& o = d.n->template get<Obj>();
                switch (s.draw(3)) {
                    case 0: { NV k = NV::S(uni::to8(uni::gen(s, 3))), v = gen_nv<N>(s, 2); for (std::size_t i = 0; i < d.v->a.size(); i += 2) if (same(d.v->a[i], k)) return "none";
                        N x, y; nd::build(x, k), nd::build(y, v); nd::put(o, x, std::move(y)); d.v->a.push_back(k), d.v->a.push_back(v); return "put"; }
                    case 1: { if (o.empty()) return "none"; std::size_t const i = s.below(o.size()); o.erase(std::next(o.begin(), long(i))); d.v->a.erase(d.v->a.begin() + long(2 * i), d.v->a.begin() + long(2 * i + 2)); return "erase"; }
                    default: o.clear(); d.v->a.clear(); return "clear";
                }
            }
            if (d.v->k == NV::string) { NV const t = NV::S(uni::to8(uni::gen(s))); N x; nd::build(x, t); d.n->template get<Str>() += x.template get<Str>(); d.v->s += t.s; return "append"; }
            return "none";
        }
        case 12: case 13: { // comparison
            Ref<N> r = p.pick(s, true); N const &a = *d.n, &b = *r.n; bool const e = equal<N>(*d.v, *r.v);
            CHECK((a == b) == e && (b == a) == e && (a != b) == !e, "equal", "== ", a == b, " != ", a != b, " of ", show(*d.v), " and ", show(*r.v));
            if constexpr (less<N>) if (!has_nan(*d.v) && !has_nan(*r.v)) { bool const l = a < b, g = b < a; CHECK(l + g + e == 1, "less", "< ", l, " > ", g, " == ", e, " of ", show(*d.v), " and ", show(*r.v)); }
            if (e) CHECK(hash_of(a) == hash_of(b), "hash", "different hashes of equal ", show(*d.v), " and ", show(*r.v));
            { N c(a); bool const x = a == c; CHECK(x == equal<N>(*d.v, *d.v), "equal", "a copy is another value: ", show(*d.v)); }
            if (!has_nan(*d.v)) { NV m = *d.v; if (!ordered<N> && unique_keys(m)) shuffle(m, s); N c; nd::build(c, m); CHECK(c == a, "equal", "the same value built anew is another: ", show(m), " and ", show(*d.v)); CHECK(hash_of(c) == hash_of(a), "hash", "different hashes of ", show(m), " and ", show(*d.v)); }
            typed<N>(*r.v, [&]<class T>() {
                auto const& v = b.template get<T>();
                if constexpr (!std::is_same_v<T, std::nullptr_t> && !std::is_same_v<T, cxon::cbor::undefined> && !std::is_arithmetic_v<T>) CHECK((a == v) == e && (v == a) == e && (a != v) == !e && (v != a) == !e, "equal", "to a value: ", show(*d.v), " and ", show(*r.v));
                if constexpr (std::is_arithmetic_v<T>) { T const w = v; CHECK((a == w) == e && (w == a) == e && (a != w) == !e && (w != a) == !e, "equal", "to a literal: ", show(*d.v), " and ", show(*r.v)); }
                if constexpr (std::is_same_v<T, std::nullptr_t>) CHECK((a == nullptr) == e && (nullptr == a) == e, "equal", "to null");
                if constexpr (std::is_same_v<T, Str>) { auto const* c = v.c_str(); bool const f = d.v->k == NV::string && d.v->s == r.v->s.substr(0, r.v->s.find('\0')); CHECK((a == c) == f && (c == a) == f && (a != c) == !f && (c != a) == !f, "equal", "to a C string: ", show(*d.v), " and ", show(*r.v)); }
            });
            return "compare";
        }
        case 14: kinds(*d.n, *d.v); return "kinds";
        case 15: case 16: { // reading
            NV w; bool const bad = s.chance(1, 4); if (s.coin()) d.n->reset(), *d.v = cb<N> ? NV::mk(NV::undefined) : NV();
            NV::K const was = d.v->k;
            if constexpr (cb<N>) {
                std::string t = cref::lawful(nd::to_item(gen_nv<N>(s)), s); if (bad) t.resize(s.below(t.size() + 1));
                cref::C g; std::size_t n; bool const good = cref::decode(t, g, n) && nd::from_item(g, w) && unique_keys(w);
                bool const ok = io::read<CX>(*d.n, t).ok; if (!good) { *d.v = nd::model(*d.n); return "read part"; } CHECK(ok, "read", "rejected: ", hex(t));
            }
            else {
                jref::J const j = jref::gen_doc(s, 3); std::string t = jref::render(j, s); if (bad) t.resize(s.below(t.size() + 1));
                jref::J g; std::size_t n; bool const good = jref::parse_prefix(t, g, n), ok = io::read<JX>(*d.n, t).ok;
                CHECK(ok == good, "read", ok ? "accepted: " : "rejected: ", quote(t)); if (!good) { *d.v = nd::model(*d.n); return "read part"; } w = nd::from_doc(g, small<N> ? 32 : 64);
            }
            if (w.k == was && (was == NV::object || was == NV::array || was == NV::string || was == NV::bytes || was == NV::tag)) { *d.v = nd::model(*d.n); return "read more"; } // containers are appended to
            *d.v = w; return "read";
        }
        case 17: { // writing
            if (std::is_same_v<N, J3>) return "none";
            N x; nd::build(x, *d.v); std::string t, u; bool a, b;
            if constexpr (cb<N>) a = io::write<CX>(t, *d.n).ok, b = io::write<CX>(u, x).ok; else a = io::write<JX>(t, *d.n).ok, b = io::write<JX>(u, x).ok;
            CHECK(a == b && t == u, "write", "written as ", hex(t), " and a new node as ", hex(u)); return "write";
        }
        case 18: { // a container of copies is independent of the nodes
            std::vector<N> c(std::begin(p.n), std::end(p.n)); N t(*d.n); NV const v = *d.v; d.n->reset(); *d.v = cb<N> ? NV::mk(NV::undefined) : NV();
            CHECK(same(norm<N>(nd::model(t)), norm<N>(v)), "independent", "a copy changed with its original: ", show(nd::model(t)), " was ", show(v)); *d.n = std::move(t); *d.v = v; std::swap(c[0], c[2]); return "independent";
        }
        case 19: { std::vector<N> c; for (std::size_t i = 0; i < p.size; ++i) c.push_back(std::move(p.n[i])); for (std::size_t i = 0; i < p.size; ++i) p.n[i] = std::move(c[i]); return "shuffle"; }
        case 20: if constexpr (cb<N>) { Ref<N> r = p.pick(s, true); u64 const t = s.bits(); NV w = NV::mk(NV::tag); w.n = t; w.a.push_back(*r.v); *d.n = typename N::tag(t, *const_cast<const N*>(r.n)); *d.v = w; return "tag"; }
            else return "none";
        default: { Ref<N> r = p.pick(s, true); NV w = NV::mk(NV::array); w.a.push_back(*r.v); w.a.push_back(*d.v); Arr a; a.push_back(*r.n); a.push_back(*d.n); *d.n = std::move(a); *d.v = w; return "wrap"; }
    }
}
template <class N> void prop(Src& s) {
    Pool<N> p; for (auto& v : p.v) v = cb<N> ? NV::mk(NV::undefined) : NV();
    std::string log; std::size_t const n = 1 + s.draw(s.chance(1, 4) ? 60 : 14); std::size_t real = 0;
    for (std::size_t i = 0; i < n; ++i) {
        if (s.budget < 20) s.budget = 20;
        char const* const op = step<N>(s, p); if (std::strcmp(op, "none") != 0) ++real, log += cat(i ? ", " : "", op);
        s.label(op); p.check(op);
    }
    for (std::size_t i = 0; i < p.size; ++i) kinds(p.n[i], p.v[i]);
    s.show(log); s.nontrivial(real > 2);
}
#define REG(N) Reg r_##N("history " #N, &prop<N>);
#if GROUP == 1
REG(J1) REG(J2)
#elif GROUP == 2
REG(J3) REG(J4) REG(J5)
#elif GROUP == 3
REG(C1) REG(C2)
#elif GROUP == 4
REG(C3) REG(C4) REG(C5)
#endif
}
