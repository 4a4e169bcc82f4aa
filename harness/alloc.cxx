// A01: values with stateful allocators that count and fail. -DGROUP=<n>
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "cxon/lib/node.hxx"
#include "cxon/lib/node.ordered.hxx"

#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/bitset.hxx"
#include "cxon/lib/std/chrono.hxx"
#include "cxon/lib/std/complex.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/flat_map.hxx"
#include "cxon/lib/std/flat_set.hxx"
#include "cxon/lib/std/forward_list.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/memory.hxx"
#include "cxon/lib/std/optional.hxx"
#include "cxon/lib/std/queue.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/span.hxx"
#include "cxon/lib/std/stack.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/string_view.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/unordered_map.hxx"
#include "cxon/lib/std/unordered_set.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/valarray.hxx"
#include "cxon/lib/std/variant.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lang/json/tidy.hxx"
#include "common/types.hpp"
#include "common/groups.hpp"
#include "common/io.hpp"
#include "common/nodes.hpp"
#include <memory_resource>
#include <scoped_allocator>
#include <unordered_map>
using namespace nd;
using JX = cxon::JSON<>; using CX = cxon::CBOR<>;
namespace {

// arenas: what is allocated is returned to where it came from, with the same size; any allocation can be made to fail
struct Arena;
struct alignas(32) Head { Arena* a; std::size_t n; u64 magic; };
struct Arena : std::pmr::memory_resource {
    long live = 0, allocs = 0; const char* name;
    explicit Arena(const char* n) : name(n) {}
    void* get(std::size_t n);
    void put(void* p, std::size_t n) noexcept;
    void* do_allocate(std::size_t n, std::size_t) override { return get(n); }
    void do_deallocate(void* p, std::size_t n, std::size_t) override { put(p, n); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
Arena A0("the first"), A1("the second"), AD("the default");
u64 bytes = 0; long countdown = -1; bool thrown = false; const char* bad = nullptr; // the fault and what went wrong with returned blocks
constexpr u64 magic = 0x5afe5afe5afe5afeull;
void* Arena::get(std::size_t n) {
    if (countdown >= 0 && countdown-- == 0) { thrown = true; throw std::bad_alloc(); }
    std::size_t const m = (sizeof(Head) + n + 31) / 32 * 32; bytes += m; auto* h = static_cast<Head*>(::aligned_alloc(32, m)); if (!h) std::abort();
    h->a = this; h->n = n; h->magic = magic; ++live; ++allocs;
    return h + 1;
}
void Arena::put(void* p, std::size_t n) noexcept {
    auto* h = static_cast<Head*>(p) - 1;
    if (h->magic != magic) bad = "returned twice or never allocated";
    else if (h->a != this) bad = "returned to another arena";
    else if (h->n != n) bad = "returned with another size";
    h->magic = 0; --h->a->live; std::free(h);
}
// the categories of errors register their destructors when first used, which may allocate
bool const warm = [] { return std::error_condition(cxon::json::read_error::unexpected).value() + std::error_condition(cxon::json::write_error::output_failure).value() + std::error_condition(cxon::cbor::read_error::unexpected).value()
    + std::error_condition(cxon::cbor::write_error::output_failure).value() + std::error_condition(cxon::node::error::recursion_depth_exceeded).value() > 0; }();
struct Fault { explicit Fault(long k) { countdown = k; thrown = false; } ~Fault() { countdown = -1; } };

template <class T, int F> struct Al { // 1, 2, 4: propagates on copy, on move, on swap; 8: the copies of containers use the default arena
    using value_type = T; using is_always_equal = std::false_type;
    using propagate_on_container_copy_assignment = std::bool_constant<(F & 1) != 0>;
    using propagate_on_container_move_assignment = std::bool_constant<(F & 2) != 0>;
    using propagate_on_container_swap = std::bool_constant<(F & 4) != 0>;
    template <class U> struct rebind { using other = Al<U, F>; };
    Arena* a;
    Al() noexcept : a(&AD) {}
    Al(Arena* a) noexcept : a(a) {}
    template <class U> Al(const Al<U, F>& o) noexcept : a(o.a) {}
    Al select_on_container_copy_construction() const { return F & 8 ? Al() : *this; }
    T* allocate(std::size_t n) { return static_cast<T*>(a->get(n * sizeof(T))); }
    void deallocate(T* p, std::size_t n) noexcept { a->put(p, n * sizeof(T)); }
    template <class U> friend bool operator ==(const Al& x, const Al<U, F>& y) noexcept { return x.a == y.a; }
    template <class U> friend bool operator !=(const Al& x, const Al<U, F>& y) noexcept { return x.a != y.a; }
};
template <class A> struct AlT { static constexpr bool pmr = true; static constexpr bool poc = false, pom = false, pos = false, sel = true; static Arena* of(const A& a) { return static_cast<Arena*>(a.resource()); } };
template <class T, int F> struct AlT<Al<T, F>> { static constexpr bool pmr = false; static constexpr bool poc = F & 1, pom = F & 2, pos = F & 4, sel = F & 8; static Arena* of(const Al<T, F>& a) { return a.a; } };
template <class C> Arena* arena(const C& c) { return AlT<decltype(c.get_allocator())>::of(c.get_allocator()); }
template <class C> using als = AlT<decltype(std::declval<const C&>().get_allocator())>;

void start() { A0.live = A1.live = AD.live = 0; countdown = -1; bad = nullptr; std::pmr::set_default_resource(&AD); }
void finish(const char* what) {
    CHECK(!bad, "returned", what, ": a block is ", bad);
    CHECK(!A0.live && !A1.live && !AD.live, "lost", what, ": blocks not returned: ", A0.live, " ", A1.live, " ", AD.live);
}

// nodes ///////////////////////////////////////////////////////////////////////
using JK = cxon::json::node_kind; using CK = cxon::cbor::node_kind;
template <int F> struct jtr : cxon::json::node_traits<Al<char, F>> {};
template <int F> struct jtrD : cxon::json::node_traits<Al<char, F>> { using dynamic_types = cxon::scalar_sequence<JK, JK::object, JK::array, JK::string, JK::real, JK::sint, JK::uint, JK::boolean>; };
template <int F> struct jtrL : cxon::json::node_traits<Al<char, F>> {
    template <class T> using array_type = std::list<T, Al<T, F>>;
    template <class K, class V> using object_type = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, Al<std::pair<const K, V>, F>>;
    using dynamic_types = cxon::scalar_sequence<JK, JK::object, JK::array>;
};
template <int F> struct ctr : cxon::cbor::node_traits<Al<char, F>> {};
template <int F> struct ctrD : cxon::cbor::node_traits<Al<char, F>> { using dynamic_types = cxon::scalar_sequence<CK, CK::map, CK::array, CK::tag, CK::bytes, CK::text, CK::real, CK::sint, CK::uint, CK::simple, CK::boolean>; };
using pm = std::pmr::polymorphic_allocator<char>;
template <class N, bool = is_cbor<N>::value> struct Ty { using Obj = typename N::object; using Str = typename N::string; };
template <class N> struct Ty<N, true> { using Obj = typename N::map; using Str = typename N::text; };
template <class N> constexpr bool cb = is_cbor<N>::value;
template <class N> struct is_ordered : std::false_type {};
template <class A> struct is_ordered<cxon::json::basic_node<cxon::json::ordered_node_traits<A>>> : std::true_type {};
template <class A> struct is_ordered<cxon::cbor::basic_node<cxon::cbor::ordered_node_traits<A>>> : std::true_type {};
template <class N> NV norm(NV v) { return is_ordered<N>::value ? v : canon(std::move(v)); }

template <class N> void spread(const N& n, Arena* a, bool same, const char* op) { // the containers use the allocators of their nodes; same: everything is of one arena
    CHECK(!same || arena(n) == a, "arena", op, ": a node is of ", arena(n)->name, " arena and not of ", a->name, " one");
    auto own = [&](auto const& c) { CHECK(arena(c) == arena(n), "arena", op, ": the value of a node of ", arena(n)->name, " arena is of ", arena(c)->name, " one"); };
    if (n.template is<typename Ty<N>::Obj>()) { auto& o = n.template get<typename Ty<N>::Obj>(); own(o); for (auto& e : o) spread(e.first, a, same, op), spread(e.second, a, same, op); }
    else if (n.template is<typename N::array>()) { auto& o = n.template get<typename N::array>(); own(o); for (auto& e : o) spread(e, a, same, op); }
    else if (n.template is<typename Ty<N>::Str>()) own(n.template get<typename Ty<N>::Str>());
    else if constexpr (cb<N>) {
        if (n.template is<typename N::bytes>()) own(n.template get<typename N::bytes>());
        else if (n.template is<typename N::tag>()) spread(n.template get<typename N::tag>().value, a, same, op);
    }
}
// builds with an allocator at each level
template <class N> N mk(const NV& v, const typename N::allocator_type& al) {
    N n(al);
    switch (v.k) {
        case NV::object: { auto& o = n.template imbue<typename Ty<N>::Obj>(); for (std::size_t i = 0; i < v.a.size(); i += 2) { N k = mk<N>(v.a[i], al), w = mk<N>(v.a[i + 1], al); nd::put(o, std::move(k), std::move(w)); } break; }
        case NV::array: { auto& a = n.template imbue<typename N::array>(); for (auto& x : v.a) a.push_back(mk<N>(x, al)); break; }
        case NV::tag: if constexpr (cb<N>) { auto& t = n.template imbue<typename N::tag>(); t.tag = v.n; t.value = mk<N>(v.a[0], al); } break;
        default: nd::build(n, v);
    }
    return n;
}
template <class N, class F> void typed(const NV& v, F f) {
    switch (v.k) {
        case NV::object: return f.template operator()<typename Ty<N>::Obj>(); case NV::array: return f.template operator()<typename N::array>(); case NV::string: return f.template operator()<typename Ty<N>::Str>();
        case NV::real: return f.template operator()<typename N::real>(); case NV::sint: return f.template operator()<typename N::sint>(); case NV::uint: return f.template operator()<typename N::uint>();
        case NV::boolean: return f.template operator()<typename N::boolean>(); case NV::null: return f.template operator()<typename N::null>();
        default: if constexpr (cb<N>) switch (v.k) {
            case NV::bytes: return f.template operator()<typename N::bytes>(); case NV::tag: return f.template operator()<typename N::tag>(); case NV::simple: return f.template operator()<typename N::simple>(); default: return f.template operator()<typename N::undefined>();
        }
    }
}
template <class N> struct NodeTest {
    using A = typename N::allocator_type; using T = als<N>;
    static constexpr int size = 3;
    struct Slot { alignas(N) unsigned char m[sizeof(N)]; NV v; Arena* a; N& n() { return *reinterpret_cast<N*>(m); } };

    static NV gen_nv(Src& s, int depth = 3) { return nd::unique(nd::gen(s, cb<N>, depth)); }
    static std::string text(Src& s, bool cbor) { // lawful input
        if (cbor) { N n(A(&AD)); std::string t; NV v = gen_nv(s); return cref::lawful(nd::to_item(v), s); }
        J1 n; NV v = nd::unique(nd::gen(s, false, 3)); nd::build(n, v); std::string t; cxon::to_bytes<JX>(t, n); return t;
    }
    using J1 = std::conditional_t<is_ordered<N>::value, cxon::json::ordered_node, cxon::json::node>; using C1 = std::conditional_t<is_ordered<N>::value, cxon::cbor::ordered_node, cxon::cbor::node>;

    static void run(Src& s) {
        start();
        {
            Slot p[size]; int made = 0;
            struct Guard { Slot* p; int& n; ~Guard() { while (n) p[--n].n().~N(); } } guard{p, made};
            for (auto& e : p) { e.a = s.coin() ? &A0 : &A1; new (e.m) N(A(e.a)); ++made; e.v = nd::model(e.n()); }
            int const steps = 3 + int(s.draw(10)); int faults = 0; bool ext = false;
            for (int i = 0; i < steps; ++i) {
                Slot &d = p[s.below(size)], &r = p[s.below(size)]; bool const f = s.chance(1, 2); long const k = f ? long(s.draw(s.coin() ? 4 : 24)) : -1;
                bool all = false; const char* op = "none"; bool reads = false; long const d0 = AD.allocs; bool touched_r = false;
                unsigned const what = unsigned(s.draw(16));
                try { op = step(s, d, r, what, k, all, reads, touched_r, ext); }
                catch (std::bad_alloc&) { countdown = -1; CHECK(thrown, "bad_alloc", "thrown without a fault"); ++faults; // the nodes are still usable
                    if (what == 13) CHECK(false, "swap", "swap fails when memory does");
                    d.v = nd::model(d.n()); if (touched_r) r.v = nd::model(r.n()); op = "fault"; s.label("fault"); d.a = arena(d.n()); if (touched_r) r.a = arena(r.n());
                    if (what != 0 && s.coin()) { d.n().reset(); d.v = cb<N> ? NV::mk(NV::undefined) : NV(); }
                }
                countdown = -1;
                CHECK(!reads || AD.allocs == d0, "default", op, ": ", AD.allocs - d0, " allocations from the default arena");
                for (auto& e : p) {
                    NV const m = nd::model(e.n()); CHECK(same(norm<N>(m), norm<N>(e.v)), "value", "after ", op, ": ", show(m), " and not ", show(e.v)); e.v = m;
                    CHECK(arena(e.n()) == e.a, "arena", "after ", op, ": the node is of ", arena(e.n())->name, " arena and not of ", e.a->name, " one");
                    if (std::strcmp(op, "fault")) spread(e.n(), e.a, T::pmr && !is_ordered<N>::value, op);
                }
                CHECK(!bad, "returned", op, ": a block is ", bad);
                s.label(op);
            }
            s.nontrivial(faults > 0 || ext);
        }
        finish("nodes");
    }
    static const char* step(Src& s, Slot& d, Slot& r, unsigned what, long k, bool&, bool& reads, bool& tr, bool& ext) {
        N& n = d.n(); A const own(d.a);
        switch (what) {
            case 0: case 1: case 2: { // read
                bool const cbor = s.coin(); std::string const t = text(s, cbor); bool const cut = s.chance(1, 4) && !t.empty(); std::string const x = cut ? t.substr(0, s.below(t.size())) : t;
                n.reset(); d.v = nd::model(n); reads = true;
                io::Heap const h(x); bool ok; u64 const g = allocated_total() - bytes;
                { Fault f(k); if (cbor) ok = bool(cxon::from_bytes<CX>(n, h.begin(), h.end())); else ok = bool(cxon::from_bytes<JX>(n, h.begin(), h.end())); }
                CHECK(allocated_total() - bytes == g, "foreign", "reading allocates elsewhere: ", allocated_total() - bytes - g, " bytes");
                NV w; bool ok1;
                if constexpr (cb<N>) { C1 c; ok1 = cbor ? bool(cxon::from_bytes<CX>(c, x)) : bool(cxon::from_bytes<JX>(c, x)); w = nd::model(c); }
                else { J1 c; ok1 = cbor ? bool(cxon::from_bytes<CX>(c, x)) : bool(cxon::from_bytes<JX>(c, x)); w = nd::model(c); }
                CHECK(ok == ok1, "read", "with std::allocator ", ok1, " and here ", ok);
                if (ok) d.v = w; else d.v = nd::model(n);
                spread(n, d.a, true, "read"); if (x.size() > 20) ext = true;
                return "read";
            }
            case 3: case 4: { // build
                NV const v = gen_nv(s);
                N x = mk<N>(v, own); Fault f(k); n = std::move(x); d.v = v; return "build";
            }
            case 5: { // copy construction
                tr = false; NV const t = r.v; Arena* a = s.coin() ? &A0 : &A1; bool const with = s.coin();
                N c = [&] { Fault f(k); return with ? N(const_cast<const N&>(r.n()), A(a)) : N(const_cast<const N&>(r.n())); }();
                Arena* const w = with ? a : T::sel ? &AD : r.a;
                CHECK(arena(c) == w, "arena", "the copy is of ", arena(c)->name, " arena and not of ", w->name, " one"); spread(c, w, T::pmr && !is_ordered<N>::value, "copy"); NV const m = nd::model(c);
                CHECK(same(norm<N>(m), norm<N>(t)), "copy", "", show(m), " from ", show(t));
                return with ? "copy in an arena" : "copy";
            }
            case 6: case 7: { // copy assignment
                if (&d == &r) return "none";
                NV const t = r.v; { Fault f(k); n = const_cast<const N&>(r.n()); } d.v = t; if (T::poc) d.a = r.a; if (d.a != r.a) ext = true; return "copy assignment";
            }
            case 8: case 9: { // move construction
                NV const t = r.v; tr = true; Arena* a = s.coin() ? &A0 : &A1; bool const with = s.coin();
                if (&d == &r || r.a == &AD) return "none";
                N c = [&] { Fault f(k); if (with) return N(std::move(r.n()), A(a)); long const l = A0.allocs + A1.allocs + AD.allocs; N x(std::move(r.n())); CHECK(A0.allocs + A1.allocs + AD.allocs == l, "move", "moving allocates"); return x; }();
                Arena* const w = with ? a : r.a; if (with && a != r.a) ext = true;
                CHECK(arena(c) == w, "arena", "moved to ", arena(c)->name, " arena and not to ", w->name, " one"); spread(c, w, T::pmr && !is_ordered<N>::value, "move"); NV const m = nd::model(c);
                CHECK(same(norm<N>(m), norm<N>(t)), "move", "", show(m), " from ", show(t));
                r.v = nd::model(r.n());
                return with ? "move to an arena" : "move";
            }
            case 10: case 11: { // move assignment
                if (&d == &r) return "none";
                NV const t = r.v; tr = true; if (d.a != r.a) ext = true; { Fault f(k); n = std::move(r.n()); } d.v = t; if (T::pom) d.a = r.a; r.v = nd::model(r.n()); return "move assignment";
            }
            case 12: { // values, copied or moved, of any arena
                NV const v = gen_nv(s, 2); Arena* a = s.coin() ? &A0 : &A1; bool const mv = s.coin(), con = s.coin(); N x = mk<N>(v, A(a)); if (a != d.a) ext = true;
                typed<N>(v, [&]<class V>() {
                    V& y = x.template get<V>();
                    if (con) { N c = [&] { Fault f(k); return mv ? N(std::move(y), A(a)) : N(const_cast<const V&>(y), A(a)); }(); spread(c, a, T::pmr && !is_ordered<N>::value, "value"); Fault f(k); n = c; if (T::poc) d.a = a; }
                    else { Fault f(k); if (mv) n = std::move(y); else n = const_cast<const V&>(y); }
                });
                d.v = v; return con ? "construction from a value" : "assignment of a value";
            }
            case 13: { // swap
                if (&d == &r) return "none"; if (!T::pos && d.a != r.a) return "none";
                { tr = true; Fault f(k); n.swap(r.n()); } std::swap(d.v, r.v); if (T::pos) std::swap(d.a, r.a); if (d.v.k != r.v.k) ext = true; return "swap";
            }
            case 14: { // literals and lists
                switch (s.draw(4)) {
                    case 0: { std::string const t(s.draw(40), 'x'); { Fault f(k); n = t.c_str(); } d.v = NV::S(t); return "string literal"; }
                    case 1: { { Fault f(k); n = 42; } d.v = NV::In(42); return "literal"; }
                    case 2: { std::string const t(s.draw(40), 'x'); Arena* a = s.coin() ? &A0 : &A1; N c = [&] { Fault f(k); return N(t.c_str(), A(a)); }(); spread(c, a, true, "literal"); return "string literal"; }
                    default: if constexpr (!requires (typename N::array& q) { q[0]; }) return "none"; else {
                        Arena* a = s.coin() ? &A0 : &A1; bool const obj = s.coin(), as = s.coin(); std::string const t(s.draw(40), 'x'); NV w = NV::mk(obj ? NV::object : NV::array);
                        typename N::array e({N(t.c_str(), own), N(42, own)}, own); N x(e, own), y("other", own);
                        if (obj) w.a = {NV::S(t), NV::In(42)}; else { NV q = NV::mk(NV::array); q.a = {NV::S(t), NV::In(42)}; w.a = {q, NV::S("other")}; }
                        auto go = [&](std::initializer_list<N> l) {
                            if (as) { Fault f(k); n = l; d.v = w; }
                            else { N c = [&] { Fault f(k); return N(l, A(a)); }(); spread(c, a, T::pmr && !is_ordered<N>::value, "list"); NV const m = nd::model(c); CHECK(same(norm<N>(m), norm<N>(w)), "list", show(m), " and not ", show(w)); }
                        };
                        if (obj) go({x}); else go({x, y});
                        return "list";
                    }
                }
            }
            default: { // edits
                if (d.v.k == NV::array) { NV const v = gen_nv(s, 1); N x = mk<N>(v, own); { Fault f(k); auto& a = n.template get<typename N::array>(); if (s.coin()) a.push_back(x); else a.insert(a.begin(), x), d.v.a.insert(d.v.a.begin(), v), d.v.a.pop_back(); } d.v = nd::model(n); return "edit"; }
                if (d.v.k == NV::object) { NV const v = gen_nv(s, 1); NV const key = NV::S(cat("#", s.draw(100))); N x = mk<N>(key, own), y = mk<N>(v, own); { Fault f(k); nd::put(n.template get<typename Ty<N>::Obj>(), x, y); } d.v = nd::model(n); return "edit"; }
                { Fault f(k); n.template imbue<typename N::array>(); } if (d.v.k != NV::array) d.v = NV::mk(NV::array); return "imbue";
            }
        }
    }
};
#define NODES(name, ...) Reg name##_("node." #name, NodeTest<__VA_ARGS__>::run, 2)
#if GROUP == 1
NODES(json0, cxon::json::basic_node<jtr<0>>);
NODES(json7, cxon::json::basic_node<jtr<7>>);
NODES(json8, cxon::json::basic_node<jtr<8>>);
NODES(jsonp, cxon::json::basic_node<cxon::json::node_traits<pm>>);
NODES(jsonL, cxon::json::basic_node<jtrL<2>>);
#elif GROUP == 2
NODES(json1, cxon::json::basic_node<jtr<9>>);
NODES(jsonD, cxon::json::basic_node<jtrD<0>>);
NODES(jsonE, cxon::json::basic_node<jtrD<15>>);
NODES(jsono, cxon::json::basic_node<cxon::json::ordered_node_traits<Al<char, 0>>>);
NODES(jsonq, cxon::json::basic_node<cxon::json::ordered_node_traits<pm>>);
#elif GROUP == 3
NODES(cbor0, cxon::cbor::basic_node<ctr<0>>);
NODES(cbor7, cxon::cbor::basic_node<ctr<7>>);
NODES(cborp, cxon::cbor::basic_node<cxon::cbor::node_traits<pm>>);
NODES(cborD, cxon::cbor::basic_node<ctrD<8>>);
NODES(cboro, cxon::cbor::basic_node<cxon::cbor::ordered_node_traits<Al<char, 7>>>);
#endif

// standard containers ////////////////////////////////////////////////////////
// the same type with another allocator
template <class T, template <class> class A> struct Re { using type = T; };
template <class T, template <class> class A> using re = typename Re<T, A>::type;
template <class T, template <class> class A> struct Re<std::basic_string<T>, A> { using type = std::basic_string<T, std::char_traits<T>, A<T>>; };
#define RE1(C) template <class T, template <class> class A> struct Re<C<T>, A> { using type = C<re<T, A>, A<re<T, A>>>; }
RE1(std::vector); RE1(std::deque); RE1(std::list); RE1(std::forward_list);
#define RE2(C) template <class T, template <class> class A> struct Re<C<T>, A> { using type = C<re<T, A>, std::less<re<T, A>>, A<re<T, A>>>; }
RE2(std::set); RE2(std::multiset);
template <class T> struct Hash { std::size_t operator ()(const T& t) const { if constexpr (requires { t.data(); }) { std::size_t h = 1; for (auto& c : t) h = h * 31 + std::size_t(c); return h; } else return std::hash<T>()(t); } };
#define RE3(C) template <class T, template <class> class A> struct Re<C<T>, A> { using type = C<re<T, A>, Hash<re<T, A>>, std::equal_to<re<T, A>>, A<re<T, A>>>; }
RE3(std::unordered_set); RE3(std::unordered_multiset);
#define RE4(C) template <class K, class T, template <class> class A> struct Re<C<K, T>, A> { using type = C<re<K, A>, re<T, A>, std::less<re<K, A>>, A<std::pair<const re<K, A>, re<T, A>>>>; }
RE4(std::map); RE4(std::multimap);
#define RE5(C) template <class K, class T, template <class> class A> struct Re<C<K, T>, A> { using type = C<re<K, A>, re<T, A>, Hash<re<K, A>>, std::equal_to<re<K, A>>, A<std::pair<const re<K, A>, re<T, A>>>>; }
RE5(std::unordered_map); RE5(std::unordered_multimap);
template <class T, class U, template <class> class A> struct Re<std::pair<T, U>, A> { using type = std::pair<re<T, A>, re<U, A>>; };
template <class ...T, template <class> class A> struct Re<std::tuple<T...>, A> { using type = std::tuple<re<T, A>...>; };
template <class T, std::size_t N, template <class> class A> struct Re<std::array<T, N>, A> { using type = std::array<re<T, A>, N>; };
template <class T, template <class> class A> struct Re<std::optional<T>, A> { using type = std::optional<re<T, A>>; };
template <class T> using A_0 = Al<T, 0>; template <class T> using A_15 = Al<T, 15>; template <class T> using A_p = std::pmr::polymorphic_allocator<T>;

template <class T> void all_of(const T& t, const char* op) { // everything is in the first arena
    if constexpr (requires { t.get_allocator(); }) CHECK(arena(t) == &A0, "arena", op, ": a container is of ", arena(t)->name, " arena");
    if constexpr (requires { t.begin(); *t.begin(); }) for (auto&& e : t) all_of(e, op);
    else if constexpr (requires { t.has_value(); *t; }) { if (t) all_of(*t, op); }
    else if constexpr (requires { std::tuple_size<T>::value; }) std::apply([&](auto const& ...e) { (all_of(e, op), ...); }, t);
}
template <class F, class T, class U> void reads(Src& s, const T& proto, const std::string& text, bool strict, const char* name) {
    T w{}; auto const r0 = io::read<F>(w, text); std::string expected; if (r0.ok) cxon::to_bytes<F>(expected, w); (void)proto;
    long k = -1; int tries = 0;
    do {
        long const a0 = A0.allocs; bool whole = false;
        {
            typename U::allocator_type const al(&A0); U u(al); io::Heap const h(text); u64 const g = allocated_total() - bytes; long const d = AD.allocs + A1.allocs;
            try {
                bool ok; { Fault f(k); ok = bool(cxon::from_bytes<F>(u, h.begin(), h.end())); }
                whole = true;
                CHECK(ok == r0.ok, "read", name, ": with std::allocator ", r0.ok, " and here ", ok, " from ", quote(text));
                if (strict) CHECK(AD.allocs + A1.allocs == d, "default", name, ": ", AD.allocs + A1.allocs - d, " allocations from the default arena reading ", quote(text));
                if (strict) CHECK(allocated_total() - bytes == g, "foreign", name, ": ", allocated_total() - bytes - g, " bytes from elsewhere reading ", quote(text));
                if (strict) all_of(u, name);
                if (ok) {
                    std::string o; long const l = A0.allocs + A1.allocs + AD.allocs; cxon::to_bytes<F>(o, u); CHECK(A0.allocs + A1.allocs + AD.allocs == l, "write", "writing allocates from the arenas");
                    bool const det = ty::V<T>::det; CHECK(!det || o == expected, "value", name, ": ", quote(o), " and not ", quote(expected));
                    CHECK(det || o.size() == expected.size(), "value", name, ": ", quote(o), " and not ", quote(expected));
                }
            }
            catch (std::bad_alloc&) { countdown = -1; CHECK(thrown, "bad_alloc", "thrown without a fault"); s.label("fault"); std::string o; cxon::to_bytes<F>(o, u); }
        }
        CHECK(!bad, "returned", name, ": a block is ", bad);
        CHECK(!A0.live && !A1.live && !AD.live, "lost", name, ": blocks not returned reading ", quote(text), " with a failure at ", k, ": ", A0.live, " ", A1.live, " ", AD.live);
        if (k >= 0 && whole) break;
        if (k < 0) { s.nontrivial(A0.allocs - a0 > 1); }
        ++k; if (++tries > 24) k += long(s.draw(1 + u64(tries)));
    } while (tries < 40);
}
template <class T, template <class> class A, bool Strict> void typed_read(Src& s) {
    start(); using U = re<T, A>; bool const cbor = s.coin(); ty::Box<T> b; ty::gen(s, b.v); std::string t;
    if (cbor) cxon::to_bytes<CX>(t, b.v); else cxon::to_bytes<JX>(t, b.v);
    if (s.chance(1, 4) && !t.empty()) { t.resize(s.below(t.size())); s.label("truncated"); }
    s.show(cbor ? hex(t) : quote(t, 80));
    cbor ? reads<CX, T, U>(s, b.v, t, Strict, "cbor") : reads<JX, T, U>(s, b.v, t, Strict, "json");
}
using ty::str; using std::vector;
#define TYPED(n, T, S) Reg n##_("typed." #n ".0", typed_read<T, A_0, S>), n##_15("typed." #n ".15", typed_read<T, A_15, S>), n##_p("typed." #n ".pmr", typed_read<T, A_p, S>)
#if GROUP == 4
using t1 = vector<str>; TYPED(t1, t1, true);
using t2 = std::list<std::deque<str>>; TYPED(t2, t2, true);
using t3 = std::map<str, vector<str>>; TYPED(t3, t3, true);
using t4 = std::set<str>; TYPED(t4, t4, true);
using t5 = std::unordered_map<str, std::list<int>>; TYPED(t5, t5, true);
using t6 = std::forward_list<str>; TYPED(t6, t6, true);
using t7 = vector<std::pair<str, str>>; TYPED(t7, t7, true);
using t8 = std::map<str, std::map<str, str>>; TYPED(t8, t8, true);
using t9 = std::u16string; TYPED(t9, t9, true);
using t10 = vector<unsigned char>; TYPED(t10, t10, true);
using t11 = vector<std::optional<str>>; TYPED(t11, t11, false);
#elif GROUP == 5
using u1 = std::multimap<str, std::u32string>; TYPED(u1, u1, true);
using u2 = std::unordered_set<str>; TYPED(u2, u2, true);
using u3 = std::multiset<vector<short>>; TYPED(u3, u3, true);
using u4 = std::map<int, vector<std::list<str>>>; TYPED(u4, u4, true);
using u5 = vector<std::tuple<str, int>>; TYPED(u5, u5, false);
using u6 = std::map<str, std::tuple<int, vector<std::pair<bool, str>>, std::optional<char>>>; TYPED(u6, u6, false);
using u7 = vector<std::array<str, 2>>; TYPED(u7, u7, false);
using u8_ = std::deque<std::map<str, std::optional<vector<int>>>>; TYPED(u8_, u8_, false);
using u9 = str; TYPED(u9, u9, true);
using u10 = std::map<vector<short>, str>; TYPED(u10, u10, true);
using u11 = std::map<std::pair<int, str>, str>; TYPED(u11, u11, false);
#endif
} // namespace

#if GROUP >= 6
struct News { // calls of operator new
    static long live, count, countdown; static bool thrown; static const char* bad;
    struct Fault { explicit Fault(long k) { countdown = k; thrown = false; } ~Fault() { countdown = -1; } };
};
#endif
#if GROUP == 6
long News::live = 0, News::count = 0, News::countdown = -1; bool News::thrown = false; const char* News::bad = nullptr;
struct alignas(16) NHead { std::size_t n; u64 magic; };
constexpr u64 nmagic = 0xfeed5afe5afefeedull, amagic = nmagic + 1;
static void* new_(std::size_t n, u64 m) {
    if (News::countdown >= 0 && News::countdown-- == 0) { News::thrown = true; throw std::bad_alloc(); }
    auto* h = static_cast<NHead*>(std::malloc(sizeof(NHead) + n)); if (!h) std::abort();
    h->n = n; h->magic = m; ++News::live; ++News::count; return h + 1;
}
static void delete_(void* p, std::size_t n, bool sized, u64 m) noexcept {
    if (!p) return; auto* h = static_cast<NHead*>(p) - 1;
    if (h->magic != m) News::bad = "returned twice, never allocated or returned as an array and not"; else if (sized && h->n != n) News::bad = "returned with another size";
    h->magic = 0; --News::live; std::free(h);
}
void* operator new(std::size_t n) { return new_(n, nmagic); }
void* operator new[](std::size_t n) { return new_(n, amagic); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return new_(n, nmagic); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return new_(n, amagic); } catch (...) { return nullptr; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { delete_(p, 0, false, nmagic); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { delete_(p, 0, false, amagic); }
void operator delete(void* p) noexcept { delete_(p, 0, false, nmagic); }
void operator delete[](void* p) noexcept { delete_(p, 0, false, amagic); }
void operator delete(void* p, std::size_t n) noexcept { delete_(p, n, true, nmagic); }
void operator delete[](void* p, std::size_t n) noexcept { delete_(p, n, true, amagic); }
#endif

namespace {
#if GROUP >= 6
template <class T> struct is_valarray : std::false_type {}; template <class T> struct is_valarray<std::valarray<T>> : std::true_type {};
// any value at all, while any call of operator new may fail
template <class F, class T> void faults(Src& s, const std::string& text, bool ok0, const std::string& expected) {
    long k = -1; int tries = 0; s.show(quote(text, 80));
    do {
        bool whole = false; long const l0 = News::live, n0 = News::count;
        {
            ty::Box<T> u; io::Heap const h(text); int const form = int(s.draw(3)); bool ok = false;
            try {
                { News::Fault f(k); 
                  if (form == 0) ok = bool(cxon::from_bytes<F>(u.v, h.begin(), h.end()));
                  else if (form == 1) { io::Fwd b, e; b.i = h.begin(); e.i = h.end(); ok = bool(cxon::from_bytes<F>(u.v, b, e)); }
                  else { io::In::St st{h.begin(), h.end()}; io::In b; b.s = &st; ok = bool(cxon::from_bytes<F>(u.v, b, io::In{})); } }
                whole = true; CHECK(ok == ok0 || form != 0, "read", "first ", ok0, " and now ", ok, " from ", quote(text));
                if (ok && ok0) { std::string o; cxon::to_bytes<F>(o, u.v); CHECK(!ty::V<T>::det || o == expected, "value", quote(o), " and not ", quote(expected)); }
            }
            catch (std::bad_alloc&) { News::countdown = -1; CHECK(News::thrown, "bad_alloc", "thrown without a fault"); s.label("fault"); std::string o; cxon::to_bytes<F>(o, u.v); }
        }
        CHECK(!News::bad, "returned", "a block is ", News::bad);
        CHECK(News::live == l0, "lost", "blocks not returned reading ", quote(text), " with a failure at ", k, ": ", News::live - l0);
        if (k >= 0 && whole) break;
        if (is_valarray<T>::value) { s.nontrivial(true); break; } // libstdc++: a valarray is broken when resize() fails
        if (k < 0) s.nontrivial(News::count - n0 > 1);
        ++k; if (++tries > 24) k += long(s.draw(1 + u64(tries)));
    } while (tries < 40);
}
template <class T> void any_typed(Src& s) {
    start(); bool const cbor = s.coin(); std::string t, e;
    { ty::Box<T> b; ty::gen(s, b.v); if (cbor) cxon::to_bytes<CX>(t, b.v); else cxon::to_bytes<JX>(t, b.v); }
    if (s.chance(1, 3) && !t.empty()) { t.resize(s.below(t.size())); s.label("truncated"); }
    else if (!std::is_same_v<T, ty::t_mp> && !(cbor && std::is_pointer_v<T>) && s.chance(1, 3) && !t.empty()) { t[s.below(t.size())] = char(s.draw(256)); s.label("changed"); }
    bool ok0; { ty::Box<T> w; ok0 = cbor ? io::read<CX>(w.v, t).ok : io::read<JX>(w.v, t).ok; if (ok0) { if (cbor) cxon::to_bytes<CX>(e, w.v); else cxon::to_bytes<JX>(e, w.v); } }
    cbor ? faults<CX, T>(s, t, ok0, e) : faults<JX, T>(s, t, ok0, e);
}
using namespace ty;
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define ANY(...) static Reg CAT(any, __COUNTER__)("any." #__VA_ARGS__, any_typed<__VA_ARGS__>);
#if GROUP == 6
TYPES_G2(ANY) TYPES_G2S(ANY)
#elif GROUP == 8
TYPES_G3(ANY) TYPES_G3K(ANY)
#elif GROUP == 9
TYPES_G4(ANY)
#elif GROUP == 7
// iterators that throw, for input and output
struct Thrown {};
long ops = -1; void op() { if (ops >= 0 && ops-- == 0) throw Thrown(); }
template <bool Single> struct ItT {
    using iterator_category = std::conditional_t<Single, std::input_iterator_tag, std::forward_iterator_tag>; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char*; using reference = const char&;
    struct St { const char *i, *e; };
    St* s = nullptr; const char* i = nullptr;
    const char* at() const { return Single ? s ? s->i == s->e ? nullptr : s->i : nullptr : i; }
    char const& operator *() const { op(); return *at(); }
    ItT& operator ++() { op(); if (Single) ++s->i; else ++i; return *this; }
    struct Old { char c; char const& operator *() const { return c; } };
    std::conditional_t<Single, Old, ItT> operator ++(int) { op(); if constexpr (Single) { Old t{*at()}; ++s->i; return t; } else { ItT t = *this; ++i; return t; } }
    friend bool operator ==(const ItT& a, const ItT& b) { op(); return a.at() == b.at(); }
    friend bool operator !=(const ItT& a, const ItT& b) { return !(a == b); }
};
template <class F, bool Single, class T, class ...P> bool read_it(T& t, const io::Heap& h, P&&... p) {
    typename ItT<Single>::St st{h.begin(), h.end()}; ItT<Single> b, e; if (Single) b.s = &st; else b.i = h.begin(), e.i = h.end();
    return bool(cxon::from_bytes<F>(t, b, e, std::forward<P>(p)...));
}
template <class T> std::string text_of(Src& s, bool cbor) {
    ty::Box<T> b; ty::gen(s, b.v); std::string t; if (cbor) cxon::to_bytes<CX>(t, b.v); else cxon::to_bytes<JX>(t, b.v);
    if (s.chance(1, 4) && !t.empty()) t[s.below(t.size())] = char(s.draw(256)); s.show(cbor ? hex(t) : quote(t, 80)); return t;
}
template <class F, class T> void reads_it(Src& s, const std::string& text) {
    bool const single = s.coin(); io::Heap const h(text); s.nontrivial(text.size() > 2); long k = 0;
    for (int i = 0; i < 60; ++i) {
        bool whole = false; long const l0 = News::live;
        {
            ty::Box<T> u;
            try { struct R { ~R() { ops = -1; } } r; ops = k; if (single) read_it<F, true>(u.v, h); else read_it<F, false>(u.v, h); whole = true; }
            catch (Thrown&) { s.label("thrown"); }
            std::string o; cxon::to_bytes<F>(o, u.v);
        }
        CHECK(!News::bad, "returned", "a block is ", News::bad); CHECK(News::live == l0, "lost", "blocks not returned when the input throws at ", k, ": ", News::live - l0);
        if (whole) break;
        k += i < 20 ? 1 : 1 + long(s.draw(1 + text.size() / 8));
    }
}
template <class T> void in_typed(Src& s) { start(); bool const cbor = s.coin(); std::string const t = text_of<T>(s, cbor); cbor ? reads_it<CX, T>(s, t) : reads_it<JX, T>(s, t); }
template <class N> void in_node(Src& s) {
    start(); bool const cbor = s.coin(); std::string t = NodeTest<N>::text(s, cbor); if (s.chance(1, 4) && !t.empty()) t[s.below(t.size())] = char(s.draw(256)); s.show(cbor ? hex(t) : quote(t, 80));
    auto mk = [] { return N(typename N::allocator_type(&A0)); }; auto q = [](N&) {};
    io::Heap const h(t); long k = 0; bool const single = s.coin(); s.nontrivial(t.size() > 2);
    for (int i = 0; i < 60; ++i) {
        bool whole = false;
        {
            N n = mk(); q(n);
            try { struct R { ~R() { ops = -1; } } r; ops = k; if (cbor) single ? read_it<CX, true>(n, h) : read_it<CX, false>(n, h); else single ? read_it<JX, true>(n, h) : read_it<JX, false>(n, h); whole = true; }
            catch (Thrown&) { s.label("thrown"); }
            NV const m = nd::model(n); spread(n, &A0, true, "input that throws"); N c(n, typename N::allocator_type(&A1)); CHECK(same(norm<N>(nd::model(c)), norm<N>(m)), "value", "after input that throws: ", show(m)); n.reset();
        }
        CHECK(!bad, "returned", "a block is ", bad);
        CHECK(!A0.live && !A1.live && !AD.live, "lost", "blocks not returned when the input throws at ", k, ": ", A0.live, " ", A1.live, " ", AD.live);
        if (whole) break;
        k += i < 20 ? 1 : 1 + long(s.draw(1 + t.size() / 8));
    }
}
struct OutT {
    using iterator_category = std::output_iterator_tag; using value_type = void; using difference_type = std::ptrdiff_t; using pointer = void; using reference = void;
    std::string* o; OutT& operator *() { return *this; } OutT& operator ++() { return *this; } OutT operator ++(int) { return *this; } OutT& operator =(char c) { op(); o->push_back(c); return *this; }
};
template <class F, class T> void writes(Src& s, const T& t, bool indent) {
    std::string full; if (indent) { auto in = cxon::json::make_indenter(full, 2, ' '); cxon::to_bytes<JX>(in, t); } else cxon::to_bytes<F>(full, t);
    s.show(quote(full, 80)); s.nontrivial(full.size() > 2);
    int const form = int(s.draw(4)); long k = 0; std::string const before(s.draw(4), '#');
    for (int i = 0; i < 60; ++i) {
        bool whole = false; std::string got;
        auto run = [&](auto& c) {
            try { if (indent) { auto in = cxon::json::make_indenter(c, 2, ' '); Fault f(form == 0 ? -1 : k); if (form == 0) ops = k; cxon::to_bytes<JX>(in, t); } else { Fault f(form == 0 ? -1 : k); if (form == 0) ops = k; cxon::to_bytes<F>(c, t); } whole = true; }
            catch (Thrown&) { s.label("thrown"); } catch (std::bad_alloc&) { CHECK(thrown, "bad_alloc", "thrown without a fault"); s.label("fault"); }
            ops = -1; countdown = -1;
        };
        auto cont = [&]<class C>(C c) { c.insert(c.end(), before.begin(), before.end()); run(c); got.assign(c.begin(), c.end()); };
        switch (form) {
            case 0: { got = before; OutT o{&got}; run(o); break; }
            case 1: cont(std::basic_string<char, std::char_traits<char>, Al<char, 0>>(Al<char, 0>(&A0))); break;
            case 2: cont(std::vector<char, Al<char, 0>>(Al<char, 0>(&A0))); break;
            default: cont(std::list<char, Al<char, 0>>(Al<char, 0>(&A0)));
        }
        CHECK(!bad, "returned", "a block is ", bad); CHECK(!A0.live, "lost", "blocks of the output not returned");
        CHECK(got.substr(0, before.size()) == before, "before", "what was in the output has changed: ", quote(got));
        got.erase(0, before.size());
        if (whole) { CHECK(got == full, "output", quote(got), " and not ", quote(full)); break; }
        CHECK(full.compare(0, got.size(), got) == 0, "prefix", quote(got), " is not a prefix of ", quote(full));
        k += i < 20 ? 1 : 1 + long(s.draw(1 + full.size() / 8));
    }
}
template <class T> void out_typed(Src& s) { start(); ty::Box<T> b; ty::gen(s, b.v); switch (s.draw(3)) { case 0: return writes<CX>(s, b.v, false); case 1: return writes<JX>(s, b.v, false); default: return writes<JX>(s, b.v, true); } }
template <class N> void out_node(Src& s) { start(); N n; { NV const v = nd::unique(nd::gen(s, cb<N>, 3)); nd::build(n, v); } switch (s.draw(3)) { case 0: return writes<CX>(s, n, false); case 1: return writes<JX>(s, n, false); default: return writes<JX>(s, n, true); } }
#define IT(n, ...) using n = __VA_ARGS__; Reg n##i("in." #n, in_typed<n>), n##o("out." #n, out_typed<n>)
IT(i1, vector<str>); IT(i2, std::map<str, vector<double>>); IT(i3, std::pair<int*, str*>); IT(i4, vector<double*>); IT(i5, std::list<std::optional<bool>>); IT(i6, std::u16string); IT(i7, vector<unsigned char>); IT(i8, std::map<int, std::shared_ptr<str>>); IT(i9, std::tuple<float, str, char>);
IT(i10, std::variant<int, str, vector<bool>>); IT(i11, std::bitset<70>); IT(i12, std::map<std::pair<int, int>, int>);
Reg nj("in.json", in_node<cxon::json::basic_node<jtr<0>>>), nc("in.cbor", in_node<cxon::cbor::basic_node<ctr<0>>>), njd("in.jsonD", in_node<cxon::json::basic_node<jtrD<2>>>), ncd("in.cborD", in_node<cxon::cbor::basic_node<ctrD<2>>>), oj("out.json", out_node<cxon::json::node>), oc("out.cbor", out_node<cxon::cbor::node>);
#endif
#endif

} // namespace
