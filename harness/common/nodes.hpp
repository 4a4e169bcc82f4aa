// Model of polymorphic nodes and conversions between it, the nodes and the reference documents. C++20.
// Include the formats and cxon/lib/node.hxx, node.ordered.hxx first.
#pragma once
#include "jref.hpp"
#include "cref.hpp"

namespace nd {

using jref::J; using cref::C; using uni::U;

struct NV {
    enum K { object, array, string, real, sint, uint, boolean, null, bytes, tag, simple, undefined } k = null;
    i64 i = 0; u64 n = 0; double d = 0; bool b = false;
    std::string s;              // UTF-8 or bytes
    std::vector<NV> a;          // elements; key, value, ...; tagged
    static NV mk(K k) { NV v; v.k = k; return v; }
    static NV S(std::string s) { NV v; v.k = string; v.s = std::move(s); return v; }
    static NV Un(u64 n) { NV v; v.k = uint; v.n = n; return v; }
    static NV In(i64 i) { NV v; v.k = sint; v.i = i; return v; }
    static NV R(double d) { NV v; v.k = real; v.d = d; return v; }
    static NV B(bool b) { NV v; v.k = boolean; v.b = b; return v; }
    static NV Sim(u64 n) { NV v; v.k = simple; v.n = n; return v; }
};
inline std::string show(const NV& v, int depth = 10) {
    if (!depth) return "..";
    switch (v.k) {
        case NV::string: return quote(v.s, 60); case NV::real: return cat("r", v.d); case NV::sint: return cat("s", v.i); case NV::uint: return cat("u", v.n);
        case NV::boolean: return v.b ? "true" : "false"; case NV::null: return "null"; case NV::undefined: return "undefined"; case NV::bytes: return "h'" + hex(v.s) + "'";
        case NV::simple: return cat("simple(", v.n, ")"); case NV::tag: return cat(v.n, "(", show(v.a[0], depth - 1), ")");
        default: { std::string t = v.k == NV::array ? "[" : "{"; for (std::size_t i = 0; i < v.a.size() && t.size() < 400; ++i) t += (i ? v.k == NV::object && i % 2 ? ":" : "," : "") + show(v.a[i], depth - 1); return t + (v.k == NV::array ? "]" : "}"); }
    }
}
// a total order for canonical forms; NaNs are equal, -0 < 0
inline int cmp(const NV& x, const NV& y) {
    if (x.k != y.k) return x.k < y.k ? -1 : 1;
    auto c = [](auto a, auto b) { return a < b ? -1 : b < a ? 1 : 0; };
    switch (x.k) {
        case NV::real: { if (jref::same_bits(x.d, y.d)) return 0; u64 a, b; std::memcpy(&a, &x.d, 8); std::memcpy(&b, &y.d, 8); return a < b ? -1 : 1; }
        case NV::sint: return c(x.i, y.i); case NV::uint: case NV::simple: return c(x.n, y.n); case NV::boolean: return c(x.b, y.b); case NV::string: case NV::bytes: return c(x.s, y.s);
        case NV::null: case NV::undefined: return 0;
        default: break;
    }
    if (int r = c(x.n, y.n)) return r;
    for (std::size_t i = 0; i < x.a.size() && i < y.a.size(); ++i) if (int r = cmp(x.a[i], y.a[i])) return r;
    return c(x.a.size(), y.a.size());
}
inline bool same(const NV& x, const NV& y) { return cmp(x, y) == 0; }
inline NV canon(NV v) { // members in a canonical order (stable)
    for (auto& x : v.a) x = canon(std::move(x));
    if (v.k == NV::object) {
        std::vector<std::pair<NV, NV>> e; for (std::size_t i = 0; i + 1 < v.a.size(); i += 2) e.emplace_back(std::move(v.a[i]), std::move(v.a[i + 1]));
        std::stable_sort(e.begin(), e.end(), [](auto& a, auto& b) { return cmp(a.first, b.first) < 0; });
        v.a.clear(); for (auto& x : e) v.a.push_back(std::move(x.first)), v.a.push_back(std::move(x.second));
    }
    return v;
}
inline bool has_nan(const NV& v) { if (v.k == NV::real && v.d != v.d) return true; for (auto& x : v.a) if (has_nan(x)) return true; return false; }
inline bool has_negzero(const NV& v) { if (v.k == NV::real && v.d == 0 && std::signbit(v.d)) return true; for (auto& x : v.a) if (has_negzero(x)) return true; return false; }
inline int depth(const NV& v, bool tags) { int d = 0; for (auto& x : v.a) d = std::max(d, depth(x, tags)); return d + (v.k == NV::object || v.k == NV::array || (tags && v.k == NV::tag)); }
// keys that a map holds as distinct ones
inline NV zero(NV v) { if (v.k == NV::real && v.d == 0) v.d = 0; for (auto& x : v.a) x = zero(x); return v; }
inline bool unique_keys(const NV& v) {
    for (auto& x : v.a) if (!unique_keys(x)) return false;
    if (v.k != NV::object) return true;
    std::vector<NV> ks; for (std::size_t i = 0; i < v.a.size(); i += 2) { if (has_nan(v.a[i])) return false; ks.push_back(zero(canon(v.a[i]))); }
    std::sort(ks.begin(), ks.end(), [](auto& a, auto& b) { return cmp(a, b) < 0; });
    for (std::size_t i = 1; i < ks.size(); ++i) if (same(ks[i - 1], ks[i])) return false;
    return true;
}

// nodes -> model
template <class N> inline NV from_json(const N& n) {
    using cxon::json::node_kind; NV v;
    switch (n.kind()) {
        case node_kind::object: v.k = NV::object; for (auto& e : n.template get<typename N::object>()) v.a.push_back(from_json(e.first)), v.a.push_back(from_json(e.second)); break;
        case node_kind::array: v.k = NV::array; for (auto& e : n.template get<typename N::array>()) v.a.push_back(from_json(e)); break;
        case node_kind::string: { v.k = NV::string; auto& s = n.template get<typename N::string>(); if constexpr (sizeof(s[0]) == 1) v.s.assign(s.begin(), s.end()); else { U u; if (!uni::from(s, u)) fail("string", "an ill-formed string in a node"); v.s = uni::to8(u); } break; }
        case node_kind::real: v.k = NV::real; v.d = double(n.template get<typename N::real>()); break;
        case node_kind::sint: v.k = NV::sint; v.i = n.template get<typename N::sint>(); break;
        case node_kind::uint: v.k = NV::uint; v.n = n.template get<typename N::uint>(); break;
        case node_kind::boolean: v.k = NV::boolean; v.b = n.template get<typename N::boolean>(); break;
        case node_kind::null: break;
    }
    return v;
}
template <class N> inline NV from_cbor(const N& n) {
    using cxon::cbor::node_kind; NV v;
    switch (n.kind()) {
        case node_kind::map: v.k = NV::object; for (auto& e : n.template get<typename N::map>()) v.a.push_back(from_cbor(e.first)), v.a.push_back(from_cbor(e.second)); break;
        case node_kind::array: v.k = NV::array; for (auto& e : n.template get<typename N::array>()) v.a.push_back(from_cbor(e)); break;
        case node_kind::tag: { v.k = NV::tag; auto& t = n.template get<typename N::tag>(); v.n = t.tag; v.a.push_back(from_cbor(t.value)); break; }
        case node_kind::bytes: v.k = NV::bytes; for (auto b : n.template get<typename N::bytes>()) v.s += char(b); break;
        case node_kind::text: v.k = NV::string; v.s = n.template get<typename N::text>(); break;
        case node_kind::real: v.k = NV::real; v.d = double(n.template get<typename N::real>()); break;
        case node_kind::sint: v.k = NV::sint; v.i = n.template get<typename N::sint>(); break;
        case node_kind::uint: v.k = NV::uint; v.n = n.template get<typename N::uint>(); break;
        case node_kind::simple: v.k = NV::simple; v.n = n.template get<typename N::simple>().value; break;
        case node_kind::boolean: v.k = NV::boolean; v.b = n.template get<typename N::boolean>(); break;
        case node_kind::null: break;
        case node_kind::undefined: v.k = NV::undefined; break;
    }
    return v;
}
template <class N> struct is_cbor : std::false_type {};
template <class Tr> struct is_cbor<cxon::cbor::basic_node<Tr>> : std::true_type {};
template <class N> inline NV model(const N& n) { if constexpr (is_cbor<N>::value) return from_cbor(n); else return from_json(n); }

// model -> nodes
template <class M, class K, class W> inline auto put(M& m, K&& k, W&& w) -> decltype(m.emplace_back(std::forward<K>(k), std::forward<W>(w)), void()) { m.emplace_back(std::forward<K>(k), std::forward<W>(w)); }
template <class M, class K, class W> inline auto put(M& m, K&& k, W&& w) -> decltype(m.emplace(std::forward<K>(k), std::forward<W>(w)), void()) { m.emplace(std::forward<K>(k), std::forward<W>(w)); }
template <class N> inline void build(N& n, const NV& v) {
    switch (v.k) {
        case NV::object: {
            auto go = [&](auto& m) { for (std::size_t i = 0; i < v.a.size(); i += 2) { N k, w; build(k, v.a[i]); build(w, v.a[i + 1]); put(m, std::move(k), std::move(w)); } };
            if constexpr (is_cbor<N>::value) go(n.template imbue<typename N::map>()); else go(n.template imbue<typename N::object>());
            break;
        }
        case NV::array: { auto& a = n.template imbue<typename N::array>(); for (auto& x : v.a) { a.emplace_back(); build(a.back(), x); } break; }
        case NV::string: if constexpr (is_cbor<N>::value) n.template imbue<typename N::text>() = v.s; else { U u; uni::from8(v.s, u); n.template imbue<typename N::string>() = uni::to<typename N::string::value_type>(u); } break;
        case NV::real: n.template imbue<typename N::real>() = typename N::real(v.d); break;
        case NV::sint: n.template imbue<typename N::sint>() = typename N::sint(v.i); break;
        case NV::uint: n.template imbue<typename N::uint>() = typename N::uint(v.n); break;
        case NV::boolean: n.template imbue<typename N::boolean>() = v.b; break;
        case NV::null: n.template imbue<typename N::null>(); break;
        default:
            if constexpr (is_cbor<N>::value) {
                if (v.k == NV::bytes) { auto& b = n.template imbue<typename N::bytes>(); for (char c : v.s) b.push_back((unsigned char)c); }
                else if (v.k == NV::tag) { auto& t = n.template imbue<typename N::tag>(); t.tag = v.n; build(t.value, v.a[0]); }
                else if (v.k == NV::simple) n.template imbue<typename N::simple>() = (unsigned char)v.n;
                else n.template imbue<typename N::undefined>();
            }
    }
}

// documents -> model
inline NV number(const std::string& t, int bits = 64) {
    if (t.find_first_of(".eE") == std::string::npos) {
        bool const neg = t[0] == '-'; unsigned __int128 m = 0; bool big = false;
        for (std::size_t i = neg; i < t.size(); ++i) { m = m * 10 + unsigned(t[i] - '0'); if (m > (unsigned __int128)1 << 100) big = true, m = (unsigned __int128)1 << 101; }
        unsigned __int128 const half = (unsigned __int128)1 << (bits - 1);
        if (!big && neg && m <= half) return NV::In(i64(-(__int128)m));
        if (!big && !neg && m < half * 2) return NV::Un(u64(m));
    }
    return NV::R(std::strtod(t.c_str(), nullptr));
}
inline NV from_doc(const J& j, int bits = 64, bool nans = false) {
    NV v;
    auto str = [&](const U& u) { std::string s = uni::to8(u); if (nans) { if (s == "inf") return NV::R(std::numeric_limits<double>::infinity()); if (s == "-inf") return NV::R(-std::numeric_limits<double>::infinity()); if (s == "nan") return NV::R(std::numeric_limits<double>::quiet_NaN()); } return NV::S(s); };
    switch (j.k) {
        case J::null: break;
        case J::boolean: return NV::B(j.b);
        case J::number: return number(j.num, bits);
        case J::string: return str(j.s);
        case J::array: v.k = NV::array; for (auto& x : j.a) v.a.push_back(from_doc(x, bits, nans)); break;
        case J::object: v.k = NV::object; for (auto& x : j.o) v.a.push_back(NV::S(uni::to8(x.first))), v.a.push_back(from_doc(x.second, bits, nans)); break; // keys stay strings
    }
    return v;
}
inline NV only_reals(NV v) { return v; }
// items -> model; false: a number does not fit
inline bool from_item(const C& c, NV& v) {
    switch (c.k) {
        case C::uint: v = NV::Un(c.n); break;
        case C::nint: v.k = NV::sint; v.i = i64(~c.n); return c.n <= 0x7fffffffffffffffull;
        case C::bytes: v.k = NV::bytes; v.s = c.s; break;
        case C::text: v.k = NV::string; v.s = c.s; break;
        case C::array: case C::map: v.k = c.k == C::array ? NV::array : NV::object; for (auto& x : c.a) { v.a.emplace_back(); if (!from_item(x, v.a.back())) return false; } break;
        case C::tag: v.k = NV::tag; v.n = c.n; v.a.emplace_back(); return from_item(c.a[0], v.a[0]);
        case C::simple: v = c.n == 20 || c.n == 21 ? NV::B(c.n == 21) : c.n == 22 ? NV::mk(NV::null) : c.n == 23 ? NV::mk(NV::undefined) : NV::Sim(c.n); break;
        case C::flt: v = NV::R(c.d); break;
    }
    return true;
}
inline C to_item(const NV& v) { // what a node is written as
    C c;
    switch (v.k) {
        case NV::object: case NV::array: c.k = v.k == NV::array ? C::array : C::map; for (auto& x : v.a) c.a.push_back(to_item(x)); break;
        case NV::string: return C::T(v.s); case NV::bytes: return C::B(v.s); case NV::real: return C::F(v.d, 8); case NV::sint: return C::I(v.i); case NV::uint: return C::Un(v.n);
        case NV::boolean: return C::Bool(v.b); case NV::null: return C::S(22); case NV::undefined: return C::S(23); case NV::simple: return C::S(unsigned(v.n)); case NV::tag: return C::Tag(v.n, to_item(v.a[0]));
    }
    return c;
}
// what a json::node reads from CBOR: tags are dropped, undefined is null, simple values are numbers, byte strings are arrays of numbers
inline NV as_json(const NV& v) {
    switch (v.k) {
        case NV::tag: return as_json(v.a[0]);
        case NV::undefined: return NV();
        case NV::simple: return NV::Un(v.n);
        case NV::bytes: { NV r = NV::mk(NV::array); for (char c : v.s) r.a.push_back(NV::Un(u8(c))); return r; }
        default: { NV r = v; for (auto& x : r.a) x = as_json(x); return r; }
    }
}

// random node trees; kinds of the JSON nodes only unless cbor
inline NV gen(Src& s, bool cbor, int depth = 4, bool strkeys = false) {
    unsigned const k = unsigned(s.draw(depth > 0 && s.budget > 0 ? 16 : 9));
    switch (k) {
        case 0: return NV();
        case 1: return NV::B(s.coin());
        case 2: return NV::Un(s.bits());
        case 3: { i64 i = i64(s.bits()); if (s.coin()) i = ~i; return NV::In(i); }
        case 4: return NV::R(cref::gen_double(s));
        case 5: case 6: return NV::S(uni::to8(uni::gen(s)));
        case 7: if (cbor) { NV v = NV::mk(NV::bytes); for (std::size_t n = s.len(); n--; ) v.s += char(s.draw(256)); return v; } return NV::S(uni::to8(uni::gen(s, 30)));
        case 8: if (cbor) { if (s.coin()) return NV::mk(NV::undefined); unsigned x = unsigned(s.draw(20 + 224)); return NV::Sim(x < 20 ? x : x + 12); } return NV();
        case 9: case 10: case 11: { NV v = NV::mk(NV::array); for (std::size_t n = s.len(); n--; ) v.a.push_back(gen(s, cbor, depth - 1, strkeys)); return v; }
        case 12: if (cbor) { NV v = NV::mk(NV::tag); v.n = s.coin() ? s.draw(40) : s.bits(); v.a.push_back(gen(s, cbor, depth - 1, strkeys)); return v; } [[fallthrough]];
        default: {
            NV v = NV::mk(NV::object);
            for (std::size_t n = s.len(); n--; ) {
                NV key = strkeys || s.chance(3, 4) ? NV::S(uni::to8(uni::gen(s, 4))) : gen(s, cbor, std::min(depth - 1, 1), strkeys);
                v.a.push_back(std::move(key)); v.a.push_back(gen(s, cbor, depth - 1, strkeys));
            }
            return v;
        }
    }
}
// without the members whose keys are repeated or unordered
inline NV unique(NV v) {
    for (auto& x : v.a) x = unique(std::move(x));
    if (v.k != NV::object) return v;
    std::vector<NV> out, seen;
    for (std::size_t i = 0; i < v.a.size(); i += 2) {
        if (has_nan(v.a[i])) continue;
        NV const z = zero(canon(v.a[i])); bool dup = false; for (auto& q : seen) dup = dup || same(q, z);
        if (!dup) seen.push_back(z), out.push_back(v.a[i]), out.push_back(v.a[i + 1]);
    }
    v.a = std::move(out);
    return v;
}

} // nd
