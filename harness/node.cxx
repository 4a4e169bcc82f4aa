// J04, N03-N07: polymorphic nodes and the two formats. -DP_<property>
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#include "cxon/lib/node.hxx"
#include "cxon/lib/node.ordered.hxx"
#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/optional.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/unordered_map.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/vector.hxx"
#include "cxon/lib/std/memory.hxx"
#include "common/io.hpp"
#include "common/types.hpp"
#include "common/nodes.hpp"
#include <unordered_map>
using namespace nd;
using JX = cxon::JSON<>; using CX = cxon::CBOR<>;
using JN = cxon::json::node; using JO = cxon::json::ordered_node; using CN = cxon::cbor::node; using CO = cxon::cbor::ordered_node;

struct traits32 : cxon::json::node_traits<> { // other types for everything
    template <class T> using array_type = std::deque<T>;
    template <class K, class V> using object_type = std::unordered_map<K, V>;
    using string_type = std::u16string; using sint_type = int; using uint_type = unsigned;
    using dynamic_types = cxon::scalar_sequence<cxon::json::node_kind, cxon::json::node_kind::object, cxon::json::node_kind::array, cxon::json::node_kind::string>;
};
using J32 = cxon::json::basic_node<traits32>;
struct traitsL : cxon::json::node_traits<> {
    template <class T> using array_type = std::list<T>;
    template <class K, class V> using object_type = std::multimap<K, V>;
    using string_type = std::u32string;
};
using JL = cxon::json::basic_node<traitsL>;
template <class N> constexpr int bits = std::is_same_v<N, J32> ? 32 : 64;
template <class N> constexpr bool ordered = std::is_same_v<N, JO> || std::is_same_v<N, CO>;
template <class N> inline NV normal(NV v) { return ordered<N> ? v : canon(std::move(v)); }

static bool dup_keys(const J& j) {
    for (auto& x : j.a) if (dup_keys(x)) return true;
    for (std::size_t i = 0; i < j.o.size(); ++i) { if (dup_keys(j.o[i].second)) return true; for (std::size_t k = 0; k < i; ++k) if (j.o[k].first == j.o[i].first) return true; }
    return false;
}
static bool long_number(const J& j, std::size_t n) { if (j.k == J::number && j.num.size() > n) return true; for (auto& x : j.a) if (long_number(x, n)) return true; for (auto& x : j.o) if (long_number(x.second, n)) return true; return false; }
static bool bad_number(const J& j) { // out of the range of double
    if (j.k == J::number && number(j.num).k == NV::real && !jref::finite_double(j.num)) return true;
    for (auto& x : j.a) if (bad_number(x)) return true;
    for (auto& x : j.o) if (bad_number(x.second)) return true;
    return false;
}
[[maybe_unused]] static NV unsign(NV v) { if (v.k == NV::sint && v.i >= 0) v = NV::Un(u64(v.i)); for (auto& x : v.a) x = unsign(std::move(x)); return v; }
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define REG(n, f) static Reg CAT(r_, __COUNTER__)(n, f);

#if defined(P_J04)
static std::string text(Src& s) {
    jref::Style st; st.shuffle = true; if (s.chance(1, 6)) st.ws = false; if (s.chance(1, 6)) st.esc = false;
    return jref::render(jref::gen_doc(s, int(s.range(0, 5)), s.chance(7, 8)), s, st);
}
// accepted exactly when grammatical; the end of what was read and of what failed
template <class N> static void one(Src& s, const std::string& t, bool in) {
    J g; std::size_t n = 0, at = 0; const char* err = nullptr; int depth = 0;
    bool ok = jref::parse_prefix(t, g, n, &err, &at, &depth);
    if (depth > 60 || (in && ok && long_number(g, 60))) return s.label("unspecified");
    bool const range = ok && bad_number(g); if (range) ok = false, err = "range";
    N a; auto const r = in ? io::read_in<JX>(a, t) : io::read<JX>(a, t);
    CHECK(r.end >= 0 && r.end <= long(t.size()), "position", "end is out of the input: ", r.end);
    if (ok) {
        CHECK(r.ok, "reject", "grammatical but rejected: ", io::msg(r), " at ", r.end, " in ", quote(t));
        CHECK(r.end == long(n), "end", "ends at ", r.end, " expected ", n, " in ", quote(t));
        s.label("accepted");
    }
    else {
        CHECK(!r.ok, "accept", "not grammatical (", err ? err : "", " at ", at, ") but accepted: ", quote(t), " as ", show(model(a)));
        CHECK(r.ec.value() != 0, "error", "no error condition");
        if (!range && !in) {
            std::size_t lim = at; while (lim < t.size() && !std::strchr(",:[]{}\" \t\r\n", t[lim])) ++lim;
            CHECK(r.end <= long(std::min(lim + 1, t.size())), "beyond", "the error is at ", at, " but the end is ", r.end, " in ", quote(t));
        }
        s.label(range ? "range" : "rejected");
    }
}
template <class N> static void valid(Src& s) { // documents followed by anything
    std::string t = text(s); std::size_t const n = t.size();
    static const char* suf[] = {"", "", ",", "]", "}", " ", "\n1", "\"x", " \xff", ":", "x", "0", ".", "e1"};
    t += s.pick(suf); s.show(quote(t)); s.nontrivial(n > 2);
    one<N>(s, t, false);
}
template <class N> static void mutated(Src& s) {
    std::string t = jref::mutate(text(s), s, 1 + int(s.draw(3))); s.show(quote(t)); s.nontrivial(t.size() > 2);
    one<N>(s, t, s.chance(1, 6));
}
template <class N> static void prefixes(Src& s) { // every truncation of a container or of a string is rejected
    J j; do j = jref::gen_doc(s, 3); while (false);
    if (j.k != J::array && j.k != J::object && j.k != J::string) { J x = J::A(); x.a.push_back(j); j = x; }
    std::string const t = jref::render(j, s);
    std::size_t const step = t.size() > 300 ? t.size() / 100 : 1;
    for (std::size_t n = 0; n < t.size(); n += step) {
        N a; auto const r = io::read<JX>(a, t.substr(0, n));
        CHECK(!r.ok, "prefix", "a truncated document is accepted: ", quote(t.substr(0, n)));
        CHECK(r.end >= 0 && r.end <= long(n), "position", "end is out of the input: ", r.end);
    }
    s.show(quote(t)); s.nontrivial(t.size() > 2);
}
template <class N> static void tokens(Src& s) { // strings of tokens
    static const char* tok[] = {"{", "}", "[", "]", ",", ":", "\"a\"", "\"\"", "null", "true", "false", "0", "-1", "1.5", "1e3", " ", "\n", "\"b\":1", "[]", "{}"};
    std::string t; for (u64 n = 1 + s.draw(12); n--; ) t += s.pick(tok);
    s.show(quote(t)); s.nontrivial(t.size() > 2);
    one<N>(s, t, false);
}
template <class N> static void numbers(Src& s) { // strings of number characters
    std::string t; for (u64 n = 1 + s.draw(9); n--; ) t += "0123456789-+.eE01"[s.draw(17)];
    s.show(quote(t)); s.nontrivial(t.size() > 1);
    one<N>(s, t, s.chance(1, 6));
}
template <class N> static void strings(Src& s) { // a string with a bad or odd part
    static const char* part[] = {"\\", "\\\"", "\\u", "\\u0", "\\u00e", "\\u00E9", "\\ud83c", "\\udf4c", "\\uD83C\\uDF4C", "\\ud83c\\u0041", "\\x41", "\\'", "\\0", "\\a", "\\b\\f\\n\\r\\t\\/", "\t", "\n", "\x01", "\x1f", "\x7f", "\xc3\xa9", "\xc3", "\xc1\x81", "\xe2\x82\xac", "\xe2\x82", "\xe0\x80\x80", "\xed\xa0\x80", "\xf0\x9f\x8d\x8c", "\xf0\x9f\x8d", "\xf0\x80\x80\x80", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xff", "\x80", "a", "", "\"", "\\u12G4", "\\U0041", "\\u-001", "\\u+041", "\\u 041"};
    std::string t = "\""; for (u64 n = s.draw(40); n--; ) t += 'x';
    for (u64 n = 1 + s.draw(3); n--; ) { t += s.pick(part); for (u64 m = s.draw(3); m--; ) t += 'y'; }
    t += "\""; if (s.chance(1, 4)) t = "[" + t + ",1]"; if (s.chance(1, 4)) t = "{" + t + ":1}";
    s.show(quote(t)); s.nontrivial();
    one<N>(s, t, s.chance(1, 6));
}
#define ALL(N) REG("valid/" #N, valid<N>) REG("mutated/" #N, mutated<N>) REG("tokens/" #N, tokens<N>) REG("strings/" #N, strings<N>) REG("numbers/" #N, numbers<N>) REG("prefixes/" #N, prefixes<N>)
ALL(JN) ALL(JO) ALL(CN) ALL(CO) ALL(JL)
#elif defined(P_N03)
template <class N> static void reread(const N& n, const NV& v, const std::string& t) {
    N b; auto const r = io::read<JX>(b, t);
    CHECK(r.ok && r.end == long(t.size()), "reread", "own output is rejected: ", io::msg(r), " at ", r.end, " in ", quote(t));
    if (!has_nan(v)) CHECK(b == n && !(b != n), "equal", "another node is restored from ", quote(t), ": ", show(model(b)), " expected ", show(v));
}
// a document read is the tree, the tree written is the document
template <class N> static void doc(Src& s) {
    J j = jref::gen_doc(s, 5); jref::Style st; st.shuffle = true;
    std::string const t = jref::render(j, s, st);
    J g; CHECK(jref::parse(t, g), "harness", "not a document");
    NV const want = normal<N>(from_doc(g, bits<N>));
    N a; auto const r = io::read<JX>(a, t);
    CHECK(r.ok && r.end == long(t.size()), "reject", "a document is rejected: ", io::msg(r), " at ", r.end, " in ", quote(t));
    NV const got = normal<N>(model(a));
    CHECK(same(got, want), "tree", "another tree: ", show(got), " expected ", show(want), " from ", quote(t));
    std::string u; auto const w = io::write<JX>(u, a);
    CHECK(w.ok, "write", "writing failed: ", io::msg(w));
    J h; const char* err = nullptr;
    CHECK(jref::parse(u, h, &err) && jref::compact(u), "grammar", "not a compact document: ", quote(u), " ", err ? err : "");
    NV const back = normal<N>(from_doc(h, bits<N>));
    // reals without a fraction are written as integers
    struct Z { static bool eq(const NV& x, const NV& y) {
        if (x.k == NV::real) return y.k == NV::real ? jref::same_bits(x.d, y.d) : y.k == NV::uint ? double(y.n) == x.d : y.k == NV::sint && double(y.i) == x.d;
        if (x.k == NV::sint && x.i == 0 && y.k == NV::uint && y.n == 0) return true; // -0
        if (x.k != y.k || x.a.size() != y.a.size()) return false;
        if (x.a.empty()) return same(x, y);
        for (std::size_t i = 0; i < x.a.size(); ++i) if (!eq(x.a[i], y.a[i])) return false;
        return true;
    } };
    CHECK(Z::eq(got, back), "text", "the text denotes another tree: ", quote(u), " for ", show(got));
    s.show(quote(t)); s.nontrivial(t.size() > 2);
}
// a tree written is a document that denotes it
static J expect(const NV& v, bool key = false) {
    switch (v.k) {
        case NV::null: return key ? J::S(U"null") : J::N(); case NV::boolean: return key ? J::S(v.b ? U"true" : U"false") : J::B(v.b);
        case NV::uint: return J::Int(v.n); case NV::sint: return J::Int(v.i);
        case NV::real: return std::isfinite(v.d) ? J::F('d', v.d) : J::S(v.d != v.d ? U"nan" : v.d < 0 ? U"-inf" : U"inf");
        case NV::string: { U u; uni::from8(v.s, u); return J::S(u); }
        case NV::array: { J j = J::A(); for (auto& x : v.a) j.a.push_back(expect(x)); return j; }
        case NV::object: { J j = J::O(); for (std::size_t i = 0; i < v.a.size(); i += 2) {
            J k = expect(v.a[i], true); char ok = 0; U u;
            if (k.k == J::string) u = k.s; else if (k.fk) { ok = 'd'; char b[64]; std::snprintf(b, 64, "%.17g", double(k.fv)); for (char* p = b; *p; ++p) u += char32_t(*p); } else for (char c : k.num) u += char32_t(c);
            j.add(u, expect(v.a[i + 1]), ok);
        } return j; }
        default: return J::N();
    }
}
static bool plain_keys(const NV& v) { if (v.k == NV::object) for (std::size_t i = 0; i < v.a.size(); i += 2) if (v.a[i].k == NV::array || v.a[i].k == NV::object) return false; for (auto& x : v.a) if (!plain_keys(x)) return false; return true; }
static NV scalar_keys(NV v) { if (v.k == NV::object) { NV r = v; r.a.clear(); for (std::size_t i = 0; i < v.a.size(); i += 2) if (v.a[i].k != NV::array && v.a[i].k != NV::object) r.a.push_back(v.a[i]), r.a.push_back(scalar_keys(v.a[i + 1])); return r; } for (auto& x : v.a) x = scalar_keys(x); return v; }
static bool nan_sign(const NV& v) { if (v.k == NV::real && v.d != v.d && std::signbit(v.d)) return true; for (auto& x : v.a) if (nan_sign(x)) return true; return false; }
static NV pos_nan(NV v) { if (v.k == NV::real && v.d != v.d) v.d = std::numeric_limits<double>::quiet_NaN(); for (auto& x : v.a) x = pos_nan(x); return v; }
template <class N> static NV limit(NV v) { if (bits<N> == 32) { if (v.k == NV::uint) v.n &= 0xffffffff; if (v.k == NV::sint) v.i = int(v.i); } for (auto& x : v.a) x = limit<N>(std::move(x)); return v; }
template <class N> static void tree(Src& s) {
    NV v = unique(limit<N>(pos_nan(scalar_keys(nd::gen(s, false)))));
    N n; build(n, v);
    NV const m = model(n); // in the order of the node
    CHECK(same(canon(m), canon(v)), "build", "the node holds another tree: ", show(m), " expected ", show(v));
    std::string u; auto const w = io::write<JX>(u, n);
    CHECK(w.ok, "write", "writing failed: ", io::msg(w));
    J h; const char* err = nullptr; std::string why;
    CHECK(jref::parse(u, h, &err) && jref::compact(u), "grammar", "not a compact document: ", quote(u), " ", err ? err : "");
    CHECK(jref::match(expect(m), h, why), "text", "the text denotes another tree (", why, "): ", quote(u), " for ", show(m));
    s.show(quote(u)); s.nontrivial(u.size() > 2);
}
// trees as they are read: strings as keys, integers by sign, finite numbers that are not integers of 64 bits
static NV canonical(NV v) {
    if (v.k == NV::sint && v.i >= 0) v = NV::Un(u64(v.i));
    if (v.k == NV::real && (!std::isfinite(v.d) || (v.d == std::floor(v.d) && std::fabs(v.d) < 1e21))) v.d = 0.5;
    for (auto& x : v.a) x = canonical(std::move(x));
    return v;
}
template <class N> static void trip(Src& s) {
    NV v = nd::gen(s, false, 4, true); if (!ordered<N>) v = unique(v);
    v = canonical(limit<N>(v));
    N n; build(n, v);
    std::string u; auto const w = io::write<JX>(u, n); CHECK(w.ok, "write", "writing failed: ", io::msg(w));
    reread(n, v, u);
    s.show(quote(u)); s.nontrivial(u.size() > 2);
}
// extract_nans
template <class N> static void nans(Src& s) {
    NV v = nd::gen(s, false, 3, true); if (!ordered<N>) v = unique(v);
    struct Z { static void go(NV& v, Src& s) { if (v.k == NV::real || (v.k == NV::string && s.chance(1, 3))) { static const double d[] = {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 0.5}; v = NV::R(s.pick(d)); } for (std::size_t i = 0; i < v.a.size(); ++i) if (v.k == NV::array || i % 2) go(v.a[i], s); } }; Z::go(v, s);
    struct Q { static void go(NV& v) { if (v.k == NV::sint && v.i >= 0) v = NV::Un(u64(v.i)); for (auto& x : v.a) go(x); } }; Q::go(v);
    N n; build(n, v);
    std::string u; auto const w = io::write<JX>(u, n); CHECK(w.ok, "write", "writing failed: ", io::msg(w));
    N a; auto const r = io::read<JX>(a, u, cxon::node::json::extract_nans::set<true>());
    CHECK(r.ok && r.end == long(u.size()), "reread", "own output is rejected: ", io::msg(r));
    NV const x = normal<N>(model(a)), y = normal<N>(v);
    CHECK(same(x, y), "nans", "another tree: ", show(x), " expected ", show(y), " from ", quote(u));
    N b; auto const q = io::read<JX>(b, u); // without: strings
    CHECK(q.ok, "reread", "own output is rejected: ", io::msg(q));
    J h; CHECK(jref::parse(u, h), "grammar", "not a document: ", quote(u));
    CHECK(same(normal<N>(model(b)), normal<N>(from_doc(h))), "strings", "another tree: ", show(model(b)), " from ", quote(u));
    s.show(quote(u)); s.nontrivial(u.size() > 2);
}
#define ALL(N) REG("document/" #N, doc<N>) REG("tree/" #N, tree<N>) REG("trip/" #N, trip<N>)
ALL(JN) ALL(JO) ALL(J32) ALL(JL)
REG("nans/JN", nans<JN>) REG("nans/JO", nans<JO>)
#elif defined(P_N04)
struct traitsC : cxon::cbor::node_traits<> { // other types for the containers
    template <class K, class V> using map_type = std::multimap<K, V>;
    template <class T> using array_type = std::list<T>;
    using bytes_type = std::deque<unsigned char>;
    using dynamic_types = cxon::scalar_sequence<cxon::cbor::node_kind, cxon::cbor::node_kind::map, cxon::cbor::node_kind::array, cxon::cbor::node_kind::tag, cxon::cbor::node_kind::text, cxon::cbor::node_kind::bytes>;
};
using CM = cxon::cbor::basic_node<traitsC>;
template <class N> constexpr bool multi = std::is_same_v<N, CM>;
template <class N> static bool known(const NV& v) { return (ordered<N> && true) || (multi<N> ? unique_keys(v) : unique_keys(v)); }
template <class N> static NV normal4(NV v) { v = unsign(std::move(v)); return ordered<N> ? v : canon(std::move(v)); }
// what is written is the shortest encoding of the tree
template <class N> static void write_it(const N& n, const NV& m, std::string& u) {
    auto const w = io::write<CX>(u, n);
    CHECK(w.ok, "write", "writing failed: ", io::msg(w), " for ", show(m));
    std::string const x = cref::shortest(to_item(m));
    C g; std::size_t k; CHECK(cref::decode(u, g, k) && k == u.size(), "wellformed", "not one well-formed item: ", hex(u));
    if (u != x) { C y = to_item(m); // an empty text or byte string, NaN payloads
        struct Z { static bool like(const C& a, const C& b) { if (a.k != b.k) return false; if (a.k == C::flt) return cref::same(a, b); if (a.n != b.n || a.s != b.s || a.a.size() != b.a.size()) return false; for (std::size_t i = 0; i < a.a.size(); ++i) if (!like(a.a[i], b.a[i])) return false; return true; } };
        CHECK(u.size() == x.size() && Z::like(g, y), "encoding", "written as ", hex(u), " expected ", hex(x)); }
}
template <class N> static void reread(const N& n, const NV& m, const std::string& u) {
    N b; auto const r = io::read<CX>(b, u);
    CHECK(r.ok && r.end == long(u.size()), "reread", "own output is rejected: ", io::msg(r), " at ", r.end, " in ", hex(u));
    CHECK(same(normal4<N>(model(b)), normal4<N>(m)), "restored", "another node is restored: ", show(model(b)), " expected ", show(m));
    if (!has_nan(m) && same(unsign(m), m)) CHECK(b == n && !(b != n), "equal", "the node restored is not equal: ", show(m));
}
template <class N> static void item(Src& s) {
    C c = cref::gen(s, 5); cref::Style st; st.shuffle = true; if (s.chance(1, 5)) st.tags = 0;
    std::string t = cref::lawful(c, s, st); std::size_t const n = t.size();
    C g; std::size_t k; bool lax = false; CHECK(cref::decode(t, g, k, nullptr, nullptr, nullptr, &lax) && k == n && !lax, "harness", "the encoder is wrong");
    for (u64 q = s.draw(3); q--; ) t += char(s.draw(256));
    NV want; bool const fits = from_item(g, want);
    N a; auto const r = s.chance(1, 5) ? io::read_in<CX>(a, t) : io::read<CX>(a, t);
    s.show(hex(t)); s.nontrivial(n > 1);
    if (!fits) { CHECK(!r.ok, "range", "an integer out of range is accepted: ", hex(t), " as ", show(model(a))); return s.label("range"); }
    CHECK(r.ok, "reject", "a well-formed item is rejected: ", io::msg(r), " at ", r.end, " in ", hex(t), " ", cref::diag(g));
    CHECK(r.end == long(n), "end", "ends at ", r.end, " expected ", n, " in ", hex(t));
    if (!known<N>(want) && !ordered<N>) return s.label("repeated keys");
    NV const got = model(a);
    CHECK(same(normal4<N>(got), normal4<N>(want)), "tree", "another tree: ", show(got), " expected ", show(want), " from ", hex(t));
    struct Q { static bool odd(const NV& v) { if (v.k == NV::simple && v.n >= 20 && v.n < 32) return true; for (auto& x : v.a) if (odd(x)) return true; return false; } };
    if (Q::odd(want)) return s.label("unwritable");
    std::string u; write_it(a, got, u); reread(a, got, u);
}
template <class N> static void mutated(Src& s) {
    C c = cref::gen(s, 4); std::string t = cref::mutate(cref::lawful(c, s), s, 1 + int(s.draw(3)));
    C g; std::size_t n; const char* err = nullptr; bool lax = false; int depth = 0;
    bool const ok = cref::decode(t, g, n, &err, nullptr, nullptr, &lax, &depth);
    s.show(hex(t)); s.nontrivial(t.size() > 1);
    N a; auto const r = s.chance(1, 5) ? io::read_in<CX>(a, t) : io::read<CX>(a, t);
    CHECK(r.end >= 0 && r.end <= long(t.size()), "position", "end is out of the input: ", r.end);
    if (depth > 60) return s.label("deep");
    if (!ok) { if (!lax) CHECK(!r.ok, "malformed", "not well-formed (", err, ") but accepted: ", hex(t), " as ", show(model(a))); if (!r.ok) CHECK(r.ec.value() != 0, "error", "no error condition"); return s.label("malformed"); }
    if (lax) return s.label("unspecified");
    NV want; bool const fits = from_item(g, want);
    CHECK(r.ok == fits, "verdict", fits ? "a well-formed item is rejected: " : "an integer out of range is accepted: ", io::msg(r), " at ", r.end, " in ", hex(t), " ", cref::diag(g));
    if (!fits) return s.label("range");
    CHECK(r.end == long(n), "end", "ends at ", r.end, " expected ", n, " in ", hex(t));
    if (known<N>(want) || ordered<N>) CHECK(same(normal4<N>(model(a)), normal4<N>(want)), "tree", "another tree: ", show(model(a)), " expected ", show(want), " from ", hex(t));
    s.label("accepted");
}
template <class N> static void truncated(Src& s) {
    std::string const t = cref::lawful(cref::gen(s, 4), s); std::size_t const step = t.size() > 300 ? t.size() / 100 : 1;
    for (std::size_t n = 0; n < t.size(); n += step) {
        N a; auto const r = io::read<CX>(a, t.substr(0, n));
        CHECK(!r.ok, "prefix", "a truncated item is accepted: ", hex(t.substr(0, n)), " of ", hex(t));
        CHECK(r.end >= 0 && r.end <= long(n), "position", "end is out of the input: ", r.end);
    }
    s.show(hex(t)); s.nontrivial(t.size() > 1);
}
template <class N> static void tree(Src& s) {
    NV v = nd::gen(s, true, 5); if (!ordered<N>) { v = unique(v); if (!unique_keys(unsign(v))) v = unique(unsign(v)); }
    N n; build(n, v); NV const m = model(n);
    CHECK(same(canon(m), canon(v)), "build", "the node holds another tree: ", show(m), " expected ", show(v));
    std::string u; write_it(n, m, u); reread(n, m, u);
    s.show(hex(u)); s.nontrivial(u.size() > 1);
}
static void unwritable(Src& s) { // reserved simple values are not written
    unsigned const x = unsigned(s.draw(256)); CN n; NV v = NV::mk(NV::array); v.a.push_back(NV::Sim(x)); bool const in = s.coin(); build(n, in ? v : v.a[0]);
    std::string u; auto const w = io::write<CX>(u, n); s.nontrivial(); s.show(cat(x));
    if (x < 20 || x >= 32) CHECK(w.ok, "write", "writing failed: ", io::msg(w), " for simple ", x);
    else if (x != 24) CHECK(!w.ok && w.ec == cxon::cbor::write_error::argument_invalid, "reserved", "a reserved simple value is written: ", hex(u));
}
#define ALL(N) REG("item/" #N, item<N>) REG("mutated/" #N, mutated<N>) REG("truncated/" #N, truncated<N>) REG("tree/" #N, tree<N>)
ALL(CN) ALL(CO) ALL(CM)
REG("reserved/CN", unwritable)
#elif defined(P_N05)
static NV canonical(NV v) { // integers by sign, finite numbers that are not integers, strings that are not numbers
    if (v.k == NV::sint && v.i >= 0) v = NV::Un(u64(v.i));
    if (v.k == NV::real && (!std::isfinite(v.d) || (v.d == std::floor(v.d) && std::fabs(v.d) < 1e21))) v.d = 0.5;
    for (auto& x : v.a) x = canonical(std::move(x));
    return v;
}
template <class T> static std::string what(const T& t) { if constexpr (requires { t.kind(); }) return show(model(t)); else { std::string u; io::write<JX>(u, t); return quote(u); } }
template <class A, class B> static void conv(const A& a, B& b, const char* what, bool cbor) {
    std::string t; auto const w = cbor ? io::write<CX>(t, a) : io::write<JX>(t, a);
    CHECK(w.ok, "write", what, ": writing failed: ", io::msg(w), " for ", ::what(a));
    auto const r = cbor ? io::read<CX>(b, t) : io::read<JX>(b, t);
    CHECK(r.ok && r.end == long(t.size()), "reread", what, ": own output is rejected: ", io::msg(r), " at ", r.end, " in ", cbor ? hex(t) : quote(t));
}
template <class N, class M> static void json_cbor(Src& s) { // JSON nodes through CBOR
    NV v = unsign(nd::gen(s, false, 4, !ordered<N> && s.coin())); if (!ordered<N>) v = unique(v);
    N n, b; build(n, v); conv(n, b, "CBOR", true);
    NV const m = model(n);
    CHECK(same(normal<N>(model(b)), normal<N>(m)), "restored", "another node is restored: ", show(model(b)), " expected ", show(m));
    if (!has_nan(m)) CHECK(b == n, "equal", "the node restored is not equal: ", show(m));
    // a CBOR node holds the same tree
    M c; conv(n, c, "CBOR to a CBOR node", true);
    CHECK(same(normal<N>(model(c)), normal<N>(m)), "cbor", "another tree in the CBOR node: ", show(model(c)), " expected ", show(m));
    M d; build(d, m); std::string x, y; CHECK(io::write<CX>(x, n).ok && io::write<CX>(y, d).ok, "write", "writing failed"); if (ordered<N> || unique_keys(m)) { C gx, gy; std::size_t k; CHECK(cref::decode(x, gx, k) && cref::decode(y, gy, k), "wellformed", "not well-formed"); NV vx, vy; from_item(gx, vx), from_item(gy, vy); CHECK(same(canon(vx), canon(vy)), "encoding", "JSON and CBOR nodes of the same tree are written as ", hex(x), " and ", hex(y)); }
    s.show(show(m)); s.nontrivial(v.a.size() > 0);
}
template <class N, class M> static void documents(Src& s) { // a document is the same tree in all nodes, and stays it
    J const j = jref::gen_doc(s, 5); jref::Style st; st.shuffle = true;
    std::string const t = jref::render(j, s, st);
    N a; M b; auto const ra = io::read<JX>(a, t); auto const rb = io::read<JX>(b, t);
    CHECK(ra.ok && rb.ok && ra.end == rb.end, "reject", "a document is rejected: ", quote(t));
    NV const m = model(a);
    CHECK(same(normal<N>(model(b)), normal<N>(m)), "nodes", "different trees: ", show(model(b)), " and ", show(m));
    std::string x, y; CHECK(io::write<JX>(x, a).ok && io::write<JX>(y, b).ok, "write", "writing failed");
    CHECK(x == y, "texts", "different texts: ", quote(x), " and ", quote(y));
    // JSON -> CBOR -> JSON
    M c; conv(a, c, "CBOR", true); N d; conv(c, d, "CBOR back", true);
    NV const um = unsign(m); CHECK(same(um, m) ? d == a && c == b : same(normal<N>(unsign(model(d))), normal<N>(um)), "equal", "JSON to CBOR and back: ", show(model(d)), " expected ", show(m));
    std::string z; CHECK(io::write<JX>(z, d).ok && z == x, "text", "another text after CBOR: ", quote(z), " expected ", quote(x));
    s.show(quote(t)); s.nontrivial(t.size() > 2);
}
template <class N, class M> static void cbor_json(Src& s) { // CBOR nodes through JSON: the documented loss
    NV v = canonical(nd::gen(s, true, 4, true)); if (!ordered<M>) v = unique(v);
    M n; build(n, v); NV const m = canonical(as_json(model(n)));
    M b; conv(n, b, "JSON", false); N c; conv(n, c, "JSON to a JSON node", false);
    CHECK(same(normal<M>(model(b)), normal<M>(m)), "restored", "another node is restored: ", show(model(b)), " expected ", show(m));
    CHECK(same(normal<M>(model(c)), normal<M>(m)), "json", "another tree in the JSON node: ", show(model(c)), " expected ", show(m));
    N d; conv(n, d, "CBOR to a JSON node", true);
    CHECK(same(normal<M>(model(d)), normal<M>(m)), "json", "another tree in the JSON node: ", show(model(d)), " expected ", show(m));
    s.show(show(v)); s.nontrivial(v.a.size() > 0);
}
template <class N> static void items(Src& s) { // JSON nodes from any CBOR
    C c = cref::gen(s, 5); cref::Style st; st.shuffle = true; std::string const t = cref::lawful(c, s, st);
    C g; std::size_t k; CHECK(cref::decode(t, g, k), "harness", "the encoder is wrong"); NV v; bool const fits = from_item(g, v); NV const want = as_json(v);
    N a; auto const r = io::read<CX>(a, t); s.show(hex(t)); s.nontrivial(t.size() > 1);
    CHECK(r.ok == fits, "verdict", fits ? "a well-formed item is rejected: " : "an integer out of range is accepted: ", io::msg(r), " at ", r.end, " in ", hex(t), " ", cref::diag(g));
    if (!fits) return s.label("range");
    CHECK(r.end == long(k), "end", "ends at ", r.end, " expected ", k, " in ", hex(t));
    if (ordered<N> || unique_keys(want)) CHECK(same(normal<N>(model(a)), normal<N>(want)), "tree", "another tree: ", show(model(a)), " expected ", show(want), " from ", hex(t));
}
// numbers by value, missing as null
static bool alike(const NV& x, const NV& y) {
    auto num = [](const NV& v) { return v.k == NV::real || v.k == NV::sint || v.k == NV::uint; };
    if (num(x) && num(y)) { auto f = [](const NV& v) { return v.k == NV::real ? (long double)v.d : v.k == NV::sint ? (long double)v.i : (long double)v.n; }; return f(x) == f(y); }
    if (x.k != y.k || x.a.size() != y.a.size()) return false;
    if (x.a.empty()) return same(x, y);
    for (std::size_t i = 0; i < x.a.size(); ++i) if (!alike(x.a[i], y.a[i])) return false;
    return true;
}
template <class T> static void fin(T&) {}
template <class T> static void fin(std::vector<T>&); template <class T> static void fin(std::list<T>&); template <class K, class T> static void fin(std::map<K, T>&);
template <class A, class B> static void fin(std::pair<A, B>&); template <class ...A> static void fin(std::tuple<A...>&); template <class T> static void fin(std::optional<T>&);
static void fin(double& d) { if (!std::isfinite(d)) d = 2.5; }
static void fin(float& d) { if (!std::isfinite(d)) d = 2.5f; }
template <class T> static void fin(std::vector<T>& v) { for (auto&& x : v) fin(x); }
template <class T> static void fin(std::list<T>& v) { for (auto&& x : v) fin(x); }
static void fin(std::vector<bool>&) {}
template <class K, class T> static void fin(std::map<K, T>& v) { for (auto& x : v) fin(x.second); }
template <class A, class B> static void fin(std::pair<A, B>& v) { fin(v.first), fin(v.second); }
template <class ...A> static void fin(std::tuple<A...>& v) { std::apply([](auto& ...x) { (fin(x), ...); }, v); }
template <class T> static void fin(std::optional<T>& v) { if (v) fin(*v); }
template <class T, bool back> static void typed(Src& s) {
    ty::Box<T> x; ty::gen(s, x.v); fin(x.v);
    JN a, b; conv(x.v, a, "JSON", false); conv(x.v, b, "CBOR", true);
    CHECK(alike(model(a), model(b)), "documents", "different documents: ", show(model(a)), " in JSON and ", show(model(b)), " in CBOR");
    CN c; conv(x.v, c, "JSON to a CBOR node", false); CHECK(alike(model(a), model(c)), "documents", "different documents: ", show(model(a)), " and ", show(model(c)));
    s.show(show(model(a))); s.nontrivial(model(a).a.size() > 0);
    if constexpr (back) { // JSON -> node -> CBOR -> value and CBOR -> node -> JSON -> value
        ty::Box<T> y; conv(a, y.v, "JSON, node, CBOR", true); std::string u, v; io::write<JX>(u, x.v), io::write<JX>(v, y.v);
        if (u.find("-0") == std::string::npos) CHECK(u == v, "value", "another value through a node and CBOR: ", quote(v), " expected ", quote(u));
        CN d; conv(x.v, d, "CBOR", true); ty::Box<T> z; conv(d, z.v, "CBOR, node, JSON", false); v.clear(); io::write<JX>(v, z.v);
        CHECK(u == v, "value", "another value through a node and JSON: ", quote(v), " expected ", quote(u));
    }
}
REG("json-cbor/JN", (json_cbor<JN, CN>)) REG("json-cbor/JO", (json_cbor<JO, CO>)) REG("documents/N", (documents<JN, CN>)) REG("documents/O", (documents<JO, CO>))
REG("cbor-json/CN", (cbor_json<JN, CN>)) REG("cbor-json/CO", (cbor_json<JO, CO>)) REG("items/JN", items<JN>) REG("items/JO", items<JO>)
using P1 = std::vector<int>; using P2 = std::map<std::string, double>; using P3 = std::tuple<int, std::string, double>; using P4 = std::vector<bool>; using P5 = std::map<std::string, std::vector<std::pair<unsigned long long, std::string>>>;
using P6 = std::list<std::tuple<bool, long long, std::vector<double>>>; using P7 = std::vector<std::map<std::string, P3>>; using P8 = std::vector<std::optional<int>>; using P9 = std::map<std::string, std::optional<std::string>>;
REG("typed/vector<int>", (typed<P1, true>)) REG("typed/map<string,double>", (typed<P2, true>)) REG("typed/tuple", (typed<P3, true>)) REG("typed/vector<bool>", (typed<P4, true>)) REG("typed/P5", (typed<P5, true>)) REG("typed/P6", (typed<P6, true>)) REG("typed/P7", (typed<P7, true>)) REG("typed/optionals", (typed<P8, false>)) REG("typed/map of optionals", (typed<P9, false>))
#elif defined(P_N06)
static void rename(J& j, Src& s) { // repeated keys
    for (auto& x : j.a) rename(x, s);
    for (std::size_t i = 0; i < j.o.size(); ++i) { rename(j.o[i].second, s); if (i && s.chance(1, 4)) j.o[i].first = j.o[s.below(i)].first; }
}
template <class N, class D> static void document(Src& s) { // D: the default node
    J j = jref::gen_doc(s, 5, false); bool const dup = s.coin(); if (dup) rename(j, s);
    jref::Style st; st.shuffle = true;
    std::string const t = jref::render(j, s, st);
    J g; CHECK(jref::parse(t, g), "harness", "not a document");
    NV const want = from_doc(g);
    N a; auto const r = io::read<JX>(a, t);
    CHECK(r.ok && r.end == long(t.size()), "reject", "a document is rejected: ", io::msg(r), " at ", r.end, " in ", quote(t));
    CHECK(same(model(a), want), "order", "other members: ", show(model(a)), " expected ", show(want), " from ", quote(t));
    std::string u; CHECK(io::write<JX>(u, a).ok, "write", "writing failed");
    N b; auto const q = io::read<JX>(b, u); CHECK(q.ok && q.end == long(u.size()), "reread", "own output is rejected: ", io::msg(q), " in ", quote(u));
    J h; CHECK(jref::parse(u, h), "grammar", "not a document: ", quote(u));
    struct K { static bool keys(const J& x, const J& y) { if (x.k != y.k || x.a.size() != y.a.size() || x.o.size() != y.o.size()) return false; if (x.k == J::string && x.s != y.s) return false; for (std::size_t i = 0; i < x.a.size(); ++i) if (!keys(x.a[i], y.a[i])) return false; for (std::size_t i = 0; i < x.o.size(); ++i) if (x.o[i].first != y.o[i].first || !keys(x.o[i].second, y.o[i].second)) return false; return true; } };
    CHECK(K::keys(g, h), "text", "other members are written: ", quote(u), " for ", quote(t));
    std::string w; CHECK(io::write<JX>(w, b).ok && (w == u || u.find("-0") != std::string::npos), "again", "another text after reading again: ", quote(w), " expected ", quote(u));
    if (!dup_keys(g)) { D d; CHECK(io::read<JX>(d, t).ok, "reject", "the default node rejects ", quote(t)); CHECK(same(canon(model(d)), canon(model(a))), "default", "the default node differs: ", show(model(d)), " from ", show(model(a))); }
    // the same order through CBOR
    std::string c; CHECK(io::write<CX>(c, a).ok, "write", "writing failed"); N e; auto const x = io::read<CX>(e, c);
    CHECK(x.ok && x.end == long(c.size()) && same(model(e), unsign(want)), "cbor", "other members through CBOR: ", show(model(e)), " expected ", show(want));
    s.show(quote(t)); s.nontrivial(t.size() > 2);
}
template <class N, class D> static void item(Src& s) {
    C c = cref::gen(s, 5); struct R { static void rep(C& c, Src& s) { for (auto& x : c.a) rep(x, s); if (c.k == C::map) for (std::size_t i = 2; i < c.a.size(); i += 2) if (s.chance(1, 4)) c.a[i] = C(c.a[s.below(i / 2) * 2]); } }; R::rep(c, s);
    cref::Style st; st.shuffle = true; std::string const t = cref::lawful(c, s, st);
    C g; std::size_t k; CHECK(cref::decode(t, g, k), "harness", "the encoder is wrong"); NV want; if (!from_item(g, want)) return s.label("range");
    if (!is_cbor<N>::value) want = as_json(want);
    N a; auto const r = io::read<CX>(a, t); CHECK(r.ok && r.end == long(k), "reject", "an item is rejected: ", io::msg(r), " in ", hex(t), " ", cref::diag(g));
    CHECK(same(model(a), want), "order", "other members: ", show(model(a)), " expected ", show(want), " from ", hex(t));
    std::string u; CHECK(io::write<CX>(u, a).ok, "write", "writing failed for ", show(want));
    C h; CHECK(cref::decode(u, h, k) && k == u.size(), "wellformed", "not well-formed: ", hex(u)); NV v; CHECK(from_item(h, v), "written", "an integer changed");
    CHECK(same(v, is_cbor<N>::value ? want : v) && same(is_cbor<N>::value ? v : as_json(v), want), "written", "other members are written: ", show(v), " expected ", show(want));
    if (unique_keys(want)) { D d; CHECK(io::read<CX>(d, t).ok, "reject", "the default node rejects ", hex(t)); CHECK(same(canon(model(d)), canon(want)), "default", "the default node differs: ", show(model(d)), " from ", show(want)); }
    s.show(hex(t)); s.nontrivial(t.size() > 1);
}
template <class N> static void tree(Src& s) { // built, compared, written
    NV v = nd::gen(s, is_cbor<N>::value, 5); struct R { static void rep(NV& c, Src& s) { for (auto& x : c.a) rep(x, s); if (c.k == NV::object) for (std::size_t i = 2; i < c.a.size(); i += 2) if (s.chance(1, 4)) c.a[i] = NV(c.a[s.below(i / 2) * 2]); } }; R::rep(v, s);
    N n; build(n, v); CHECK(same(model(n), v), "build", "other members: ", show(model(n)), " expected ", show(v));
    std::string u; CHECK(io::write<CX>(u, n).ok, "write", "writing failed"); C h; std::size_t k; CHECK(cref::decode(u, h, k) && k == u.size(), "wellformed", "not well-formed: ", hex(u));
    struct Q { static NV un(NV v) { if (v.k == NV::sint && v.i >= 0) v = NV::Un(u64(v.i)); for (auto& x : v.a) x = un(x); return v; } };
    NV w; CHECK(from_item(h, w) && same(w, Q::un(v)), "written", "other members are written: ", show(w), " expected ", show(v));
    // a permutation of unlike members is another node
    std::vector<NV*> os; struct W { static void go(NV& v, std::vector<NV*>& o) { if (v.k == NV::object && v.a.size() >= 4) o.push_back(&v); for (auto& x : v.a) go(x, o); } }; NV p = v; W::go(p, os);
    if (!os.empty() && !has_nan(v)) {
        NV& o = *s.pick(os); std::size_t i = s.below(o.a.size() / 2) * 2, q = s.below(o.a.size() / 2) * 2; std::swap(o.a[i], o.a[q]), std::swap(o.a[i + 1], o.a[q + 1]);
        N m; build(m, p); bool const eq = same(zero(p), zero(v)); CHECK((m == n) == eq && (m != n) == !eq, "equal", "comparison of ", show(p), " and ", show(v));
    }
    s.show(show(v)); s.nontrivial(v.a.size() > 0);
}
REG("document/JO", (document<JO, JN>)) REG("document/CO", (document<CO, CN>)) REG("item/JO", (item<JO, JN>)) REG("item/CO", (item<CO, CN>)) REG("tree/JO", tree<JO>) REG("tree/CO", tree<CO>)
#elif defined(P_N07)
// nesting shapes: [ array, { object value, k object key (CBOR), t tag (CBOR); with siblings
struct Shape { std::string s; };
static std::string gen_shape(Src& s, std::size_t n, bool cbor) {
    std::string r; unsigned const mode = unsigned(s.draw(4)); char const one = "[{kt"[s.draw(cbor ? 4 : 2)];
    for (; n--; ) r += mode < 2 ? one : "[{kt"[s.draw(cbor ? 4 : 2)];
    return r;
}
static std::size_t levels(const std::string& sh, bool tags) { std::size_t n = 0; for (char c : sh) n += tags || c != 't'; return n; }
static std::string to_json(const std::string& sh, Src& s, bool siblings) {
    std::string a, b; static const char* sib[] = {"1", "\"x\"", "null", "[]", "{}", "[1,2]"};
    for (char c : sh) {
        std::string pre, post; // an earlier or a later sibling
        if (siblings && s.chance(1, 8)) pre = s.pick(sib); if (siblings && s.chance(1, 8)) post = s.pick(sib);
        if (c == '[') { a += "[" + (pre.empty() ? "" : pre + ","); b = (post.empty() ? "" : "," + post) + "]" + b; }
        else { a += "{" + (pre.empty() ? "" : "\"p\":" + pre + ",") + "\"k\":"; b = (post.empty() ? "" : ",\"z\":" + post) + "}" + b; }
    }
    static const char* leaf[] = {"1", "\"[[[[\"", "null", "1.5", "true"};
    return a + s.pick(leaf) + b;
}
static std::string to_cbor(const std::string& sh, Src& s, bool siblings) {
    std::string a, b;
    for (char c : sh) {
        bool const pre = siblings && s.chance(1, 8), in = s.chance(1, 4);
        std::size_t const n = 1 + pre; std::string end = in ? "\xFF" : "";
        if (c == '[') { cref::head(a, 4, n); if (in) a.back() = char(0x9F); if (pre) a += "\x01"; b = end + b; }
        else if (c == '{' || c == 'k') { cref::head(a, 5, n); if (in) a.back() = char(0xBF); if (pre) a += std::string("\x05\x01", 2); if (c == '{') a += "\x06"; else b = "\x07" + std::string() + end + b; if (c == '{') b = end + b; }
        else cref::head(a, 6, s.coin() ? s.draw(24) : s.bits());
    }
    static const std::string leaf[] = {std::string("\x01"), std::string("\x61x"), std::string("\xF6"), std::string("\xF4"), std::string("\xF5")};
    return a + s.pick(leaf) + b;
}
static std::size_t around(Src& s, std::size_t lim) { switch (s.draw(6)) { case 0: return s.below(lim + 1); case 1: return lim - 1; case 2: return lim; case 3: return lim + 1; case 4: return lim > 1 ? lim - 2 : 0; default: return lim + s.below(lim * 2 + 5); } }
template <class R> static bool too_deep(const R& r) { return !r.ok && r.ec == cxon::node::error::recursion_depth_exceeded && r.ec.category() == cxon::node::error_category::value(); }
template <class X, class N, unsigned L, class ...P> static void limit(Src& s) {
    constexpr bool cbor = std::is_same_v<X, CX>; constexpr bool tags = is_cbor<N>::value;
    std::string const sh = gen_shape(s, around(s, L), cbor); bool const sib = s.coin();
    std::string const t = cbor ? to_cbor(sh, s, sib) : to_json(sh, s, sib);
    std::size_t const n = levels(sh, tags); s.show(cbor ? hex(t) : quote(t, 150)); s.nontrivial(n > 0);
    bool const fit = n < L || n == 0;
    // siblings are one or two levels deep
    N a; auto const r = s.chance(1, 6) ? io::read_in<X>(a, t, P()...) : io::read<X>(a, t, P()...);
    bool const near = sib && !cbor && n + 1 >= L; // a sibling may be the deepest
    if (!fit) CHECK(too_deep(r), "deep", n, " levels with the limit ", L, ": ", io::msg(r), " for ", cbor ? hex(t) : quote(t));
    else if (!near) CHECK(r.ok && r.end == long(t.size()), "reject", n, " levels with the limit ", L, ": ", io::msg(r), " for ", cbor ? hex(t) : quote(t));
    // written: the same limit
    if (fit || n < 200) {
        NV v; v = NV::Un(1); for (std::size_t i = sh.size(); i--; ) { char const c = sh[i]; NV x = NV::mk(c == '[' ? NV::array : c == 't' ? NV::tag : NV::object);
            if (c == 't' && !tags) continue; if (c == '{') x.a.push_back(NV::S("k")); x.a.push_back(std::move(v)); if (c == 'k') x.a.push_back(NV::Un(2)); v = std::move(x); }
        N b; build(b, v); std::string u; auto const w = io::write<X>(u, b, P()...);
        if (fit) { CHECK(w.ok, "write", n, " levels with the limit ", L, ": ", io::msg(w)); N d; auto const q = io::read<X>(d, u, P()...); CHECK(q.ok && d == b, "reread", "own output is not restored: ", io::msg(q)); }
        else CHECK(too_deep(w), "write-deep", n, " levels are written with the limit ", L, ": ", io::msg(w));
    }
}
// far beyond the limit, and inputs that only open
template <class X, class N> static void far(Src& s) {
    constexpr bool cbor = std::is_same_v<X, CX>; constexpr bool tags = is_cbor<N>::value;
    std::size_t const n = std::size_t(1) << (7 + s.draw(s.chance(1, 16) ? 11 : 3)); std::string const sh = gen_shape(s, n, cbor);
    std::string t; for (char c : sh) { if (cbor) t += c == '[' ? (s.coin() ? '\x81' : '\x9F') : c == '{' ? '\xA1' : c == 'k' ? '\xA1' : '\xC1'; else t += c == '[' ? "[" : "{\"a\":"; if (cbor && c == '{') t += '\x01'; }
    s.show(cat(n, " ", cbor ? hex(t.substr(0, 20)) : quote(t.substr(0, 20)))); s.nontrivial();
    N a; auto const r = s.coin() ? io::read<X>(a, t) : io::read_in<X>(a, t);
    CHECK(!r.ok, "accept", "an input that only opens is accepted");
    if (levels(sh, tags) >= 64) CHECK(too_deep(r), "deep", levels(sh, tags), " levels: ", io::msg(r));
}
// the guard given explicitly for types that contain nodes; the state of the guard is restored
template <class X, class N> static void nested(Src& s) {
    constexpr bool cbor = std::is_same_v<X, CX>; constexpr bool tags = is_cbor<N>::value;
    constexpr unsigned L = 9; std::vector<std::string> shs; std::string t; std::size_t deep = 0; std::size_t const k = 1 + s.below(4);
    if (cbor) cref::head(t, 4, k); else t = "[";
    for (std::size_t i = 0; i < k; ++i) { std::string sh = gen_shape(s, s.chance(1, 4) ? around(s, L) : s.below(L), cbor); deep = std::max(deep, levels(sh, tags)); if (cbor) t += to_cbor(sh, s, false); else t += (i ? "," : "") + to_json(sh, s, false); }
    if (!cbor) t += "]"; s.show(cbor ? hex(t) : quote(t, 150)); s.nontrivial(deep > 0);
    std::vector<N> v; unsigned const g0 = unsigned(s.draw(3));
    auto const r = io::read<X>(v, t, cxon::node::recursion_guard::set(unsigned(g0)), cxon::node::recursion_depth::set<L>());
    if (deep == 0 || deep + g0 < L) CHECK(r.ok && v.size() == k, "reject", deep, " levels with the limit ", L, " and ", g0, ": ", io::msg(r), " for ", cbor ? hex(t) : quote(t));
    else CHECK(too_deep(r), "deep", deep, " levels with the limit ", L, ": ", io::msg(r), " for ", cbor ? hex(t) : quote(t));
    if (r.ok) { std::string u; auto const w = io::write<X>(u, v, cxon::node::recursion_guard::set(unsigned(g0)), cxon::node::recursion_depth::set<L>()); CHECK(w.ok, "write", io::msg(w)); }
}
template <unsigned L> using RD = decltype(cxon::node::recursion_depth::set<L>());
#define ALL(X, N) REG("64/" #X #N, (limit<X, N, 64>)) REG("1/" #X #N, (limit<X, N, 1, RD<1>>)) REG("2/" #X #N, (limit<X, N, 2, RD<2>>)) REG("7/" #X #N, (limit<X, N, 7, RD<7>>)) REG("100/" #X #N, (limit<X, N, 100, RD<100>>)) REG("far/" #X #N, (far<X, N>)) REG("nested/" #X #N, (nested<X, N>))
#if GROUP == 1
ALL(JX, JN) ALL(JX, JO)
#elif GROUP == 2
ALL(JX, CN) ALL(JX, CO)
#elif GROUP == 3
ALL(CX, JN) ALL(CX, JO)
#else
ALL(CX, CN) ALL(CX, CO)
#endif
#endif
