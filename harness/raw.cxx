// J06, C05: arbitrary bytes into every type. -DP_<property> -DGROUP=<n>: 1-4 types, 5 bound classes, 6 nodes
#include "cxon/json.hxx"
#include "cxon/cxcf.hxx"
#include "cxon/cbor.hxx"
#if GROUP == 6
#   include "cxon/lib/node.hxx"
#   include "cxon/lib/node.ordered.hxx"
#endif
#include "common/json.hpp"
#include "common/cbor.hpp"
#include "common/io.hpp"
#include "common/groups.hpp"
#include "common/texts.hpp"
#if GROUP == 5
#   include "common/classes.hpp"
#endif
#if GROUP >= 7
#   include "common/boost.hpp"
#endif
using namespace ty; using texts::mods;

template <class T> struct Own { // what is read stays a valid object
    T v{};
    Own() = default; Own(const Own&) = delete;
    ~Own() { if constexpr (mods<T>) V<T>::fini(v); }
    bool self() const { if constexpr (mods<T>) return V<T>::eq(v, v), true; else return T(v) == v; }
};
template <class T> inline constexpr bool leaky = std::is_same_v<T, t_mp>; // the pointers of repeated keys are lost
#if GROUP == 5
using t_jsink = cxon::cio::val::sink<std::string>; using t_csink = cxon::cbor::sink<std::vector<unsigned char>>;
#endif

#if defined(P_J06)
struct FPerm : cxon::json::format_traits { static constexpr bool allow_comments = true, allow_trailing_separators = true, allow_javascript_nans = true, unquote_quoted_keys = true, assume_unique_object_keys = false; };
struct FNoesc : cxon::json::format_traits { static constexpr bool assume_no_escapes = true; };
struct FNoval : cxon::json::format_traits { static constexpr bool validate_string_encoding = false, validate_string_escapes = false; };
struct FStrict : cxon::json::format_traits { struct number : cxon::json::format_traits::number { static constexpr bool strict = true; }; static constexpr bool assume_unique_object_keys = false; };
using JX = cxon::JSON<>; using QX = cxon::CXCF<>; using JP = cxon::JSON<FPerm>; using JE = cxon::JSON<FNoesc>; using JV = cxon::JSON<FNoval>; using JS = cxon::JSON<FStrict>;

template <class X, class T, int It> static void one(Src& s, const std::string& t, bool rewrite) {
    Own<T> a;
    if (!std::is_pointer_v<T> && s.chance(1, 8)) io::read<X>(a.v, t); // into an object read before
    auto const r = It == 0 ? io::read<X>(a.v, t) : It == 1 ? io::read_fwd<X>(a.v, t) : io::read_in<X>(a.v, t);
    CHECK(r.end >= 0 && r.end <= long(t.size()), "position", "end is out of the input: ", r.end, " of ", t.size(), " in ", quote(t));
    a.self();
    if (rewrite) { std::string o; io::write<X>(o, a.v); }
    s.label(r.ok ? "accepted" : r.end > 0 ? "rejected inside" : "rejected");
    s.nontrivial(r.ok || r.end > 0);
}
template <class T> static void prop(Src& s) {
    std::string const t = texts::json<T>(s);
    s.show(quote(t)); s.noleak = leaky<T>;
#   if VAR == 0
    switch (s.draw(3)) {
        case 0: return one<JX, T, 0>(s, t, true);
        case 1: return one<JX, T, 1>(s, t, true);
        default: return one<JX, T, 2>(s, t, true);
    }
#   elif VAR == 1
    return s.coin() ? one<QX, T, 0>(s, t, true) : one<JP, T, 0>(s, t, true);
#   elif GROUP == 1 || GROUP == 4
    return one<JS, T, 0>(s, t, true);
#   else
    return s.coin() ? one<JE, T, 0>(s, t, true) : one<JV, T, 0>(s, t, false); // ill-formed strings are let in
#   endif
}
#elif defined(P_C05)
using CX = cxon::CBOR<>;
template <class T> inline constexpr bool quadratic = false;
template <class E> inline constexpr bool quadratic<std::valarray<E>> = true; // grown by one element
template <class T> inline constexpr bool chars = std::is_pointer_v<T> && is_chr<std::remove_pointer_t<T>>;
template <class T, int It> static void one(Src& s, const std::string& t) {
    Own<T> a;
    std::uint64_t const m0 = pbt::allocated_total();
    auto const r = It == 0 ? io::read<CX>(a.v, t) : It == 1 ? io::read_fwd<CX>(a.v, t) : io::read_in<CX>(a.v, t);
    std::uint64_t const m = pbt::allocated_total() - m0, n = t.size();
    CHECK(r.end >= 0 && r.end <= long(n), "position", "end is out of the input: ", r.end, " of ", n, " in ", hex(t));
    std::uint64_t const most = 8192 + 1200 * n + (quadratic<T> ? 16 * n * n : 0);
    CHECK(m <= most, "memory", m, " bytes are allocated for an input of ", n, ": ", hex(t));
    if constexpr (chars<T>) { C g; std::size_t gn; if (!cref::decode(t, g, gn) || cref::untag(g).k == C::uint || cref::untag(g).k == C::nint) return; } // a pointer to a single character (fixed by tests) is not a string
    a.self();
    std::string o; io::write<CX>(o, a.v);
    s.label(r.ok ? "accepted" : r.end > 0 ? "rejected inside" : "rejected");
    s.nontrivial(r.ok || r.end > 0);
}
template <class T> static void prop(Src& s) {
    std::string const t = texts::cbor<T>(s);
    s.show(hex(t)); s.noleak = leaky<T>;
    switch (s.draw(4)) {
        case 0: return one<T, 1>(s, t);
        case 1: return one<T, 2>(s, t);
        default: return one<T, 0>(s, t);
    }
}
#endif

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#if defined(VAR) && VAR == 1
#   define KIND "options "
#elif defined(VAR) && VAR == 2
#   define KIND "checks "
#elif GROUP >= 7 && defined(P_C05)
#   define KIND "CBOR "
#elif GROUP >= 7
#   define KIND "JSON "
#else
#   define KIND ""
#endif
#define REG(...) static Reg CAT(r_, __COUNTER__)(KIND #__VA_ARGS__, &prop<__VA_ARGS__>);
#if GROUP == 1
TYPES_G1(REG)
#elif GROUP == 2
TYPES_G2(REG) TYPES_G2S(REG)
#elif GROUP == 3
TYPES_G3(REG) TYPES_G3K(REG)
#elif GROUP == 4
TYPES_G4(REG)
#elif GROUP == 5
TYPES_CLS(REG)
#elif GROUP == 6
REG(cxon::json::node) REG(cxon::json::ordered_node) REG(cxon::cbor::node) REG(cxon::cbor::ordered_node)
#elif GROUP == 7
TYPES_GB(REG)
#elif GROUP == 8
TYPES_GC(REG)
#endif
