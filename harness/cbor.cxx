// C01-C04: CBOR of the supported types. -DP_<property> -DGROUP=<n>
#include "common/cbor.hpp"
#include "common/io.hpp"
#include "common/groups.hpp"
#include "common/longs.hpp"
#if GROUP >= 7
#include "common/boost.hpp"
#endif
using namespace ty;
using CX = cxon::CBOR<>;
using cref::C;

template <class T> inline constexpr bool multi = false; // the order of entries with the same key matters
template <class ...A> inline constexpr bool multi<std::multimap<A...>> = true;

template <class T> inline constexpr bool bits = false; // only definite lengths are read (a known finding)
template <std::size_t N> inline constexpr bool bits<std::bitset<N>> = true;

#if GROUP >= 7
template <class ...A> inline constexpr bool multi<bc::multimap<A...>> = true;
template <class ...A> inline constexpr bool multi<bc::flat_multimap<A...>> = true;
template <class ...A> inline constexpr bool bits<boost::dynamic_bitset<A...>> = true;
template <> inline constexpr bool bits<t_d3> = true;
#endif

#if defined(P_C01)
// Round trip.
template <class T> static void prop(Src& s) {
    Box<T> b; ty::make(s, b.v);
    std::string t; auto const w = io::write<CX>(t, b.v);
    CHECK(w.ok, "write", "writing failed: ", io::msg(w), ", got ", hex(t));
    Box<T> a; auto const r = io::read<CX>(a.v, t);
    CHECK(r.ok, "reject", "own output is rejected: ", io::msg(r), " at ", r.end, " in ", hex(t));
    CHECK(r.end == long(t.size()), "end", "ends at ", r.end, " in ", hex(t));
    CHECK(ty::eq(a.v, b.v), "value", "another value is restored from ", hex(t), ": ", cref::diag(V<T>::toc(a.v)), " expected ", cref::diag(V<T>::toc(b.v)));
    std::string u; auto const w2 = io::write<CX>(u, a.v);
    CHECK(w2.ok && (!V<T>::det || t == u), "rewrite", "another encoding is written: ", hex(u), " after ", hex(t));
    s.show(hex(t)); s.nontrivial(t.size() > 1);
}
#elif defined(P_C02)
// One well-formed item, shortest heads, definite lengths, denoting the value; empty containers of bytes may be strings or arrays.
template <class T> static void prop(Src& s) {
    Box<T> b; ty::make(s, b.v);
    std::string t; auto const r = io::write<CX>(t, b.v);
    CHECK(r.ok, "write", "writing failed: ", io::msg(r), ", got ", hex(t));
    C g; std::size_t n; const char* err = nullptr; bool minimal = false, definite = false, lax = false;
    CHECK(cref::decode(t, g, n, &err, &minimal, &definite, &lax) && n == t.size() && !lax, "wellformed", "not one well-formed item (", err ? err : "trailing bytes", "): ", hex(t));
    CHECK(minimal, "shortest", "a head is not the shortest: ", hex(t));
    CHECK(definite, "definite", "an indefinite length: ", hex(t));
    C const w = V<T>::toc(b.v);
    CHECK(cref::like(w, g), "value", "another value: ", cref::diag(g), " expected ", cref::diag(w));
    s.show(hex(t)); s.nontrivial(t.size() > 1);
}
#elif defined(P_C03)
// Every lawful encoding reads as the value and is consumed exactly.
template <class T> static void prop(Src& s) {
    Box<T> b; ty::make(s, b.v);
    C const c = V<T>::toc(b.v);
    cref::Style st; st.shuffle = !multi<T>; st.indef = !bits<T>;
    std::string t = cref::lawful(c, s, st); std::size_t const n = t.size();
    C g; std::size_t gn; Box<T> x;
    CHECK(cref::decode(t, g, gn) && gn == n, "harness", "the encoder is wrong: ", hex(t));
    Tri const want = V<T>::fromc(g, x.v); if (want != yes) { s.label("unspecified"); return; } // indefinite bit strings
    for (u64 k = s.draw(3); k--; ) t += char(s.coin() ? 0xFF : s.draw(256));
    Box<T> a; auto const r = io::read<CX>(a.v, t);
    CHECK(r.ok, "reject", "a lawful encoding is rejected: ", io::msg(r), " at ", r.end, " in ", hex(t), " ", cref::diag(g));
    CHECK(r.end == long(n), "end", "ends at ", r.end, " expected ", n, " in ", hex(t), " ", cref::diag(g));
    CHECK(ty::eq(a.v, x.v), "value", "another value: ", cref::diag(V<T>::toc(a.v)), " from ", hex(t), " ", cref::diag(g));
    s.show(hex(t)); s.nontrivial(n > 1 && t != cref::shortest(c));
}
#elif defined(P_C04)
// Accepted exactly when the input starts with an encoding of a value of the type.
template <class T> static void prop(Src& s) {
    C c;
    if (s.chance(1, 10)) c = cref::gen(s, 3);
    else { Box<T> b; ty::make(s, b.v); c = V<T>::toc(b.v); for (u64 n = s.draw(3); n--; ) c = cref::mutate_model(c, s); }
    cref::Style st; st.shuffle = !multi<T>; st.indef = !bits<T>;
    std::string t = cref::lawful(c, s, st);
    if (s.chance(2, 5)) t = cref::mutate(t, s, 1 + int(s.draw(2)));
    C g; std::size_t n; const char* err = nullptr; bool lax = false, definite = true;
    bool const ok = cref::decode(t, g, n, &err, nullptr, &definite, &lax);
    if (bits<T> && !definite) lax = true;
    Tri want = no; Box<T> x;
    if (ok) want = lax ? unspec : V<T>::fromc(g, x.v);
    if (std::is_same_v<T, t_mp> && want != yes) s.noleak = true; // repeated keys: the pointer read first is lost
    Box<T> a; auto const r = io::read<CX>(a.v, t);
    CHECK(r.end >= 0 && r.end <= long(t.size()), "position", "end is out of the input: ", r.end);
    if (want == yes) {
        CHECK(r.ok, "reject", "lawful for the type but rejected: ", io::msg(r), " at ", r.end, " in ", hex(t), " ", cref::diag(g));
        CHECK(r.end == long(n), "end", "ends at ", r.end, " expected ", n, " in ", hex(t), " ", cref::diag(g));
        CHECK(ty::eq(a.v, x.v), "value", "another value: ", cref::diag(V<T>::toc(a.v)), " from ", hex(t), " ", cref::diag(g));
        s.label("accepted");
    }
    else if (want == no && !(!ok && lax)) {
        if (ok) CHECK(!r.ok, "accept", "not a value of the type but accepted: ", hex(t), " ", cref::diag(g), " as ", cref::diag(V<T>::toc(a.v)));
        else    CHECK(!r.ok, "malformed", "not well-formed (", err, ") but accepted: ", hex(t), " as ", cref::diag(V<T>::toc(a.v)));
        s.label(ok ? "rejected" : "malformed");
    }
    else s.label("unspecified");
    s.show(hex(t)); s.nontrivial(want == yes || want == no);
}
#endif

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#if GROUP < 7
#   define PID ""
#elif defined(P_C01)
#   define PID "C01 "
#elif defined(P_C02)
#   define PID "C02 "
#elif defined(P_C03)
#   define PID "C03 "
#elif defined(P_C04)
#   define PID "C04 "
#endif
#define REG(...) static Reg CAT(r_, __COUNTER__)(PID #__VA_ARGS__, &prop<__VA_ARGS__>);
#if GROUP == 1
TYPES_G1(REG)
#define REGL(...) static Reg CAT(r_, __COUNTER__)("long " #__VA_ARGS__, &as_long<__VA_ARGS__, &prop<__VA_ARGS__>>);
TYPES_LONG(REGL)
#elif GROUP == 2
TYPES_G2(REG) TYPES_G2S(REG)
#elif GROUP == 3
TYPES_G3(REG) TYPES_G3K(REG)
#elif GROUP == 4
TYPES_G4(REG)
#elif GROUP == 7
TYPES_GB(REG)
#elif GROUP == 8
TYPES_GC(REG)
#endif

#if defined(P_C03) && GROUP == 1
static Reg f1("finding: bitset from an indefinite byte string", [](Src&) {
    std::bitset<8> b; auto const r = io::read<CX>(b, std::string("\x5F\x42\x00\xA5\xFF"));
    CHECK(r.ok && b.to_ulong() == 0xA5, "reject", "bitset<8> is not read from (_ h'00A5')");
}, 0);
#endif
