// I01: the form of the input; I02: the form of the output. -DP_<property> -DGROUP=<n>: 1-4 types, 5 bound classes, 6 nodes
#include "cxon/json.hxx"
#include "cxon/cbor.hxx"
#if GROUP == 6
#   include "cxon/lib/node.hxx"
#   include "cxon/lib/node.ordered.hxx"
#endif
#include "common/json.hpp"
#include "common/cbor.hpp"
#include "common/io.hpp"
#include "common/groups.hpp"
#include "common/texts.hpp"
#if GROUP == 5
#   include "common/classes.hpp"
#endif
#if GROUP >= 7
#   include "common/boost.hpp"
#endif
#if GROUP == 6
#   include "common/nodes.hpp"
#endif
#include <sstream>
#include <string_view>
using namespace ty; using texts::mods;

using JX = cxon::JSON<>; using CX = cxon::CBOR<>;
template <class T> struct Own {
    T v{};
    Own() = default; Own(const Own&) = delete;
    ~Own() { if constexpr (mods<T>) V<T>::fini(v); }
};
template <class T> inline bool eqv(const T& a, const T& b) {
    if constexpr (mods<T>) return V<T>::eq(a, b);
#   if GROUP == 6
    else return nd::same(nd::model(a), nd::model(b));
#   else
    else return a == b;
#   endif
}
template <class T> inline constexpr bool leaky = std::is_same_v<T, t_mp>;
#if GROUP == 5
using t_jsink = cxon::cio::val::sink<std::string>; using t_csink = cxon::cbor::sink<std::vector<unsigned char>>;
#endif
template <class T> inline constexpr bool wide = // with every form
    std::is_same_v<T, int> || std::is_same_v<T, double> || std::is_same_v<T, bool> || std::is_same_v<T, str> || std::is_same_v<T, std::u16string> || std::is_same_v<T, std::vector<std::string>> || std::is_same_v<T, std::vector<unsigned char>> ||
    std::is_same_v<T, t_m1> || std::is_same_v<T, t_m2> || std::is_same_v<T, t_v2> || std::is_same_v<T, t_nest2> || std::is_same_v<T, std::complex<double>> || std::is_same_v<T, std::bitset<33>> || std::is_same_v<T, char*>
#if GROUP == 5
    || std::is_same_v<T, bc::P3> || std::is_same_v<T, bc::P4> || std::is_same_v<T, bc::Em> || std::is_same_v<T, bc::P9>
#endif
#if GROUP == 6
    || true
#endif
;

#if defined(P_I01)
struct FStrict : cxon::json::format_traits { struct number : cxon::json::format_traits::number { static constexpr bool strict = true; }; };
using JS = cxon::JSON<FStrict>;
enum { exact = 0, past = 1, none = 2 }; // what is known of the end position
struct F { const char* name; io::R r; int end; };

template <class X, class T, class C> static io::R range(T& t, const C& c) { auto const r = cxon::from_bytes<X>(t, c.begin(), c.end()); return {!r.ec, r.ec, long(std::distance(c.begin(), typename C::const_iterator(r.end)))}; }
template <class X, class T, class C> static io::R whole(T& t, const C& c) { auto const r = cxon::from_bytes<X>(t, c); return {!r.ec, r.ec, long(std::distance(c.begin(), typename C::const_iterator(r.end)))}; }
template <class X, class T> static F form(T& t, const std::string& s, int k) {
    using U8 = std::conditional_t<std::is_same_v<X, CX>, unsigned char, char8_t>; // texts are made of char and char8_t only
    if (k == 0) return {"forward iterators", io::read_fwd<X>(t, s), exact};
    if (k == 1) return {"input iterators", io::read_in<X>(t, s), past};
    if constexpr (wide<T>) switch (k) {
        case 2: return {"string iterators", range<X>(t, s), exact};
        case 3: return {"string", whole<X>(t, s), exact};
        case 4: { std::list<char> c(s.begin(), s.end()); return {"list", whole<X>(t, c), exact}; }
        case 5: { std::deque<char> c(s.begin(), s.end()); return {"deque", range<X>(t, c), exact}; }
        case 6: { std::istringstream i(s); auto r = cxon::from_bytes<X>(t, std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); io::R o{!r.ec, r.ec, 0}; std::size_t left = 0; for (; r.end != std::istreambuf_iterator<char>(); ++r.end) ++left; o.end = long(s.size() - left); return {"stream buffer iterators", o, past}; }
        case 7: { std::istringstream i(s); i >> std::noskipws; auto r = cxon::from_bytes<X>(t, std::istream_iterator<char>(i), std::istream_iterator<char>()); return {"stream iterators", {!r.ec, r.ec, 0}, none}; }
        case 8: { std::vector<U8> c(s.begin(), s.end()); c.shrink_to_fit(); return {"vector of other bytes", whole<X>(t, c), exact}; }
        case 9: { io::Heap h(s); auto const b = (const U8*)h.begin(), e = (const U8*)h.end(); auto const r = cxon::from_bytes<X>(t, b, e); return {"pointers to other bytes", {!r.ec, r.ec, long(r.end - b)}, exact}; }
        case 10: { io::Heap h(s); auto const b = (char*)h.begin(), e = (char*)h.end(); auto const r = cxon::from_bytes<X>(t, b, e); return {"pointers to non-const", {!r.ec, r.ec, long(r.end - b)}, exact}; }
        case 11: { io::Heap h(s); return {"string view", whole<X>(t, std::string_view(h.begin(), s.size())), exact}; }
        case 12: { std::forward_list<char> c(s.begin(), s.end()); return {"forward list", range<X>(t, c), exact}; }
        case 13: { std::list<U8> c(s.begin(), s.end()); return {"list of other bytes", range<X>(t, c), exact}; }
    }
    __builtin_unreachable();
}
template <class X, class T> static void check(Src& s, const std::string& t, const std::string& shown) {
    Own<T> a, b;
    auto const r = io::read<X>(a.v, t);
    F const f = form<X>(b.v, t, int(s.draw(wide<T> ? 14 : 2)));
    s.label(f.name);
    auto const w = [&] { return cat(f.name, " differ from pointers on ", shown, ": ", io::msg(f.r), " at ", f.r.end, ", expected ", io::msg(r), " at ", r.end); };
    if constexpr (!std::is_same_v<X, CX>) {
        using E = cxon::json::read_error;
        if (r.ok && f.r.ec == E::overflow) { // num_len_max is for the forms other than pointers
            std::size_t d = 0; for (std::size_t i = 0, n = 0; i < t.size(); ++i) { n = t[i] && std::strchr("0123456789+-.eE", t[i]) ? n + 1 : 0; d = std::max(d, n); }
            CHECK(d >= 31, "overflow", w());
            s.label("long number"); return;
        }
        bool const two = r.ec == E::overflow || f.r.ec == E::overflow; // too long for a buffer, and wrong elsewhere: either may be reported
        bool const name = GROUP == 5 && f.end != exact && r.ec == E::unexpected; // the names of members are not decoded when they can be compared as they are
        if (!r.ok && !f.r.ok && (two || name)) { s.label("rejected, any error"); return; }
    }
    CHECK(f.r.ok == r.ok, "outcome", w());
    CHECK(f.r.ec == r.ec, "error", w());
    if (f.end == exact || (f.end == past && r.ok)) CHECK(f.r.end == r.end, "end", w());
    if (f.end == past) CHECK(f.r.end >= r.end && f.r.end <= long(t.size()), "end", w());
    if (r.ok) CHECK(eqv(a.v, b.v), "value", "the values of ", f.name, " and of pointers differ: ", shown);
    s.label(r.ok ? "accepted" : r.end > 0 ? "rejected inside" : "rejected");
    s.nontrivial(r.ok || r.end > 0);
}
static bool lax(std::string t) { // numbers, in quotes too, that are read by the conversion functions of the library when numbers are not strict
    for (auto& c : t) c = c == '"' ? ' ' : char(std::tolower(u8(c)));
    return t.find("inf") != t.npos || t.find("nan") != t.npos || jref::lax_numbers(t);
}
template <class T> static void json(Src& s) {
    std::string const t = texts::json<T>(s); s.show(quote(t)); s.noleak = leaky<T>;
    if (std::is_same_v<T, long double> || std::is_same_v<T, t_tup_ld> || lax(t) || s.coin()) return check<JS, T>(s, t, quote(t));
    check<JX, T>(s, t, quote(t));
}
template <class T> static void cbor(Src& s) {
    std::string const t = texts::cbor<T>(s); s.show(hex(t)); s.noleak = leaky<T>;
    if constexpr (std::is_pointer_v<T> && is_chr<std::remove_pointer_t<T>>) { C g; std::size_t gn; if (!cref::decode(t, g, gn) || cref::untag(g).k == C::uint || cref::untag(g).k == C::nint) return; } // a pointer to a single character is not a string
    check<CX, T>(s, t, hex(t));
}
#endif

#if defined(P_I02)
struct Push { // just what an insertable needs to be
    using value_type = char; std::string s;
    void push_back(char&& c) { s.push_back(c); } void push_back(const char& c) { s.push_back(c); }
    std::string::iterator begin() { return s.begin(); } std::string::iterator end() { return s.end(); }
};
struct Out { // an output iterator and nothing more
    using iterator_category = std::output_iterator_tag; using value_type = void; using difference_type = void; using pointer = void; using reference = void;
    std::string* s; Out& operator *() { return *this; } Out& operator ++() { return *this; } Out operator ++(int) { return *this; } Out& operator =(char c) { s->push_back(c); return *this; }
};
template <class X, class T> static void object(Src& s, T& v) {
    if constexpr (mods<T>) ty::gen(s, v);
#   if GROUP == 6
    else { std::string const t = std::is_same_v<X, JX> ? jref::render(jref::gen_doc(s, 4), s, jref::Style{}) : [&] { return cref::lawful(cref::gen(s, 4), s, cref::Style{}); }(); io::read<X>(v, t); }
#   endif
}
template <class X, class T, class C> static void insert(Src& s, const char* what, const std::string& text, const T& v) { // after what is there already
    s.label(what);
    std::string const was = s.coin() ? "" : std::string(s.draw(40), 'w');
    C c(was.begin(), was.end());
    auto const r = cxon::to_bytes<X>(c, v);
    CHECK(!r.ec, "outcome", "writing to ", what, " failed: ", r.ec.message());
    CHECK(std::string(c.begin(), c.end()) == was + text, "bytes", "other bytes are written to ", what, ": ", quote(std::string(c.begin(), c.end())), " expected ", quote(was + text));
    CHECK(std::size_t(std::distance(c.begin(), typename C::iterator(r.end))) == was.size(), "end", "the begin of what is written to ", what, " is reported at ", std::distance(c.begin(), typename C::iterator(r.end)), " expected ", was.size());
}
template <class X> static void bounded(bool ok, std::error_condition const& ec, long end, std::size_t cap, const std::string& got, const std::string& text, const char* what) {
    std::size_t const n = text.size();
    CHECK(ok == (cap >= n), "capacity", what, " of ", cap, " for ", n, " bytes: ", ok ? "success" : ec.message(), ": ", quote(text));
    CHECK(end >= 0 && end <= long(cap), "end", what, " of ", cap, ": end is at ", end);
    if (ok) CHECK(end == long(n), "end", what, " of ", cap, ": end is at ", end, " expected ", n);
    else CHECK(ec == X::write_error::output_failure, "error", what, " of ", cap, " for ", n, " bytes: ", ec.message());
    CHECK(got.compare(0, std::size_t(end), text, 0, std::size_t(end)) == 0, "bytes", what, " of ", cap, ": ", quote(got.substr(0, std::size_t(end))), " is not the begin of ", quote(text));
}
template <class X, class T> static void one_cap(Src& s, std::size_t cap, const std::string& text, const T& v) {
    using Y = std::conditional_t<std::is_same_v<X, CX>, unsigned char, char>;
    { // an exact block between two other bytes
        std::unique_ptr<Y[]> b(new Y[cap]); std::memset(b.get(), '~', cap);
        auto const r = cxon::to_bytes<X>(b.get(), b.get() + cap, v);
        bounded<X>(!r.ec, r.ec, long(r.end - b.get()), cap, std::string(b.get(), b.get() + cap), text, "an array");
    }
    if constexpr (wide<T>) switch (s.draw(6)) {
        case 0: { std::vector<char> c(cap, '~'); c.shrink_to_fit(); auto const r = cxon::to_bytes<X>(c.begin(), c.end(), v); bounded<X>(!r.ec, r.ec, long(r.end - c.begin()), cap, std::string(c.begin(), c.end()), text, "a range of a vector"); break; }
        case 1: { std::deque<char> c(cap, '~'); auto const r = cxon::to_bytes<X>(c.begin(), c.end(), v); bounded<X>(!r.ec, r.ec, long(r.end - c.begin()), cap, std::string(c.begin(), c.end()), text, "a range of a deque"); break; }
        case 2: { std::list<char> c(cap, '~'); auto const r = cxon::to_bytes<X>(c.begin(), c.end(), v); bounded<X>(!r.ec, r.ec, long(std::distance(c.begin(), r.end)), cap, std::string(c.begin(), c.end()), text, "a range of a list"); break; }
        case 3: { std::forward_list<char> c(cap, '~'); auto const r = cxon::to_bytes<X>(c.begin(), c.end(), v); bounded<X>(!r.ec, r.ec, long(std::distance(c.begin(), r.end)), cap, std::string(c.begin(), c.end()), text, "a range of a forward list"); break; }
    }
}
template <class X, class T> static void out(Src& s) {
    Own<T> a; object<X>(s, a.v); T const& v = a.v;
    std::string text; auto const r = cxon::to_bytes<X>(text, v); CHECK(!r.ec, "write", "writing failed: ", r.ec.message());
    s.show(std::is_same_v<X, JX> ? quote(text) : hex(text)); s.nontrivial(text.size() > 1);
    int k = int(s.draw(wide<T> ? 14 : 5));
    switch (k) {
        case 0: { s.label("output iterator"); std::string t; auto const q = cxon::to_bytes<X>(std::back_inserter(t), v); CHECK(!q.ec && t == text, "bytes", "an output iterator gets ", quote(t), " expected ", quote(text)); return; }
        case 1: return insert<X, T, std::vector<unsigned char>>(s, "a vector of unsigned char", text, v);
        default: { // capacities
            s.label("capacity"); std::size_t const n = text.size();
            if (n <= 24) { for (std::size_t c = 0; c <= n + 2; ++c) one_cap<X>(s, c, text, v); return; }
            for (int i = 0; i < 10; ++i) one_cap<X>(s, s.below(n), text, v);
            for (std::size_t c = n - 3; c <= n + 1; ++c) one_cap<X>(s, c, text, v);
            return;
        }
        case 5: case 6: case 7: case 8: case 9: case 10: case 11: case 12: case 13: if constexpr (wide<T>) switch (k) {
            case 5: return insert<X, T, std::string>(s, "a string", text, v);
            case 6: return insert<X, T, std::vector<char>>(s, "a vector", text, v);
            case 7: return insert<X, T, std::list<char>>(s, "a list", text, v);
            case 8: return insert<X, T, std::deque<signed char>>(s, "a deque of signed char", text, v);
            case 9: { s.label("insertable"); Push t; auto const q = cxon::to_bytes<X>(t, v); CHECK(!q.ec && t.s == text && q.end == t.begin(), "bytes", "an insertable gets ", quote(t.s), " expected ", quote(text)); return; }
            case 10: { s.label("output iterator only"); std::string t; auto const q = cxon::to_bytes<X>(Out{&t}, v); CHECK(!q.ec && t == text, "bytes", "an output iterator gets ", quote(t), " expected ", quote(text)); return; }
            case 11: { s.label("stream iterator"); std::ostringstream o; auto q = cxon::to_bytes<X>(std::ostream_iterator<char>(o), v); CHECK(!q.ec && o.str() == text, "bytes", "a stream gets ", quote(o.str()), " expected ", quote(text)); *q.end = '!'; CHECK(o.str() == text + '!', "end", "the iterator returned does not go on"); return; }
            case 12: { s.label("stream buffer iterator"); std::ostringstream o; auto q = cxon::to_bytes<X>(std::ostreambuf_iterator<char>(o), v); CHECK(!q.ec && o.str() == text, "bytes", "a stream buffer gets ", quote(o.str()), " expected ", quote(text)); *q.end = '!'; CHECK(o.str() == text + '!', "end", "the iterator returned does not go on"); return; }
            case 13: return insert<X, T, std::u8string>(s, "a string of char8_t", text, v);
        }
    }
}
template <class T> static void json(Src& s) { out<JX, T>(s); }
template <class T> static void cbor(Src& s) { out<CX, T>(s); }
#endif

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#if GROUP < 7
#   define PID ""
#elif defined(P_I01)
#   define PID "input "
#else
#   define PID "output "
#endif
#define REGJ(...) static Reg CAT(r_, __COUNTER__)(PID "JSON " #__VA_ARGS__, &json<__VA_ARGS__>);
#define REGC(...) static Reg CAT(r_, __COUNTER__)(PID "CBOR " #__VA_ARGS__, &cbor<__VA_ARGS__>);
#if defined(FMT_J)
#   define REG REGJ
#else
#   define REG REGC
#endif
#if GROUP == 1
TYPES_G1(REG)
#   if defined(FMT_J)
TYPES_G1J(REG)
#   endif
#elif GROUP == 2
TYPES_G2(REG) TYPES_G2S(REG)
#elif GROUP == 3
TYPES_G3(REG) TYPES_G3K(REG)
#elif GROUP == 4
TYPES_G4(REG)
#elif GROUP == 5
TYPES_CLS(REG)
#elif GROUP == 6
REG(cxon::json::node) REG(cxon::json::ordered_node) REG(cxon::cbor::node) REG(cxon::cbor::ordered_node)
#elif GROUP == 7
TYPES_GB(REG)
#elif GROUP == 8
TYPES_GC(REG)
#endif
