// V01: runs the cases of a file and writes a hash of the outcome of each. C++11.
// usage: conf cases out | conf --show cases index. -DPART=<0..2>
#include "cxon/json.hxx"
#include "cxon/cxcf.hxx"
#include "cxon/cbor.hxx"
#include "common/conf.hpp"
#include "cxon/lib/std/array.hxx"
#include "cxon/lib/std/bitset.hxx"
#include "cxon/lib/std/chrono.hxx"
#include "cxon/lib/std/complex.hxx"
#include "cxon/lib/std/deque.hxx"
#include "cxon/lib/std/forward_list.hxx"
#include "cxon/lib/std/list.hxx"
#include "cxon/lib/std/map.hxx"
#include "cxon/lib/std/memory.hxx"
#include "cxon/lib/std/set.hxx"
#include "cxon/lib/std/string.hxx"
#include "cxon/lib/std/tuple.hxx"
#include "cxon/lib/std/utility.hxx"
#include "cxon/lib/std/valarray.hxx"
#include "cxon/lib/std/vector.hxx"
#if __cplusplus >= 201703L
#   include "cxon/lib/std/optional.hxx"
#   include "cxon/lib/std/variant.hxx"
#endif
#include "cxon/lib/node.hxx"
#include "cxon/lib/node.ordered.hxx"
#include "cxon/lang/json/tidy.hxx"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <fstream>
#include <iterator>
#include <memory>
#if defined(__has_feature) && !PART
#   if __has_feature(address_sanitizer)
extern "C" const char* __asan_default_options() { return "intercept_strlen=0:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:exitcode=99:handle_abort=1:symbolize=0:quarantine_size_mb=16:malloc_context_size=2"; }
#   endif
#endif

CXON_JSON_ENM(cf::E, CXON_JSON_ENM_VALUE_ASIS(one), CXON_JSON_ENM_VALUE_ASIS(two), CXON_JSON_ENM_VALUE_NAME("-", minus), CXON_JSON_ENM_VALUE_NAME("big one", big))
CXON_CBOR_ENM(cf::E, CXON_CBOR_ENM_VALUE_NAME(0, one), CXON_CBOR_ENM_VALUE_NAME(2, two), CXON_CBOR_ENM_VALUE_NAME(-3, minus), CXON_CBOR_ENM_VALUE_NAME(1000000, big))
CXON_JSON_CLS(cf::S, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS(b))
CXON_CBOR_CLS(cf::S, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_ASIS(b))
CXON_JSON_CLS(cf::P, CXON_JSON_CLS_FIELD_ASIS(a), CXON_JSON_CLS_FIELD_ASIS(b), CXON_JSON_CLS_FIELD_NAME("cc", c), CXON_JSON_CLS_FIELD_ASIS_DFLT(d, self.d.empty()), CXON_JSON_CLS_FIELD_SKIP("skip"), CXON_JSON_CLS_FIELD_ASIS(e), CXON_JSON_CLS_FIELD_ASIS_DFLT(f, self.f.empty()))
CXON_CBOR_CLS(cf::P, CXON_CBOR_CLS_FIELD_ASIS(a), CXON_CBOR_CLS_FIELD_ASIS(b), CXON_CBOR_CLS_FIELD_NAME("cc", c), CXON_CBOR_CLS_FIELD_ASIS_DFLT(d, self.d.empty()), CXON_CBOR_CLS_FIELD_SKIP("skip"), CXON_CBOR_CLS_FIELD_ASIS(e), CXON_CBOR_CLS_FIELD_ASIS_DFLT(f, self.f.empty()))

namespace {

struct FPerm : cxon::json::format_traits { static constexpr bool allow_comments = true, allow_trailing_separators = true, allow_javascript_nans = true, unquote_quoted_keys = true, assume_unique_object_keys = false; };
struct FStrict : cxon::json::format_traits { struct number : cxon::json::format_traits::number { static constexpr bool strict = true; }; };
struct FFast : cxon::json::format_traits { static constexpr bool assume_no_escapes = true; };
using JX = cxon::JSON<>; using QX = cxon::CXCF<>; using CX = cxon::CBOR<>; using JP = cxon::JSON<FPerm>; using JS = cxon::JSON<FStrict>; using JF = cxon::JSON<FFast>;

struct St { const char *i, *e; std::size_t n; };
struct In {
    using iterator_category = std::input_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char*; using reference = const char&;
    St* s;
    explicit In(St* s = nullptr) : s(s) {}
    char const& operator *() const { return *s->i; }
    In& operator ++() { ++s->i; ++s->n; return *this; }
    struct Old { char c; char const& operator *() const { return c; } };
    Old operator ++(int) { Old t = {**this}; ++*this; return t; }
    bool end() const { return !s || s->i == s->e; }
    friend bool operator ==(const In& a, const In& b) { return a.end() == b.end(); }
    friend bool operator !=(const In& a, const In& b) { return !(a == b); }
};
struct Fwd {
    using iterator_category = std::forward_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char*; using reference = const char&;
    const char* i;
    explicit Fwd(const char* i = nullptr) : i(i) {}
    char const& operator *() const { return *i; }
    Fwd& operator ++() { ++i; return *this; }
    Fwd operator ++(int) { Fwd t = *this; ++i; return t; }
    friend bool operator ==(const Fwd& a, const Fwd& b) { return a.i == b.i; }
    friend bool operator !=(const Fwd& a, const Fwd& b) { return a.i != b.i; }
};

std::string num(long n) { return std::to_string(n); }
std::string hex(const std::string& s) { std::string r; char b[4]; for (unsigned char c : s) std::snprintf(b, 4, "%02x", c), r += b; return r; }
template <class X, class T> std::string written(const T& t) { std::string o; auto const r = cxon::to_bytes<X>(o, t); return (r ? "ok " : "error " + num(r.ec.value()) + " ") + hex(o); }
template <class X, class T> std::string all(const T& t) { return written<JX>(t) + " " + written<CX>(t); }

template <class X, class T> std::string read(T& t, const std::string& in, int form, bool& ok) {
    std::unique_ptr<char[]> p(new char[in.size()]); if (!in.empty()) std::memcpy(p.get(), in.data(), in.size());
    const char *b = p.get(), *e = b + in.size(); long end; std::error_condition ec;
    if (form == 1) { auto const r = cxon::from_bytes<X>(t, Fwd(b), Fwd(e)); end = r.end.i - b; ec = r.ec; }
    else if (form == 2) { St s = {b, e, 0}; auto const r = cxon::from_bytes<X>(t, In(&s), In()); end = long(s.n); ec = r.ec; }
    else { auto const r = cxon::from_bytes<X>(t, b, e); end = r.end - b; ec = r.ec; }
    ok = !ec;
    return (ok ? std::string("ok") : std::string(ec.category().name()) + " " + num(ec.value()) + " " + ec.message()) + " at " + num(end);
}
template <class X, class T> std::string reading(const std::string& in, int form) {
    T t{}; bool ok; std::string const r = read<X>(t, in, form, ok); return ok ? r + " " + all<X>(t) : r;
}
template <class T> std::string writing(const std::string& in, int form) {
    T t{}; bool ok; std::string const r = read<CX>(t, in, 0, ok); if (!ok) return r;
    std::string s; std::vector<char> v(in.size() + 7, '~');
    switch (form) {
        case 0: return written<QX>(t) + " " + written<JP>(t) + " " + written<JS>(t);
        case 1: { auto const q = cxon::to_bytes<JX>(std::back_inserter(s), t); return hex(s) + num(q.ec.value()); }
        default: { auto const q = cxon::to_bytes<JX>(v.begin(), v.end(), t); return q.ec ? "error " + num(q.ec.value()) : hex(std::string(v.begin(), q.end)); } // how much of what does not fit is written is not specified
    }
}
template <class T> std::string go(const cf::Case& c) {
    switch (c.op) {
        case 0: return reading<JX, T>(c.in, c.form); case 1: return reading<QX, T>(c.in, c.form); case 2: return reading<CX, T>(c.in, c.form);
        case 3: return reading<JP, T>(c.in, c.form); case 4: return reading<JS, T>(c.in, c.form); case 5: return reading<JF, T>(c.in, c.form);
        default: return writing<T>(c.in, c.form);
    }
}
std::string tidy(const cf::Case& c) {
    switch (c.form) {
        case 0: return hex(cxon::json::tidy(c.in, unsigned(c.op), char(32))); case 1: return hex(cxon::json::tidy<cxon::json::format_traits, std::string>(c.in.data(), c.in.data() + c.in.size(), unsigned(c.op), char(9)));
        default: { cxon::json::node n; bool ok; std::string const r = read<JX>(n, c.in, 0, ok); std::string o; auto const w = cxon::to_bytes<JX>(cxon::json::make_indenter(std::back_inserter(o), c.op, ' '), n); return r + (w.ec ? "error" : "ok") + (ok ? hex(o) : ""); }
    }
}

} // anonymous
#define GO(N, ...) case N: return go<__VA_ARGS__>(c);
#if PART == 1
std::string outcome1(const cf::Case& c) {
    switch (c.type) { CONF_TYPES_A(GO) default: return std::string(); }
}
#elif PART == 2
std::string outcome2(const cf::Case& c) {
    switch (c.type) { CONF_TYPES_B(GO) default: return std::string(); }
}
#else
std::string outcome1(const cf::Case&);
std::string outcome2(const cf::Case&);
static std::string outcome(const cf::Case& c) {
    switch (c.type) {
        GO(50, cxon::json::node) GO(51, cxon::json::ordered_node) GO(52, cxon::cbor::node) GO(53, cxon::cbor::ordered_node)
        case 54: return tidy(c);
#       if __cplusplus >= 201703L
        CONF_TYPES17(GO)
#       endif
        default: { std::string const r = outcome1(c); return r.empty() ? outcome2(c) : r; }
    }
}

int main(int n, char** v) {
    bool const show = n == 4 && !std::strcmp(v[1], "--show");
    std::ifstream f(v[show ? 2 : 1], std::ios::binary); std::string d((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    long const want = show ? std::atol(v[3]) : -1; long k = 0; std::FILE* o = show ? nullptr : std::fopen(v[2], "wb");
    for (std::size_t i = 0; i + 7 <= d.size(); ++k) {
        cf::Case c; c.type = (unsigned char)d[i]; c.op = (unsigned char)d[i + 1]; c.form = (unsigned char)d[i + 2]; std::uint32_t l; std::memcpy(&l, &d[i + 3], 4); i += 7; c.in = d.substr(i, l); i += l;
        if (show) { if (k == want) std::printf("%s\n", outcome(c).c_str()); continue; }
        std::string const r = outcome(c); std::uint64_t h = r.empty() ? 0 : 14695981039346656037ull; for (unsigned char x : r) h = (h ^ x) * 1099511628211ull;
        std::fwrite(&h, 8, 1, o); std::fflush(o);
    }
}
#endif
