// Exact-size input buffers and reading/writing helpers.
#pragma once
#include "src.hpp"
#include <memory>
#include <iterator>

namespace io {

struct Heap { // a heap block of exactly the size of the text, so that any byte read past it is seen
    std::unique_ptr<char[]> p; std::size_t n;
    explicit Heap(const std::string& s) : p(new char[s.size()]), n(s.size()) { std::memcpy(p.get(), s.data(), n); }
    const char* begin() const { return p.get(); }
    const char* end() const { return p.get() + n; }
};

struct In { // single pass, exact
    using iterator_category = std::input_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char*; using reference = const char&;
    struct St { const char *i, *e; std::size_t n = 0; };
    St* s = nullptr;
    char const& operator *() const { return *s->i; }
    In& operator ++() { ++s->i; ++s->n; return *this; }
    struct Old { char c; char const& operator *() const { return c; } };
    Old operator ++(int) { Old t{**this}; ++*this; return t; }
    bool end() const { return !s || s->i == s->e; }
    friend bool operator ==(const In& a, const In& b) { return a.end() == b.end(); }
    friend bool operator !=(const In& a, const In& b) { return !(a == b); }
};

struct Fwd { // forward only
    using iterator_category = std::forward_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char*; using reference = const char&;
    const char* i = nullptr;
    char const& operator *() const { return *i; }
    Fwd& operator ++() { ++i; return *this; }
    Fwd operator ++(int) { Fwd t = *this; ++i; return t; }
    friend bool operator ==(const Fwd& a, const Fwd& b) { return a.i == b.i; }
    friend bool operator !=(const Fwd& a, const Fwd& b) { return a.i != b.i; }
};

struct R { bool ok = false; std::error_condition ec; long end = -1; };

template <class X, class T, class ...P> inline R read(T& t, const std::string& text, P&&... p) {
    Heap const h(text);
    const char *b = h.begin(), *e = h.end();
    auto const r = cxon::from_bytes<X>(t, b, e, std::forward<P>(p)...);
    return {!r.ec, r.ec, long(r.end - b)};
}
template <class X, class T, class ...P> inline R read_in(T& t, const std::string& text, P&&... p) {
    Heap const h(text); In::St st{h.begin(), h.end()}; In b; b.s = &st;
    auto const r = cxon::from_bytes<X>(t, b, In{}, std::forward<P>(p)...);
    return {!r.ec, r.ec, long(st.n)};
}
template <class X, class T, class ...P> inline R read_fwd(T& t, const std::string& text, P&&... p) {
    Heap const h(text); Fwd b, e; b.i = h.begin(); e.i = h.end();
    auto const r = cxon::from_bytes<X>(t, b, e, std::forward<P>(p)...);
    return {!r.ec, r.ec, long(r.end.i - h.begin())};
}
template <class X, class T, class ...P> inline R write(std::string& s, const T& t, P&&... p) {
    auto const r = cxon::to_bytes<X>(s, t, std::forward<P>(p)...);
    return {!r.ec, r.ec, long(s.size())};
}
inline std::string msg(const R& r) { return r.ok ? "ok" : r.ec.message(); }

} // io
