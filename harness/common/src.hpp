// Choice-sequence source of all generated inputs, failure reporting and the test registry.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <initializer_list>
#include <exception>

namespace pbt {

using u8 = unsigned char; using u32 = std::uint32_t; using u64 = std::uint64_t; using i64 = std::int64_t;

struct Fail { // a falsified property; not derived from std::exception on purpose
    std::string label, msg;
};

inline u64 mix(u64 z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

// shared between the worker and its parent, so that the choices of a crashing case are known
struct Shm {
    static constexpr u32 cap = 1u << 17;
    volatile u64 k; volatile int test; volatile u32 n; volatile int status;
    char label[256]; char msg[8192];
    u64 ch[cap];
};
extern Shm* shm;
u64 allocated_total(); // bytes allocated by this process so far

struct Src {
    enum { max_labels = 24 };
    u64 state = 0; bool replay = false; const std::vector<u64>* rec = nullptr; std::size_t pos = 0;
    u64 hash = 0; bool nontriv = false; std::string sample; const char* labels[max_labels]; int nlabels = 0;
    bool noleak = false;
    int budget = 400; // elements that may still be generated

    void begin(u64 seed) { state = seed; replay = false; reset(); }
    void begin(const std::vector<u64>& r) { rec = &r; replay = true; reset(); }
    void reset() { pos = 0; hash = 1469598103934665603ull; nontriv = false; sample.clear(); nlabels = 0; noleak = false; budget = 400; shm->n = 0; }

    u64 draw(u64 n) { // [0, n), n == 0: all 64 bits; 0 is the simplest
        u64 v;
        if (replay) v = pos < rec->size() ? (*rec)[pos] : 0, ++pos;
        else        v = mix(state += 0xD1342543DE82EF95ull);
        if (n) v %= n;
        if (!replay && shm->n >= Shm::cap) v = 0;
        if (shm->n < Shm::cap) { shm->ch[shm->n] = v; shm->n = shm->n + 1; }
        hash = (hash ^ v) * 1099511628211ull;
        return v;
    }
    bool coin() { return draw(2) != 0; }
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    i64 range(i64 lo, i64 hi) { return lo + i64(draw(u64(hi - lo) + 1)); }
    std::size_t below(std::size_t n) { return std::size_t(draw(n)); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T, std::size_t N> const T& pick(const T (&v)[N]) { return v[below(N)]; }
    std::size_t len(std::size_t max = 6) { // container sizes: mostly small, sometimes larger
        if (budget <= 0) return 0;
        std::size_t n;
        switch (draw(8)) {
            case 0: n = draw(2); break;
            case 1: case 2: case 3: case 4: n = draw(max / 2 + 1); break;
            case 5: case 6: n = draw(max + 1); break;
            default: n = draw(max * 5 + 1); break;
        }
        if (n > std::size_t(budget)) n = std::size_t(budget);
        budget -= int(n);
        return n;
    }
    u64 bits() { // biased to few bits and to the limits
        unsigned const w = unsigned(draw(65));
        u64 m = w == 0 ? 0 : w == 64 ? ~0ull : (1ull << w) - 1;
        switch (draw(4)) {
            case 0: return w ? 1ull << (w - 1) : 0;
            case 1: return m;
            default: return draw(0) & m;
        }
    }
    void nontrivial() { nontriv = true; }
    void nontrivial(bool c) { nontriv = nontriv || c; }
    void label(const char* l) { // string literals only
        for (int i = 0; i < nlabels; ++i) if (labels[i] == l || std::strcmp(labels[i], l) == 0) return;
        if (nlabels < max_labels) labels[nlabels++] = l;
    }
    void show(const std::string& s) { if (sample.size() < 400) { sample.append(s, 0, 200); } }
};

template <class T> inline void cat_(std::ostringstream& o, const T& t) { o << t; }
template <class ...A> inline std::string cat(const A&... a) {
    std::ostringstream o; int x[] = {0, (cat_(o, a), 0)...}; (void)x; return o.str();
}
inline std::string hex(const u8* b, std::size_t n, std::size_t max = 120) {
    std::string s; char t[4];
    for (std::size_t i = 0; i < n && i < max; ++i) std::snprintf(t, 4, "%02x", b[i]), s += t;
    if (n > max) s += "..(" + std::to_string(n) + ")";
    return s;
}
inline std::string hex(const std::string& b) { return hex((const u8*)b.data(), b.size()); }
inline std::string quote(const std::string& b, std::size_t max = 300) { // printable form
    std::string s = "`"; char t[8];
    for (std::size_t i = 0; i < b.size() && i < max; ++i) {
        u8 c = u8(b[i]);
        if (c >= 0x20 && c < 0x7f && c != '\\') s += char(c); else std::snprintf(t, 8, "\\x%02x", c), s += t;
    }
    if (b.size() > max) s += "..(" + std::to_string(b.size()) + ")";
    return s + "`";
}

[[noreturn]] inline void fail(const char* label, const std::string& m) { throw Fail{label, m}; }
#define CHECK(c, label, ...) do { if (!(c)) ::pbt::fail(label, ::pbt::cat(__VA_ARGS__)); } while (0)

using TestFn = void (*)(Src&);
struct Test { std::string name; TestFn fn; int weight; };
inline std::vector<Test>& tests() { static std::vector<Test> t; return t; }
struct Reg { Reg(std::string n, TestFn f, int w = 1) { tests().push_back({std::move(n), f, w}); } };

} // pbt
using namespace pbt;
