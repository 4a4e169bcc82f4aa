// V01: writes random cases for conf.cxx.
// usage: confgen seed shard shards cases out stats
#include "common/json.hpp"
#include "common/cbor.hpp"
#include "common/groups.hpp"
#include "common/classes.hpp"
#include "common/conf.hpp"
#include "common/texts.hpp"
#include "common/longs.hpp"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <unordered_set>
namespace pbt { Shm* shm = nullptr; u64 allocated_total() { return 0; } }
using namespace pbt;

namespace ty {
template <> struct En<cf::E> { using T = cf::E; static constexpr EnV<T> v[] = {{T::one, "one", 3, 0}, {T::two, "two", 3, 2}, {T::minus, "-", 1, -3}, {T::big, "big one", 7, 1000000}}; };
template <> struct Cls<cf::S> : ClsBase CLS(cf::S, FD(a), FD(b)) };
template <> struct Cls<cf::P> : ClsBase CLS(cf::P, FD(a), FD(b), FDN("cc", c), FDD("d", d, self.d.empty()), skip<cf::P>("skip"), FD(e), FDD("f", f, self.f.empty())) static constexpr bool skips = true; };
}

struct Node {};
using Make = cf::Case (*)(Src&);
template <class T> static cf::Case make(Src& s) {
    cf::Case c{}; c.op = (unsigned char)(s.draw(10)); c.form = (unsigned char)s.draw(3);
    static const unsigned char OP[] = {0, 0, 0, 1, 2, 2, 3, 4, 5, 6};
    c.op = OP[c.op];
    if (c.op == 6) {
        if constexpr (texts::mods<T>) { ty::Box<T> b; ty::gen(s, b.v); c.in = cref::shortest(ty::V<T>::toc(b.v)); }
        else c.in = cref::shortest(cref::gen(s, 4));
    }
    else c.in = c.op == 2 ? texts::cbor<T>(s) : texts::json<T>(s);
    if ((c.op == 0 || c.op == 4) && ty::is_int<T> && s.chance(1, 2)) { // around the limits of integers
        c.in = (s.coin() ? "-" : "") + std::to_string(s.bits()) + std::string(s.draw(3), '0') + (s.coin() ? "" : s.coin() ? ".0" : " ");
    }
    return c;
}
// unspecified: nan and inf where there must be numbers of plain JSON (from_chars reads them), and sizes beyond max_size() of the containers of some versions of the library
static bool excluded(const cf::Case& c) {
    if (c.op == 2) {
        for (std::size_t i = 0; i + 8 < c.in.size(); ++i) { u8 const h = u8(c.in[i]); if ((h == 0x5B || h == 0x7B || h == 0x9B || h == 0xBB) && (c.in[i + 1] || c.in[i + 2])) return true; }
        return false;
    }
    if (c.op == 3 || c.op == 6) return false;
    std::string t; for (char x : c.in) t += x >= 'A' && x <= 'Z' ? char(x + 32) : x;
    for (auto k : {"nan", "inf"})
        for (std::size_t i = t.find(k); i != std::string::npos; i = t.find(k, i + 1)) {
            bool const n = i > 0 && t[i - 1] == '-'; std::size_t const b = i - n;
            if (!(b > 0 && t[b - 1] == '"' && i + 3 < t.size() && t[i + 3] == '"' && c.in.compare(i, 3, k) == 0)) return true;
        }
    return false;
}
static cf::Case tidy(Src& s) {
    cf::Case c{}; c.op = (unsigned char)s.draw(9); c.form = (unsigned char)s.draw(3);
    jref::Style st; c.in = jref::render(jref::gen_doc(s, int(2 + s.draw(5))), s, st);
    return c;
}

int main(int n, char** v) {
    if (n != 7) return 2;
    shm = static_cast<Shm*>(std::calloc(1, sizeof(Shm)));
    u64 const seed = std::strtoull(v[1], nullptr, 10), I = std::strtoull(v[2], nullptr, 10), S = std::strtoull(v[3], nullptr, 10), N = std::strtoull(v[4], nullptr, 10);
    std::vector<std::pair<int, Make>> mk;
#   define MK(N, ...) mk.push_back({N, make<__VA_ARGS__>});
    CONF_TYPES(MK) CONF_TYPES17(MK)
    for (int i = 50; i < 54; ++i) for (int k = 0; k < 4; ++k) mk.push_back({i, make<Node>});
    for (int k = 0; k < 4; ++k) mk.push_back({54, tidy});
    mk.push_back({12, make<float>}); mk.push_back({13, make<double>}); mk.push_back({18, make<cf::t0>}); mk.push_back({47, make<cf::P>}); mk.push_back({62, make<cf::u2>});
    std::ofstream o(v[5], std::ios::binary); std::unordered_set<u64> seen; u64 cases = 0, skipped = 0; std::map<int, u64> ops; std::vector<std::string> samples;
    Src s;
    for (u64 k = N * I / S; k < N * (I + 1) / S; ++k) {
        s.begin(mix(mix(seed) + k * 0x9E3779B97F4A7C15ull));
        auto const& m = mk[k % mk.size()]; cf::Case c = m.second(s); c.type = (unsigned char)m.first;
        if (c.type != 54 && excluded(c)) { ++skipped; continue; }
        u32 const l = u32(c.in.size()); o.put(char(c.type)).put(char(c.op)).put(char(c.form)); o.write((const char*)&l, 4); o << c.in;
        ++cases; ++ops[c.type == 54 ? 54 : c.op];
        if (c.in.size() > 2) { u64 h = mix(u64(c.type) << 16 | u64(c.op) << 8 | c.form); for (u8 x : c.in) h = (h ^ x) * 1099511628211ull; seen.insert(h); if (samples.size() < 6 && k % 997 == I) samples.push_back(cat("type ", int(c.type), " operation ", int(c.op), " form ", int(c.form), " ", hex(c.in))); }
    }
    std::ofstream j(v[6]); j << "{\"evaluations\":" << cases << ",\"distinct\":" << seen.size() << ",\"excluded\":" << skipped << ",\"samples\":[";
    for (std::size_t i = 0; i < samples.size(); ++i) j << (i ? "," : "") << '"' << samples[i] << '"';
    j << "],\"operations\":{"; bool f = true; for (auto& x : ops) j << (f ? "" : ",") << '"' << x.first << "\":" << x.second, f = false;
    j << "}}";
}
