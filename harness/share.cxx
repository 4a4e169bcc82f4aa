// H01: the outcome of a call depends on its arguments alone, whatever was called before it or is called
// at the same time in other threads. -DGROUP=<n>: 1 JSON, 2 CBOR, 3 classes, nodes, options, tidy. -DTHREADS for ThreadSanitizer
#include "cxon/json.hxx"
#include "cxon/cxcf.hxx"
#include "cxon/cbor.hxx"
#if GROUP == 3
#   include "cxon/lib/node.hxx"
#   include "cxon/lib/node.ordered.hxx"
#   include "cxon/lang/json/tidy.hxx"
#endif
#include "common/json.hpp"
#include "common/cbor.hpp"
#include "common/io.hpp"
#include "common/groups.hpp"
#include "common/texts.hpp"
#if GROUP == 3
#   include "common/classes.hpp"
#   include "common/nodes.hpp"
#endif
#include <functional>
#include <thread>
#include <atomic>
#include <cerrno>
#include <cfenv>
#if defined(THREADS) && GROUP == 1
extern "C" const char* __tsan_default_options() { return "die_after_fork=0:halt_on_error=1:exitcode=99:symbolize=0:report_thread_leaks=0:report_destroy_locked=0:history_size=1:print_suggestions=0"; }
#endif
using namespace ty; using texts::mods;

namespace {

using JX = cxon::JSON<>; using QX = cxon::CXCF<>; using CX = cxon::CBOR<>;
struct FPerm : cxon::json::format_traits { static constexpr bool allow_comments = true, allow_trailing_separators = true, allow_javascript_nans = true, unquote_quoted_keys = true, assume_unique_object_keys = false; };
struct FNoval : cxon::json::format_traits { static constexpr bool validate_string_encoding = false, validate_string_escapes = false; };
using JP = cxon::JSON<FPerm>; using JV = cxon::JSON<FNoval>;

struct Op { std::string what; std::function<std::string()> run; };
template <class R> std::string res(const R& r) { return cat(r.ok ? "ok" : r.ec.category().name(), ' ', r.ok ? 0 : r.ec.value(), ' ', r.ok ? "" : r.ec.message(), " at ", r.end); }
template <class T> struct Own { T v{}; Own() = default; Own(const Own&) = delete; ~Own() { if constexpr (mods<T>) V<T>::fini(v); } };
template <class X> inline constexpr bool is_cbor = std::is_same_v<X, CX>;

template <class X, class T> Op read_op(Src& s, const char* f) {
    std::string t;
    if constexpr (is_cbor<X>) t = texts::cbor<T>(s); else t = texts::json<T>(s);
    if constexpr (std::is_same_v<X, JV>) { uni::U u; if (!uni::from8(t, u)) t = "[\"\\uD83C\\uDF4C\\u00e9\"]"; } // well-formed by the word of the user
    int const form = int(s.draw(3)); int const par = int(s.draw(4));
    return {cat("read ", f, " form ", form, " par ", par, " of ", quote(t)), [=]() -> std::string {
        Own<T> a; io::R r;
        if constexpr (!is_cbor<X>) {
            if (par == 1) r = form == 0 ? io::read<X>(a.v, t, cxon::json::num_len_max::set<8>()) : form == 1 ? io::read_fwd<X>(a.v, t, cxon::json::num_len_max::set<8>()) : io::read_in<X>(a.v, t, cxon::json::num_len_max::set<8>());
            else if (par == 2) r = form == 0 ? io::read<X>(a.v, t, cxon::json::ids_len_max::set<6>()) : form == 1 ? io::read_fwd<X>(a.v, t, cxon::json::ids_len_max::set<6>()) : io::read_in<X>(a.v, t, cxon::json::ids_len_max::set<6>());
            else r = form == 0 ? io::read<X>(a.v, t) : form == 1 ? io::read_fwd<X>(a.v, t) : io::read_in<X>(a.v, t);
        }
        else r = form == 0 ? io::read<X>(a.v, t) : form == 1 ? io::read_fwd<X>(a.v, t) : io::read_in<X>(a.v, t);
        if (!r.ok) return res(r);
        std::string o; auto const w = io::write<CX>(o, a.v); return cat(res(r), " / ", res(w), ' ', hex(o));
    }};
}
template <class X, class T> Op write_op(Src& s, const char* f) {
    auto p = std::make_shared<Own<T>>(); Src& g = s;
    if constexpr (mods<T>) V<T>::gen(g, p->v); else { std::string t = texts::json<T>(s); io::read<JX>(p->v, t); }
    int const form = int(s.draw(3)), prec = int(s.draw(3)); std::size_t const cap = s.coin() ? s.draw(40) : s.draw(400);
    return {cat("write ", f, " form ", form, " capacity ", cap), [=]() -> std::string {
        T const& v = p->v;
        if (form == 0) { std::string o; io::R w;
            if constexpr (is_cbor<X>) w = io::write<X>(o, v);
            else w = prec == 0 ? io::write<X>(o, v) : prec == 1 ? io::write<X>(o, v, cxon::json::fp_precision::set<5>()) : io::write<X>(o, v, cxon::json::fp_precision::set<17>());
            return cat(res(w), ' ', quote(o)); }
        if (form == 1) { std::string o; auto const r = cxon::to_bytes<X>(std::back_inserter(o), v); return cat(!r.ec, r.ec.message(), quote(o)); }
        std::string o(cap, '~'); auto const r = cxon::to_bytes<X>(o.begin(), o.end(), v); return cat(!r.ec, r.ec.message(), r.end - o.begin(), quote(o.substr(0, std::size_t(r.end - o.begin()))));
    }};
}
#if GROUP == 3
template <class N> Op node_op(Src& s, const char* f) {
    std::string const t = texts::json<N>(s), c = texts::cbor<N>(s);
    auto p = std::make_shared<N>(); io::read<JX>(*p, t); auto q = std::make_shared<N>(); io::read<CX>(*q, c);
    return {cat("node ", f, " of ", quote(t), " and ", hex(c)), [=]() -> std::string {
        N a, b; auto const r = io::read<JX>(a, t); auto const u = io::read<CX>(b, c);
        std::string o, x, y; io::write<JX>(o, a); io::write<JX>(x, *p); io::write<CX>(y, *q);
        bool const same = a == *p, other = b == *q; N k = *p, l = std::move(b); (void)l;
        if (!(r.ok && u.ok)) return cat(res(r), res(u), quote(x), hex(y)); // the value left by a failure is not specified
        return cat(res(r), res(u), quote(o), quote(x), hex(y), same, other, a < *q, *q < a, k == *p, std::hash<N>()(*p), ' ', std::hash<N>()(*q));
    }};
}
template <unsigned D> Op depth_op(Src& s) {
    std::string t; for (std::size_t n = s.draw(2 * D); n--; ) t += s.coin() ? "[" : "{\"a\":";
    t += '1'; for (std::size_t i = t.size(); i--; ) if (t[i] == '[') t += ']'; else if (t[i] == '{') t += '}';
    return {cat("limit ", D, " for ", t), [=]() -> std::string { cxon::json::node n; auto const r = io::read<JX>(n, t, cxon::node::recursion_depth::set<D>()); std::string o; auto const w = io::write<JX>(o, n, cxon::node::recursion_depth::set<D + 1>()); return r.ok ? cat(res(r), res(w), quote(o)) : res(r); }};
}
Op tidy_op(Src& s) {
    jref::Style st; std::string const t = jref::render(jref::gen_doc(s, 5), s, st); unsigned const tab = unsigned(s.draw(6)); char const pad = s.coin() ? ' ' : '\t';
    return {cat("tidy ", quote(t)), [=]() -> std::string { std::string o, q; cxon::json::node n; io::read<JX>(n, t); o = cxon::json::tidy(t, tab, pad); auto const r = cxon::to_bytes<JX>(cxon::json::make_indenter<JX>(std::back_inserter(q), tab, pad), n); (void)r; return o + q; }};
}
#endif

using Mk = Op (*)(Src&, const char*);
struct Kind { Mk mk; const char* name; };
#define RW(X, ...) Kind{&read_op<X, __VA_ARGS__>, #X " " #__VA_ARGS__}, Kind{&write_op<X, __VA_ARGS__>, #X " " #__VA_ARGS__},
using t_msi_ = std::map<std::string, int>; using t_mif_ = std::map<int, float>; using t_vd_ = std::vector<double>; using t_vs_ = std::vector<std::string>; using t_var_ = std::variant<int, std::string>; using t_vvb_ = std::variant<bool, double, std::string, std::vector<int>>; using t_tup_ = std::tuple<int, std::string, std::optional<double>>; using t_bits_ = std::bitset<70>; using t_up_ = std::unique_ptr<std::string>; using t_mm_ = std::map<std::string, std::map<std::string, std::vector<long>>>; using t_um_ = std::unordered_map<std::string, double>; using t_cd_ = std::complex<float>; using t_ms_ = std::chrono::milliseconds;
const Kind kinds_[] = {
#if GROUP == 1
    RW(JX, int) RW(JX, double) RW(JX, float) RW(JX, unsigned long long) RW(JX, bool) RW(JX, char) RW(JX, std::string) RW(JX, std::u16string) RW(JX, std::u32string) RW(JX, t_vd_) RW(JX, t_vs_) RW(JX, t_msi_) RW(JX, t_mif_) RW(JX, t_var_) RW(JX, t_vvb_) RW(JX, t_tup_) RW(JX, t_bits_) RW(JX, t_up_) RW(JX, t_mm_) RW(JX, t_cd_)
    RW(QX, t_msi_) RW(QX, t_vd_) RW(QX, t_mm_) RW(JP, t_mm_) RW(JP, t_vd_) RW(JV, t_vs_) RW(JV, std::u16string)
#elif GROUP == 2
    RW(CX, int) RW(CX, double) RW(CX, float) RW(CX, unsigned long long) RW(CX, bool) RW(CX, std::string) RW(CX, std::u16string) RW(CX, t_vd_) RW(CX, t_vs_) RW(CX, t_msi_) RW(CX, t_mif_) RW(CX, t_var_) RW(CX, t_vvb_) RW(CX, t_tup_) RW(CX, t_bits_) RW(CX, t_up_) RW(CX, t_mm_) RW(CX, t_cd_)
    RW(JX, double) RW(JX, t_vs_) RW(JX, t_mif_)
#else
    RW(JX, bc::P1) RW(JX, bc::P3) RW(JX, bc::P4) RW(JX, bc::P6) RW(JX, bc::P7) RW(JX, bc::P5) RW(JX, bc::Em) RW(CX, bc::P1) RW(CX, bc::P3) RW(CX, bc::P4) RW(CX, bc::P6) RW(CX, bc::P5) RW(CX, bc::El) RW(QX, bc::P3) RW(QX, bc::P6) RW(JP, bc::P4)
    Kind{&node_op<cxon::json::node>, "json"}, Kind{&node_op<cxon::json::ordered_node>, "json ordered"}, Kind{&node_op<cxon::cbor::node>, "cbor"}, Kind{&node_op<cxon::cbor::ordered_node>, "cbor ordered"},
    Kind{[](Src& s, const char*) { return depth_op<5>(s); }, ""}, Kind{[](Src& s, const char*) { return depth_op<9>(s); }, ""}, Kind{[](Src& s, const char*) { return tidy_op(s); }, ""}, Kind{[](Src& s, const char*) { return tidy_op(s); }, ""},
#endif
};
std::vector<Op> ops(Src& s) {
    std::vector<Op> v; std::size_t const n = 2 + s.draw(6);
    Kind const* k = nullptr; std::string shown;
    for (std::size_t i = 0; i < n; ++i) {
        if (!k || !s.chance(1, 3)) k = &kinds_[s.below(std::size(kinds_))]; // often the same kind again
        v.push_back(k->mk(s, k->name)); shown += (i ? "; " : "") + v.back().what.substr(0, 60);
    }
    s.show(shown); return v;
}

#define STR_(x) #x
#define STR(x) STR_(x)
#define NAME STR(GROUP)
#ifndef THREADS
void prop(Src& s) {
    auto const v = ops(s); std::size_t const n = v.size();
    std::vector<std::string> first; for (auto& o : v) first.push_back(o.run());
    bool moved = false;
    for (int k = 0; k < 3; ++k) { // other orders, and other states of the thread
        std::vector<std::size_t> p(n); for (std::size_t i = 0; i < n; ++i) p[i] = i;
        if (k == 0) std::reverse(p.begin(), p.end()); else for (std::size_t i = n; i > 1; --i) std::swap(p[i - 1], p[s.below(i)]);
        for (auto i : p) {
            if (s.coin()) errno = s.coin() ? ERANGE : EINVAL;
            std::string const r = v[i].run(); moved = true;
            CHECK(r == first[i], "history", v[i].what, " gives ", r.substr(0, 300), " and not ", first[i].substr(0, 300), ", as at first");
        }
    }
    s.nontrivial(moved);
}
Reg r_("history " NAME, &prop);
#else
void prop(Src& s) {
    auto const v = ops(s);
    std::vector<std::string> first; if (s.coin()) for (auto& o : v) first.push_back(o.run()); // or what is initialized at first is initialized in parallel
    unsigned const T = 2 + unsigned(s.draw(3));
    std::vector<std::vector<std::size_t>> plan(T); for (auto& p : plan) for (std::size_t k = v.size() + s.draw(4); k--; ) p.push_back(s.below(v.size()));
    std::vector<std::vector<std::string>> out(T); std::atomic<unsigned> ready{0}; std::atomic<int> thrown{0};
    std::vector<std::thread> th;
    for (unsigned t = 0; t < T; ++t) th.emplace_back([&, t] {
        ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield();
        try { for (auto i : plan[t]) out[t].push_back(v[i].run()); } catch (...) { thrown = 1; }
    });
    for (auto& t : th) t.join();
    CHECK(!thrown, "exception", "a call throws");
    if (first.empty()) for (auto& o : v) first.push_back(o.run());
    for (unsigned t = 0; t < T; ++t) for (std::size_t k = 0; k < plan[t].size(); ++k)
        CHECK(out[t][k] == first[plan[t][k]], "threads", v[plan[t][k]].what, " gives ", out[t][k].substr(0, 300), " beside other threads and not ", first[plan[t][k]].substr(0, 300));
    s.nontrivial();
}
Reg r_("threads " NAME, &prop);
#endif

}
