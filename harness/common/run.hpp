// Runner: deterministic cases per seed and shard, crash and hang detection, shrinking, evidence.
#pragma once
#include "src.hpp"
#include <cstdlib>
#include <csignal>
#include <ctime>
#include <algorithm>
#include <map>
#include <unordered_set>
#include <fstream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

#if defined(__SANITIZE_ADDRESS__)
#   define PBT_ASAN 1
#elif defined(__has_feature)
#   if __has_feature(address_sanitizer)
#       define PBT_ASAN 1
#   endif
#endif
#ifdef PBT_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, std::size_t), void (*)(const volatile void*));
// intercept_strlen: libstdc++'s from_chars(long double) calls strlen on its input when it starts with n or i
extern "C" const char* __asan_default_options() {
    return "intercept_strlen=0:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:exitcode=99:handle_abort=1:print_scariness=0:symbolize=0:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=2:allow_user_segv_handler=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:symbolize=0"; }
#endif

namespace pbt {

Shm* shm = nullptr;

struct Mem { long live = 0; u64 total = 0; u64 peak = 0, cur = 0; };
static Mem mem;
#ifdef PBT_ASAN
static void on_malloc(const volatile void*, std::size_t n) { ++mem.live; mem.total += n; }
static void on_free(const volatile void* p) { if (p) --mem.live; }
#endif
u64 allocated_total() { return mem.total; }

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }

static void on_prof(int) { shm->status = 98; _exit(98); }
static void arm(int s) { itimerval t{}; t.it_value.tv_sec = s; setitimer(ITIMER_PROF, &t, nullptr); }

// one evaluation; throws Fail
inline void body(const Test& t, Src& s) {
    try { t.fn(s); }
    catch (const Fail&) { throw; }
    catch (const std::exception& e) { throw Fail{"exception", std::string("unexpected exception: ") + e.what()}; }
    catch (...) { throw Fail{"exception", "unexpected exception"}; }
}
inline void evaluate(const Test& t, Src& s, const std::vector<u64>* rec, u64 seed) {
    auto const once = [&] { long const l = mem.live; rec ? s.begin(*rec) : s.begin(seed); body(t, s); return mem.live - l; };
    long d = once();
#ifdef PBT_ASAN
    if (d > 0 && !s.noleak) { // lazily initialized statics are allowed once
        long const d2 = once(), d3 = once();
        if (d2 > 0 && d3 > 0) throw Fail{"leak", cat("memory leak: ", d3, " block(s) per evaluation")};
    }
#endif
    (void)d;
}

struct Outcome { bool failed = false; std::string label, msg; };

inline std::string slurp(int fd) {
    std::string s; char b[4096]; lseek(fd, 0, SEEK_SET);
    for (ssize_t n; (n = read(fd, b, sizeof b)) > 0 && s.size() < 200000; ) s.append(b, std::size_t(n));
    return s;
}
inline std::string crash_summary(const std::string& err) {
    std::string r; std::istringstream in(err); std::string l; int n = 0;
    while (std::getline(in, l) && n < 6)
        if (l.find("ERROR: ") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("Assertion") != std::string::npos ||
            l.find("terminate called") != std::string::npos || l.find("what():") != std::string::npos || l.find("    #0 ") == 0 || l.find("SUMMARY") == 0 || l.find("assert") != std::string::npos)
                r += l + " | ", ++n;
    return r.empty() ? err.substr(0, 500) : r;
}

inline void setup_child(int errfd) {
    dup2(errfd, 2);
    struct sigaction sa{}; sa.sa_handler = on_prof; sigaction(SIGPROF, &sa, nullptr);
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
}

inline Outcome classify(int st, int errfd) {
    Outcome o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    o.failed = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { o.label = shm->label; o.msg = shm->msg; return o; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 98) { o.label = "hang"; o.msg = "no result within the CPU time limit"; return o; }
    o.label = "crash";
    o.msg = (WIFSIGNALED(st) ? cat("signal ", WTERMSIG(st)) : cat("exit ", WEXITSTATUS(st))) + ": " + crash_summary(slurp(errfd));
    return o;
}

inline void report_fail(const Fail& f) {
    std::snprintf(shm->label, sizeof shm->label, "%s", f.label.c_str());
    std::snprintf(shm->msg, sizeof shm->msg, "%s", f.msg.c_str());
}

inline int errfile() { int fd = memfd_create("err", 0); return fd; }

static int case_cpu_limit = 20;
inline Outcome attempt(const Test& t, const std::vector<u64>& ch) { // forked
    int fd = errfile();
    pid_t p = fork();
    if (p == 0) {
        setup_child(fd); arm(case_cpu_limit);
        Src s; s.sample.reserve(1024);
        try { evaluate(t, s, &ch, 0); } catch (const Fail& f) { report_fail(f); _exit(3); }
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    Outcome o = classify(st, fd); close(fd);
    return o;
}

inline std::vector<u64> shrink(const Test& t, std::vector<u64> ch, Outcome& out, double seconds) {
    double const until = now() + seconds; int tries = 0;
    auto bad = [&](const std::vector<u64>& c) {
        if (now() > until || tries > 4000) return false;
        ++tries;
        Outcome o = attempt(t, c);
        if (o.failed && o.label == out.label) { out = o; return true; }
        return false;
    };
    while (!ch.empty() && ch.back() == 0) ch.pop_back();
    for (bool progress = true; progress && now() < until; ) {
        progress = false;
        // delete blocks
        for (std::size_t w = ch.size() / 2; w >= 1; w /= 2) {
            for (std::size_t i = 0; i + w <= ch.size(); ) {
                std::vector<u64> c(ch.begin(), ch.begin() + long(i)); c.insert(c.end(), ch.begin() + long(i + w), ch.end());
                if (bad(c)) ch = c, progress = true; else i += w;
            }
            if (now() > until) break;
        }
        // zero blocks
        for (std::size_t w = std::min<std::size_t>(ch.size(), 8); w >= 1; w /= 2)
            for (std::size_t i = 0; i + w <= ch.size(); i += w) {
                std::vector<u64> c = ch; bool z = true;
                for (std::size_t j = i; j < i + w; ++j) z = z && c[j] == 0, c[j] = 0;
                if (!z && bad(c)) ch = c, progress = true;
            }
        // lower values
        for (std::size_t i = 0; i < ch.size(); ++i) {
            if (ch[i] == 0) continue;
            u64 lo = 0, hi = ch[i];
            while (lo < hi && now() < until) {
                u64 m = lo + (hi - lo) / 2; std::vector<u64> c = ch; c[i] = m;
                if (bad(c)) hi = m, ch = c, progress = true; else lo = m + 1;
                if (hi - lo > 1 && lo > (hi - lo) * 64) break;
            }
        }
        while (!ch.empty() && ch.back() == 0) ch.pop_back();
    }
    return ch;
}

inline std::string jstr(const std::string& s) {
    std::string r = "\""; char t[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') r += '\\', r += char(c);
        else if (c < 0x20 || c > 0x7e) std::snprintf(t, 8, "\\u%04x", c), r += t;
        else r += char(c);
    }
    return r + "\"";
}

inline int usage() { std::fprintf(stderr, "usage: --list | --run --seed S --shard I --shards N --cases C --time T --out F --replays DIR | --replay FILE\n"); return 2; }

inline int main_(int argc, char** argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i < argc; ++i) {
        std::string k = argv[i];
        if (k == "--list" || k == "--run") a[k] = "1"; else if (i + 1 < argc) a[k] = argv[++i]; else return usage();
    }
    shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::stable_sort(tests().begin(), tests().end(), [](const Test& x, const Test& y) { return x.name < y.name; });
#ifdef PBT_ASAN
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
    if (a.count("--cpu")) case_cpu_limit = std::atoi(a["--cpu"].c_str());
    if (a.count("--list")) { for (auto& t : tests()) std::printf("%s %d\n", t.name.c_str(), t.weight); return 0; }
    if (a.count("--replay")) { // line 1: test, line 2: choices
        std::ifstream in(a["--replay"]); std::string name, l; std::vector<u64> ch;
        while (std::getline(in, l)) {
            if (l.rfind("test: ", 0) == 0) name = l.substr(6);
            else if (l.rfind("choices:", 0) == 0) { std::istringstream is(l.substr(8)); for (u64 v; is >> v; ) ch.push_back(v); }
        }
        for (auto& t : tests()) if (t.name == name) {
            Outcome o = attempt(t, ch);
            std::printf("%s %s\n%s\n", o.failed ? "FAIL" : "OK", o.label.c_str(), o.msg.c_str());
            return o.failed ? 1 : 0;
        }
        std::printf("NOTEST %s\n", name.c_str());
        return 2;
    }
    if (!a.count("--run")) return usage();
    u64 const seed = std::strtoull(a["--seed"].c_str(), nullptr, 10);
    u64 const N = std::strtoull(a["--cases"].c_str(), nullptr, 10), S = std::max<u64>(1, std::strtoull(a["--shards"].c_str(), nullptr, 10)), I = std::strtoull(a["--shard"].c_str(), nullptr, 10);
    double const T = a.count("--time") ? std::atof(a["--time"].c_str()) : 1e9, start = now();
    std::string const out = a["--out"], only = a.count("--only") ? a["--only"] : "";
    std::vector<int> table;
    for (std::size_t i = 0; i < tests().size(); ++i)
        if (only.empty() || tests()[i].name.find(only) != std::string::npos)
            for (int w = 0; w < tests()[i].weight; ++w) table.push_back(int(i));
    if (table.empty()) return std::fprintf(stderr, "no tests\n"), 2;
    { u64 r = mix(seed ^ 0x5eed); for (std::size_t i = table.size(); i > 1; --i) r = mix(r), std::swap(table[i - 1], table[r % i]); }
    u64 const kb = N * I / S, ke = N * (I + 1) / S;
    int fd = errfile();
    pid_t p = fork();
    if (p == 0) {
        setup_child(fd);
        static Src s; s.sample.reserve(1024);
        std::unordered_set<u64> seen; std::map<std::string, u64> labels, per; std::vector<std::string> samples; std::map<int, int> ns;
        u64 evals = 0, nt = 0;
        for (u64 k = kb; k < ke; ++k) {
            int const ti = table[k % table.size()];
            shm->k = k; shm->test = ti;
            arm(case_cpu_limit);
            try { evaluate(tests()[std::size_t(ti)], s, nullptr, mix(mix(seed) + k * 0x9E3779B97F4A7C15ull)); }
            catch (const Fail& f) { report_fail(f); _exit(3); }
            ++evals; ++per[tests()[std::size_t(ti)].name];
            for (int i = 0; i < s.nlabels; ++i) ++labels[s.labels[i]];
            if (s.nontriv) {
                ++nt; seen.insert(s.hash ^ mix(u64(ti)));
                if (ns[ti] < 1 && samples.size() < 40 && !s.sample.empty()) ++ns[ti], samples.push_back(tests()[std::size_t(ti)].name + ": " + s.sample);
            }
            if ((k & 63) == 0 && now() - start > T) break;
        }
        arm(0);
        std::ofstream o(out);
        o << "{\"evaluations\":" << evals << ",\"nontrivial\":" << nt << ",\"distinct\":" << seen.size() << ",\"labels\":{";
        bool c = false; for (auto& l : labels) o << (c ? "," : "") << jstr(l.first) << ":" << l.second, c = true;
        o << "},\"tests\":{"; c = false; for (auto& l : per) o << (c ? "," : "") << jstr(l.first) << ":" << l.second, c = true;
        o << "},\"samples\":["; c = false; for (auto& l : samples) o << (c ? "," : "") << jstr(l), c = true;
        o << "]}"; o.close();
        std::ofstream h(out + ".hashes", std::ios::binary);
        for (u64 v : seen) h.write((const char*)&v, 8);
        h.close();
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    Outcome o = classify(st, fd);
    if (!o.failed) return 0;
    std::vector<u64> ch(shm->ch, shm->ch + shm->n);
    Test const& t = tests()[std::size_t(shm->test)]; u64 const k = shm->k;
    std::string const first = o.msg; std::string const flabel = o.label;
    // replayable?
    Outcome r = attempt(t, ch);
    bool const stable = r.failed;
    if (stable) { o = r; ch = shrink(t, ch, o, a.count("--shrink") ? std::atof(a["--shrink"].c_str()) : 20); }
    std::string const rp = out + ".replay";
    std::ofstream f(rp);
    f << "test: " << t.name << "\nlabel: " << o.label << "\nchoices:"; for (u64 v : ch) f << ' ' << v;
    f << "\ncase: seed " << seed << " k " << k << "\nmessage: " << jstr(o.msg) << "\n";
    f.close();
    std::ofstream oj(out);
    oj << "{\"failure\":{\"test\":" << jstr(t.name) << ",\"label\":" << jstr(o.label) << ",\"msg\":" << jstr(o.msg) << ",\"first\":" << jstr(flabel + ": " + first)
       << ",\"stable\":" << (stable ? "true" : "false") << ",\"k\":" << k << ",\"replay\":" << jstr(rp) << "},\"evaluations\":" << (k - kb + 1) << "}";
    return 1;
}

} // pbt
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
