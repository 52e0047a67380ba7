// Bounded exhaustive exploration support shared by all harnesses.
// A harness enumerates cases in a fixed order (vk::cs); every case drives the
// real code and compares it with a reference.  Workers run disjoint shards.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vk {
struct Skip {}; // thrown by a case that does not apply

struct Ctx {
    int shard = 0, nshards = 1;
    bool thorough = false;
    std::string only, out;
    std::set<std::string> skip;
    char* cur = nullptr;
    uint64_t counter = 0, cases = 0, transitions = 0, skipped = 0;
    std::unordered_set<uint64_t> states;
    std::map<std::string, uint64_t> outcomes, failcount;
    std::vector<std::string> samples, bounds;
    std::ofstream fails;
    std::string id;
    bool case_failed = false;
};
inline Ctx& ctx() { static Ctx c; return c; }
inline bool thorough() { return ctx().thorough; }

inline std::string vf(const char* fmt, va_list ap)
{
    char buf[4096];
    vsnprintf(buf, sizeof buf, fmt, ap);
    return buf;
}
__attribute__((format(printf, 1, 2))) inline std::string f(const char* fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    auto s = vf(fmt, ap); va_end(ap);
    return s;
}
inline std::string esc(std::string s)
{
    for (auto& c : s) if (c == '\t' || c == '\n') c = ' ';
    return s;
}
inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 12) + (h >> 4);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 32;
    return h;
}
inline uint64_t hd(uint64_t h, double d)
{
    if (d == 0) d = 0;
    uint64_t u; std::memcpy(&u, &d, 8);
    return mix(h, u);
}
inline uint64_t hs(std::string const& s)
{
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return mix(h, s.size());
}
inline void state(uint64_t h) { ctx().states.insert(h); }
inline void state(std::string const& s) { state(hs(s)); }
inline void trans(uint64_t n = 1) { ctx().transitions += n; }
inline void outcome(std::string const& s) { ++ctx().outcomes[s]; }
inline void bound(std::string const& s) { if (ctx().shard == 0) ctx().bounds.push_back(s); }

// a violation; key names the kind of failure (call site / input class)
__attribute__((format(printf, 2, 3))) inline void fail(std::string const& key, const char* fmt, ...)
{
    auto& c = ctx();
    c.case_failed = true;
    if (++c.failcount[key] > 8) return;
    va_list ap; va_start(ap, fmt);
    auto s = vf(fmt, ap); va_end(ap);
    c.fails << esc(key) << '\t' << esc(c.id) << '\t' << esc(s) << std::endl;
}
#define VK_CHECK(cond, key, ...) do { vk::trans(); if (!(cond)) vk::fail(key, __VA_ARGS__); } while (0)

inline bool close(double a, double b, double rel, double abs = 0)
{
    if (std::isnan(a) || std::isnan(b)) return false;
    if (a == b) return true;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
#define VK_CLOSE(a, b, rel, abs_, key, ...) do { double vk_a = (a), vk_b = (b); vk::trans(); \
    if (!vk::close(vk_a, vk_b, rel, abs_)) vk::fail(key, "%s: got %.17g want %.17g (rel %g abs %g)", vk::f(__VA_ARGS__).c_str(), vk_a, vk_b, double(rel), double(abs_)); } while (0)

// one case: executed by exactly one shard
template <typename F> void cs(std::string const& id, F&& body)
{
    auto& c = ctx();
    auto n = c.counter++;
    if (!c.only.empty()) { if (id != c.only) return; }
    else if (static_cast<int>(mix(7, n) % c.nshards) != c.shard) return;
    if (!c.skip.empty() && c.skip.count(id)) return;
    c.id = id;
    c.case_failed = false;
    if (c.cur) { std::strncpy(c.cur, id.c_str(), 4095); }
    try { body(); ++c.cases; }
    catch (Skip const&) { ++c.skipped; return; }
    catch (std::exception const& e) { ++c.cases; fail("unexpected-exception", "%s", e.what()); }
    catch (...) { ++c.cases; fail("unexpected-exception", "unknown type"); }
    if (c.cur) c.cur[0] = 0;
    if (c.samples.size() < 3 || (c.samples.size() < 8 && (c.cases & (c.cases - 1)) == 0)) c.samples.push_back(id);
}

// does f throw?  (any exception)
template <typename F> bool throws(F&& fn)
{
    try { fn(); } catch (...) { return true; }
    return false;
}

// Stateless exploration of choices: body calls choose(n) any number of times;
// every choice vector is executed.  max_dev bounds the deviations from 0.
struct Chooser {
    std::vector<int> prefix, taken, arity;
    size_t pos = 0;
    int choose(int n)
    {
        int v = 0;
        if (pos < prefix.size()) {
            v = prefix[pos];
            if (v >= n) { fprintf(stderr, "replay divergence\n"); abort(); }
        }
        ++pos; taken.push_back(v); arity.push_back(n);
        return v;
    }
    std::string str() const
    {
        std::string s;
        for (auto v : taken) s += (s.empty() ? "" : ".") + std::to_string(v);
        return s;
    }
};
template <typename F> uint64_t explore(F&& body, int max_dev = 1000)
{
    // depth-first over all choice vectors with at most max_dev non-zero choices
    std::vector<std::vector<int>> stack { {} };
    uint64_t runs = 0;
    while (!stack.empty()) {
        auto p = stack.back(); stack.pop_back();
        Chooser ch; ch.prefix = p;
        body(ch);
        ++runs;
        int dev = 0;
        for (auto v : p) dev += v != 0;
        if (dev >= max_dev) continue;
        for (size_t i = ch.taken.size(); i-- > p.size();)
            for (int alt = ch.arity[i] - 1; alt >= 1; --alt) {
                std::vector<int> q(ch.taken.begin(), ch.taken.begin() + i);
                q.push_back(alt);
                stack.push_back(q);
            }
    }
    return runs;
}

// run fn in a child process: 0 = fine, >0 = exit code, <0 = -signal, -1000 = timeout
template <typename F> int guarded(F&& fn, unsigned seconds = 20)
{
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        alarm(seconds);
        int r = 1;
        try { r = fn(); } catch (...) { r = 77; }
        _exit(r);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? -1000 : -WTERMSIG(st);
    return WEXITSTATUS(st);
}
} // namespace vk

void vk_main(); // the harness

#ifndef VK_NO_MAIN
int main(int argc, char** argv)
{
    auto& c = vk::ctx();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return std::string(argv[++i]); };
        if (a == "--shard") c.shard = std::stoi(next());
        else if (a == "--nshards") c.nshards = std::stoi(next());
        else if (a == "--only") c.only = next();
        else if (a == "--skip") c.skip.insert(next());
        else if (a == "--out") c.out = next();
        else if (a == "--thorough") c.thorough = true;
    }
    if (c.out.empty()) c.out = "/tmp/vk_out";
    c.fails.open(c.out + ".fails");
    int fd = open((c.out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, 4096) == 0)
        c.cur = static_cast<char*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    vk_main();
    std::ofstream st(c.out + ".states", std::ios::binary);
    for (auto s : c.states) st.write(reinterpret_cast<char const*>(&s), 8);
    st.close();
    std::ofstream o(c.out + ".stats");
    o << "cases\t" << c.cases << "\nskipped\t" << c.skipped << "\ntransitions\t" << c.transitions
      << "\nenumerated\t" << c.counter << "\n";
    for (auto& x : c.outcomes) o << "outcome\t" << vk::esc(x.first) << "\t" << x.second << "\n";
    for (auto& x : c.failcount) o << "fail\t" << vk::esc(x.first) << "\t" << x.second << "\n";
    for (auto& x : c.samples) o << "sample\t" << vk::esc(x) << "\n";
    for (auto& x : c.bounds) o << "bound\t" << vk::esc(x) << "\n";
    o << "done\t1\n";
    o.close();
    fflush(nullptr);
    _exit(0); // skip static destructors: not part of any property
}
#endif
