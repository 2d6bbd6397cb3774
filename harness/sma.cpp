// Conformance driver for the static allocator and the static port (PoolADT.tla).  Trial allocations and
// trial merges run in forked copies of the process, so observing never changes the allocator under test.
#include <dstruct.hpp>
#include "common.hpp"
#include <algorithm>
using namespace H;
static const int MODE = getenv("MODE") ? atoi(getenv("MODE")) : 1;
void H::child_start(const H::Trace &) {}

static const size_t SHN = 1 << 16;
static volatile long long *g_sh = nullptr;      // results of a forked trial
template <class F> static bool trial(F f) {
    g_sh[0] = -1;
    pid_t p = fork();
    if (p == 0) { struct rlimit r = {6, 6}; setrlimit(RLIMIT_CPU, &r); f(); _exit(0); }
    int st = 0; while (waitpid(p, &st, 0) < 0) { }
    return WIFEXITED(st) && WEXITSTATUS(st) == 0 && g_sh[0] >= 0;
}
static bool g_lost = false;                     // a trial crashed or hung
static VI got(bool ok) { VI v; if (!ok) { g_lost = true; v.push_back(-9); return v; } for (long long i = 0; i < g_sh[0]; i++) v.push_back((long long)g_sh[1 + i]); return v; }
static void res(const VI &v) { size_t n = v.size() < SHN - 2 ? v.size() : SHN - 2; for (size_t i = 0; i < n; i++) g_sh[1 + i] = v[i]; g_sh[0] = (long long)n; }

template <class A> struct Run {
    struct B { char *p; int bytes; unsigned seed; };
    std::map<int, B> held; char *base; int P; int AL = 8; unsigned tick = 0; bool port;
    static int up(int b) { return (b + 7) / 8 * 8; }
    static unsigned char pat(unsigned s, int i) { return (unsigned char)((s * 2654435761u + (unsigned)i * 40503u) >> 11); }
    long long off(void *p) { return p ? (long long)((char *)p - base) : -1; }
    // free bytes served one unit at a time, as maximal runs
    VI runs() {
        std::vector<long long> o; int lim = P / AL + 4;
        for (int i = 0; i < lim; i++) { void *p = A::allocate(AL); if (!p) break; o.push_back(off(p)); }
        std::sort(o.begin(), o.end()); VI r;
        for (size_t i = 0; i < o.size(); i++) {
            if (o[i] < 0 || o[i] + AL > P || (i && o[i] < o[i - 1] + AL)) { r.push_back(-5); r.push_back(o[i]); return r; }
            if (i && o[i] == o[i - 1] + AL) r.back() += AL; else { r.push_back(o[i]); r.push_back(AL); }
        }
        return r;
    }
    VI drain() { return got(trial([&] { res(runs()); })); }
    long long longest() {
        std::vector<std::pair<long long, long long>> v; for (auto &h : held) v.push_back({off(h.second.p), up(h.second.bytes)});
        std::sort(v.begin(), v.end()); long long e = 0, m = 0;
        for (auto &x : v) { m = std::max(m, x.first - e); e = std::max(e, x.first + x.second); }
        return std::max(m, (long long)P - e);
    }
    void status(int after) {
        if (MODE == 2) A::dump();          // checks its own books
        VI bad; for (auto &h : held) for (int i = 0; i < h.second.bytes; i++) if ((unsigned char)h.second.p[i] != pat(h.second.seed, i)) { bad.push_back(h.first); break; }
        Ev e("st"); e.f("o", 0LL).f("a", VI{}).f("free", (long long)A::free_mem_size()).f("max", (long long)A::max_free_mblock_size()).f("bad", bad).f("after", (long long)after); e.end();
    }
    void fill(B &b) { b.seed = ++tick; for (int i = 0; i < b.bytes; i++) b.p[i] = (char)pat(b.seed, i); }
    void free1(int h, void (*rel)(void *, int, VI &)) {
        B b = held[h]; held.erase(h); VI r; rel(b.p, b.bytes, r);
        Ev e("free"); e.f("o", (long long)h).f("a", VI{b.bytes}).f("r", r); e.end(); status(0);
    }
    void merge() {
        VI d0, d1; if (MODE == 3) d0 = drain();
        A::memory_merge();
        if (MODE == 3) {
            d1 = drain();
            VI ma{(long long)A::free_mem_size(), (long long)A::max_free_mblock_size()};
            VI x = got(trial([&] { A::memory_merge(); VI mb{(long long)A::free_mem_size(), (long long)A::max_free_mblock_size()}; VI d = runs(); mb.insert(mb.end(), d.begin(), d.end()); res(mb); }));
            VI mb(x.begin(), x.begin() + std::min<size_t>(2, x.size())), da(x.begin() + mb.size(), x.end());
            Ev e("merge"); e.f("o", 0LL).f("a", VI{}).f("d0", d0).f("d1", d1).f("da", da).f("ma", ma).f("mb", mb); e.end();
        } else { Ev e("merge"); e.f("o", 0LL).f("a", VI{}); e.end(); }
        status(1);
    }
    void go(const Trace &t, int pool, bool isPort) {
        P = pool; port = isPort;
        VI r = got(trial([&] { char *p = (char *)A::allocate(P); res(VI{(long long)(intptr_t)p}); }));
        base = (char *)(intptr_t)r[0];
        { Ev e("cfg"); e.f("o", 0LL).f("a", VI{}).f("p", (long long)P).f("r", VI{r.size() == 1 && base ? (long long)((uintptr_t)base % 8) : -1LL}); e.end(); }
        auto rel = port ? +[](void *p, int b, VI &r) { dstruct::Alloc::deallocate(p, b); r.push_back(1); }
                        : +[](void *p, int b, VI &r) { r.push_back(A::deallocate(p, b) ? 1 : 0); };
        for (auto &l : t.ops) {
            const std::string &op = l.op; const VI &a = l.a;
            if (g_lost) _exit(5);
            if (op == "alloc") {
                int h = (int)a[0], b = (int)a[1]; if (held.count(h)) continue;
                if (port && (b <= 0 || up(b) > longest())) continue;
                bool no = b <= 0 || b > P || up(b) > A::max_free_mblock_size(); VI d0;
                if (no && MODE == 1) d0 = drain();
                char *p = (char *)(port ? dstruct::Alloc::allocate(b) : A::allocate(b));
                Ev e("alloc"); e.f("o", (long long)h).f("a", VI{b}).f("r", VI{off(p), p ? (long long)((uintptr_t)p % 8) : 0});
                if (!p && no && MODE == 1) e.f("d0", d0).f("d1", drain());
                e.end();
                if (p) {
                    if (off(p) < 0 || off(p) + b > P) _exit(4);       // already rejected by the specification
                    B x{p, b, 0}; fill(x); held[h] = x;
                }
                status(0);
            } else if (op == "free") { int h = (int)a[0]; if (held.count(h)) free1(h, rel); }
            else if (op == "freenth") { if (held.empty()) continue; auto it = held.begin(); std::advance(it, a[0] % held.size()); free1(it->first, rel); }
            else if (op == "merge") merge();
            else if (op == "badnull" || op == "badsz") {
                if (port) continue;
                void *p = nullptr; int b;
                if (op == "badnull") b = (int)a[0]; else { if (held.empty()) continue; auto it = held.begin(); std::advance(it, a[0] % held.size()); p = it->second.p; b = (int)a[1]; }
                VI d0, d1; if (MODE == 2) d0 = drain();
                bool ok = A::deallocate(p, b);
                if (MODE == 2) d1 = drain();
                Ev e("bad"); e.f("o", 0LL).f("a", VI{b}).f("r", VI{ok ? 1 : 0}); if (MODE == 2) e.f("d0", d0).f("d1", d1); e.end(); status(0);
            } else if (op == "drain") { if (MODE != 2) continue; VI d = drain(); Ev e("drain"); e.f("o", 0LL).f("a", VI{}).f("d", d); e.end(); }
            else if (op == "probe") {
                if (MODE != 2) continue; int m = A::max_free_mblock_size();
                VI r = got(trial([&] { VI v; v.push_back(-1);
                    void *y = A::allocate(m + AL);
                    if (!y && m > 0) v[0] = off(A::allocate(m)); v.push_back(off(y)); res(v); }));
                Ev e("probe"); e.f("o", 0LL).f("a", VI{}).f("m", (long long)m).f("r", r); e.end();
            } else if (op == "fit") {
                if (MODE != 3) continue; long long L = longest(); if (L <= 0) continue;
                int b = (int)std::max(1LL, L * a[0] / 16 - (a.size() > 1 ? a[1] : 0));
                VI r = got(trial([&] { res(VI{off(A::allocate(b))}); }));
                Ev e("fit"); e.f("o", 0LL).f("a", VI{b}).f("r", r); e.end();
            } else { Ev e("unsupported"); e.f("o", 0LL).f("a", VI{}); e.end(); return; }
        }
        while (!held.empty()) free1(held.begin()->first, rel);
        auto probes = [&] {
            if (MODE == 2) { VI d = drain(); Ev e("drain"); e.f("o", 0LL).f("a", VI{}).f("d", d); e.end(); }
        };
        probes(); merge(); probes();
        if (MODE == 3) { VI r = got(trial([&] { res(VI{off(A::allocate(P))}); })); Ev e("fit"); e.f("o", 0LL).f("a", VI{P}).f("r", r); e.end(); }
    }
};
template <int P, int Q> static void pool(const Trace &t) { Run<dstruct::StaticMemAllocator<P, Q>> r; r.go(t, P, false); }
static void run(const Trace &t) {
    const std::string &v = t.var;
    if (v == "48q8") pool<48, 8>(t);
    else if (v == "64q16") pool<64, 16>(t);
    else if (v == "64q24") pool<64, 24>(t);
    else if (v == "80q20") pool<80, 20>(t);
    else if (v == "96q12") pool<96, 12>(t);
    else if (v == "128q32") pool<128, 32>(t);
    else if (v == "256q128") pool<256, 128>(t);
    else if (v == "512q64") pool<512, 64>(t);
    else if (v == "1024q8") pool<1024, 8>(t);
    else if (v == "2048q512") pool<2048, 512>(t);
    else if (v == "4096q128") pool<4096, 128>(t);
    else if (v == "10240") { Run<dstruct::smemory::SMA> r; r.go(t, 10240, false); }
#ifdef ENABLE_SMA
    else if (v == "port") { Run<dstruct::port::DefaultSMA> r; r.go(t, 1024 * 1024, true); }
#endif
    else { Ev e("unsupported"); e.f("o", 0LL).f("a", VI{}); e.end(); }
}
int main(int argc, char **argv) {
    g_sh = (volatile long long *)mmap(nullptr, SHN * sizeof(long long), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return run_all(argv[1], argv[2], run);
}
