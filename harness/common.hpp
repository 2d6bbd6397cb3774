// Shared machinery of the conformance drivers: shared-memory event log, one forked child per
// trace, element types, recording allocators.  Only public DStruct API is used by the drivers.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <new>
#include <fstream>
#include <sstream>
#include <iostream>
#include <type_traits>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <signal.h>
#include <pthread.h>

namespace H {

// ---------------------------------------------------------------- event log
struct Shared { volatile size_t len; volatile size_t nev; volatile int done; char data[1]; };
static Shared *g_log = nullptr;
static const size_t LOGMAX = size_t(48) << 20;

inline void put(const char *s, size_t n) {
    if (g_log->len + n + 16 >= LOGMAX) { g_log->done = 2; _exit(3); }
    memcpy(g_log->data + g_log->len, s, n); g_log->len = g_log->len + n;
}
inline void put(const char *s) { put(s, strlen(s)); }
inline void put(const std::string &s) { put(s.data(), s.size()); }

using VI = std::vector<long long>;
static inline long long wrap(long long x, long long m) { return (x % m + m) % m; }

// one event under construction
struct Ev {
    std::string s; bool firstField = true;
    Ev(const char *op) { s = "{\"op\":\""; s += op; s += "\""; }
    Ev &f(const char *k, long long v) { s += ",\""; s += k; s += "\":"; s += std::to_string(v); return *this; }
    Ev &f(const char *k, const char *v) { s += ",\""; s += k; s += "\":\""; s += v; s += "\""; return *this; }
    static void arr(std::string &s, const VI &v) {
        s += '['; bool c = false; for (auto x : v) { if (c) s += ','; c = true; s += std::to_string(x); } s += ']';
    }
    Ev &f(const char *k, const VI &v) { s += ",\""; s += k; s += "\":"; arr(s, v); return *this; }
    void end() {
        s += "}";
        std::string t = g_log->nev ? "," : ""; t += s; put(t);
        g_log->nev = g_log->nev + 1;
    }
};

// ---------------------------------------------------------------- traces
struct Line { std::string op; VI a; };
struct Trace { long long tid; std::string var, kind; long long m; std::vector<Line> ops; };

inline std::vector<Trace> read_scripts(const char *path) {
    std::vector<Trace> ts; std::ifstream in(path); std::string l;
    while (std::getline(in, l)) {
        if (l.empty()) continue;
        std::istringstream is(l); std::string w; is >> w;
        if (w == "T") { Trace t; t.m = 0; is >> t.tid >> t.var >> t.kind >> t.m; ts.push_back(t); continue; }
        Line x; x.op = w; long long v; while (is >> v) x.a.push_back(v);
        ts.back().ops.push_back(x);
    }
    return ts;
}

typedef void (*RunFn)(const Trace &);
void child_start(const Trace &);

// run every trace in its own process; a crash, sanitizer fault, failed assertion or hang becomes
// an event ("fault") that no specification action accepts.
inline int run_all(const char *script, const char *out, RunFn fn) {
    g_log = (Shared *)mmap(nullptr, sizeof(Shared) + LOGMAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto ts = read_scripts(script);
    FILE *fo = fopen(out, "w"); if (!fo) return 2;
    int nul = -1;
    std::string errf = std::string(out) + ".err";
    bool hung = false;
    for (auto &t : ts) {
        g_log->len = 0; g_log->nev = 0; g_log->done = 0;
        // one hang is enough to reject this run; do not spend the time limit on every other trace
        if (hung) { fprintf(fo, "{\"t\":%lld,\"c\":\"%s\",\"k\":\"%s\",\"m\":%lld,\"e\":[]}\n", t.tid, t.var.c_str(), t.kind.c_str(), t.m); continue; }
        pid_t p = fork();
        if (p == 0) {
            freopen(errf.c_str(), "w", stderr); freopen("/dev/null", "w", stdout);
            struct rlimit rc = {20, 20}; setrlimit(RLIMIT_CPU, &rc);
            struct rlimit rk = {0, 0}; setrlimit(RLIMIT_CORE, &rk);
            child_start(t); fn(t);
            g_log->done = 1; _exit(0);
        }
        int st = 0; while (waitpid(p, &st, 0) < 0) { }
        const char *why = nullptr; int code = 0;
        if (g_log->done == 2) { why = "runaway"; }
        else if (WIFSIGNALED(st)) { why = WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? "hang" : "signal"; code = WTERMSIG(st); }
        else if (g_log->done != 1) { why = "exit"; code = WEXITSTATUS(st); }
        if (why && !strcmp(why, "hang")) hung = true;
        if (why) { Ev e("fault"); e.f("why", why).f("code", code).f("o", 1).f("a", VI{}).f("r", VI{}); e.end(); }
        fprintf(fo, "{\"t\":%lld,\"c\":\"%s\",\"k\":\"%s\",\"m\":%lld,\"e\":[", t.tid, t.var.c_str(), t.kind.c_str(), t.m);
        fwrite(g_log->data, 1, g_log->len, fo);
        fprintf(fo, "]}\n");
        if (why) {
            std::ifstream ef(errf); std::string l; int n = 0;
            while (n < 12 && std::getline(ef, l)) if (!l.empty()) { fprintf(stderr, "[trace %lld] %s\n", t.tid, l.c_str()); n++; }
        }
    }
    (void)nul;
    fclose(fo); unlink(errf.c_str());
    return 0;
}

// ---------------------------------------------------------------- element types
// Tok: a class type owning heap memory; copies are deep, use after destruction or of raw memory is
// caught (by the sanitizer through the owned block, and by the magic word otherwise).
struct Tok {
    int *p; unsigned magic;
    static const unsigned LIVE = 0x70617469u, DEAD = 0xdeadbeefu;
    Tok() : p(new int(0)), magic(LIVE) {}
    Tok(int v) : p(new int(v)), magic(LIVE) {}
    Tok(const Tok &o) : p(new int(o.get())), magic(LIVE) {}
    Tok &operator=(const Tok &o) { chk(); int v = o.get(); *p = v; return *this; }
    ~Tok() { chk(); magic = DEAD; delete p; p = nullptr; }
    void chk() const { if (magic != LIVE) abort(); }
    int get() const { chk(); return *p; }
    bool operator==(const Tok &o) const { return get() == o.get(); }
    bool operator!=(const Tok &o) const { return get() != o.get(); }
    bool operator<(const Tok &o) const { return get() < o.get(); }
    bool operator>(const Tok &o) const { return get() > o.get(); }
};
// Big: a trivially copyable element of odd size (layout / stride errors)
struct Big {
    int v; char pad[9];
    Big(int x = 0) : v(x) { memset(pad, x & 0x7f, sizeof pad); }
    int get() const { for (char c : pad) if (c != (char)(v & 0x7f)) return -777777; return v; }
    bool operator==(const Big &o) const { return get() == o.get(); }
    bool operator<(const Big &o) const { return get() < o.get(); }
    bool operator>(const Big &o) const { return get() > o.get(); }
};
// Key2: ordering and equality see only v/10 (equal-ranking but distinguishable elements)
struct Key2 {
    int v; Key2(int x = 0) : v(x) {}
    bool operator==(const Key2 &o) const { return v / 10 == o.v / 10; }
    bool operator<(const Key2 &o) const { return v / 10 < o.v / 10; }
    bool operator>(const Key2 &o) const { return v / 10 > o.v / 10; }
};

inline long long val(int x) { return x; }
inline long long val(char x) { return (unsigned char)x; }
inline long long val(long long x) { return x; }
inline long long val(unsigned char c) { return c; }
inline long long val(short c) { return c; }
static int g_cells[5000];
typedef int *Ptr;
inline long long val(const Ptr &p) { return p ? p - g_cells : 0; }
inline long long val(double d) { long long x = (long long)(d < 0 ? d - 0.5 : d); return d == (double)x + 0.25 ? x : d == 0 ? 0 : -777771; }
inline long long val(const Tok &t) { return t.get(); }
inline long long val(const Big &t) { return t.get(); }
inline long long val(const Key2 &t) { return t.v; }
template <class T> struct Mk { static T f(long long x) { return T((int)x); } };
template <class T> inline T mkv(long long x) { return Mk<T>::f(x); }

// ---------------------------------------------------------------- comparators
struct ByUnits { template <class T> bool operator()(const T &a, const T &b) const { return val(a) % 10 < val(b) % 10; } };
// Dyn: a comparator with state; one that was never told its order sorts in no useful way
struct Dyn {
    int k;
    Dyn(int kk = 0) : k(kk) {}
    template <class T> bool operator()(const T &a, const T &b) const {
        long long x = val(a), y = val(b);
        return k == 1 ? x < y : k == 2 ? x > y : k == 3 ? x % 10 < y % 10 : (x * 7919 % 101) < (y * 7919 % 101);
    }
};
static int g_kind = 1;          // order of the current trace: 1 lt, 2 gt, 3 un
inline int kind_no(const std::string &k) { return k == "gt" ? 2 : k == "un" ? 3 : 1; }

// ---------------------------------------------------------------- libc allocations inside an operation
static volatile long g_libc = 0; static volatile bool g_count = false;
#if defined(__SANITIZE_ADDRESS__) && defined(COUNT_LIBC)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));
static void hook_m(const volatile void *, size_t) { if (g_count) g_libc = g_libc + 1; }
static void hook_f(const volatile void *) { if (g_count) g_libc = g_libc + 1; }
inline void count_libc() { __sanitizer_install_malloc_and_free_hooks(hook_m, hook_f); }
#else
inline void count_libc() {}
#endif

} // namespace H
