// Recording element type and allocator (properties C18, C19): every construction, copy, assignment,
// destruction and read of an element and every block obtained or returned becomes a micro-event.
#pragma once
#include "common.hpp"

namespace H {
static VI g_mi;                       // micro-events of the current operation, groups of 7
static bool g_led = false;            // recording on?
struct Blk { long long id; size_t bytes; };
static std::map<char *, Blk> g_blk;   // blocks currently held
static long long g_serial = 0;
static std::map<const void *, long long> g_oth;
static char *g_slot[8]; static size_t g_slotsz = 0;
static char *g_base = nullptr;
static std::map<const char *, size_t> g_alive;   // only used to name an overlapped element

// what the operations of a container cost (C29): elements built or assigned, elements read by comparisons, blocks, bytes
static long long g_k[4], g_kend[4];
// .. and the most that any one elementary step of a bulk operation cost
static long long g_kx[4], g_kmark[4];
inline void step() { for (int i = 0; i < 4; i++) { long long d = g_k[i] - g_kmark[i]; if (d > g_kx[i]) g_kx[i] = d; g_kmark[i] = g_k[i]; } }

inline void loc(const void *p, size_t sz, VI &out) {
    char *a = (char *)p;
    auto it = g_blk.upper_bound(a);
    if (it != g_blk.begin()) { --it; if (a >= it->first && a + sz <= it->first + it->second.bytes) { out.push_back(1); out.push_back(it->second.id); out.push_back(a - it->first); return; } }
    for (int i = 0; i < 8; i++) if (g_slot[i] && a >= g_slot[i] && a + sz <= g_slot[i] + g_slotsz) { out.push_back(2); out.push_back(i); out.push_back(a - g_slot[i]); return; }
    char here; long long d = g_base - a;
    if (a <= g_base && a >= &here - 4096) { out.push_back(3); out.push_back(0); out.push_back(d); return; }
    auto f = g_oth.find(p); long long id; if (f == g_oth.end()) { id = (long long)g_oth.size() + 1; g_oth[p] = id; } else id = f->second;
    out.push_back(4); out.push_back(id); out.push_back(0);
}
struct Quiet { bool c; Quiet() : c(g_count) { g_count = false; } ~Quiet() { g_count = c; } };   // the recorder's own memory
inline void mi(int code, const void *a, size_t sa, const void *b = nullptr, size_t sb = 0) {
#ifdef MEMONLY
    return;
#endif
    if (!g_led) return;
    Quiet q;
    if (g_mi.size() > 7 * 400000) { g_log->done = 2; _exit(3); }
    g_mi.push_back(code); loc(a, sa, g_mi);
    if (b) loc(b, sb, g_mi); else { g_mi.push_back(0); g_mi.push_back(0); g_mi.push_back(0); }
}

struct Led {
    int v; unsigned char tag[4];
    // an element partly covering a live neighbour is reported as built on top of that neighbour
    void born(const Led *from) {
        ++g_k[0];
        Quiet q; const char *me = (const char *)this; const void *at = this;
        if (g_led) {
            auto it = g_alive.lower_bound(me - (long)sizeof(Led) + 1);
            if (it != g_alive.end() && it->first < me + (long)sizeof(Led) && it->first != me) at = it->first;
        }
        if (from) mi(1, at, sizeof(Led), from, sizeof(Led)); else mi(0, at, sizeof(Led));
        if (g_led) g_alive[me] = 1;
    }
    Led() : v(0) { born(nullptr); }
    Led(int x) : v(x) { born(nullptr); }
    Led(const Led &o) : v(o.v) { born(&o); }
    Led &operator=(const Led &o) { ++g_k[0]; mi(2, this, sizeof(Led), &o, sizeof(Led)); v = o.v; return *this; }
    ~Led() { mi(3, this, sizeof(Led)); Quiet q; if (g_led) g_alive.erase((const char *)this); }
    int get() const { ++g_k[1]; mi(6, this, sizeof(Led)); return v; }
    bool operator==(const Led &o) const { return get() == o.get(); }
    bool operator!=(const Led &o) const { return get() != o.get(); }
    bool operator<(const Led &o) const { return get() < o.get(); }
    bool operator>(const Led &o) const { return get() > o.get(); }
};
inline long long val(const Led &t) { return t.get(); }

struct RecAlloc {
    static void *allocate(int bytes) {
        Quiet q; ++g_k[2]; g_k[3] += bytes;
        if (bytes <= 0) { g_mi.push_back(4); g_mi.push_back(1); g_mi.push_back(0); g_mi.push_back(bytes); g_mi.push_back(0); g_mi.push_back(0); g_mi.push_back(0); return nullptr; }
        char *p = (char *)malloc(bytes); memset(p, 0xA5, bytes);
        long long id = ++g_serial; g_blk[p] = Blk{id, (size_t)bytes};
        g_mi.push_back(4); g_mi.push_back(1); g_mi.push_back(id); g_mi.push_back(bytes); g_mi.push_back(0); g_mi.push_back(0); g_mi.push_back(0);
        return p;
    }
    static void deallocate(void *p, int bytes) {
        Quiet q;
        auto it = g_blk.find((char *)p); long long id = 0;
        if (it != g_blk.end()) id = it->second.id;
        g_mi.push_back(5); g_mi.push_back(1); g_mi.push_back(id); g_mi.push_back(bytes); g_mi.push_back(0); g_mi.push_back(0); g_mi.push_back(0);
        if (it != g_blk.end()) { g_blk.erase(it); free(p); }
    }
};
} // namespace H
