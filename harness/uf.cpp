// Conformance driver for DisjointSet (UFADT.tla).
#include <dstruct.hpp>
#include "config.hpp"
using namespace H;
typedef D::UFSet C;
static const int NS = 3;
static bool g_views = true;
template <> struct Fresh<C> { static C *at(void *p) { return new (p) C(1); } };

static Slots<C> *S;
static void view(int o) {
    Slots<C> &s = *S; if (!s[o]) return; C &c = *s[o]; g_mi.clear();
    long long n = (long long)c.size();
    VI cnt{(long long)c.count()};       // before any find compresses a path
    VI reps, con; if (n <= 5000) for (int i = 0; i < n; i++) reps.push_back(c.find(i));
    Ev e("v"); e.f("o", o);
    std::string v = "{\"n\":[" + std::to_string(n) + "],\"e\":[" + (c.empty() ? "1" : "0") + "],\"cap\":[" + std::to_string((long long)c.capacity()) + "],\"cnt\":"; Ev::arr(v, cnt); if (n <= 5000) { v += ",\"reps\":"; Ev::arr(v, reps); }
    if (n <= 9) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) con.push_back(c.connected(i, j)); v += ",\"con\":"; Ev::arr(v, con); }
    v += "}"; e.s += ",\"v\":" + v; op_emit(e);
}
static void views() { for (int o = 1; o <= NS; o++) view(o); }
static void run(const Trace &t) {
    Slots<C> s; S = &s; VI ret; ret.reserve(8);
    base_event(s, sizeof(int), 0, 0, false);
    for (auto &l : t.ops) {
        if (l.op == "views") { g_views = l.a[0]; continue; }
        if (l.op == "view") { views(); continue; }
        const VI &a = l.a; int o = (int)a[0]; const std::string &op = l.op; ret.clear();
        op_begin();
        if (op == "new") s[o] = new (s.mem(o)) C((int)a[1]);
        else if (op == "del") s.kill(o);
        else if (op == "cc") s[o] = new (s.mem(o)) C(*(const C *)s[a[1]]);
        else if (op == "ca") *s[o] = *(const C *)s[a[1]];
        else if (op == "mc") s[o] = new (s.mem(o)) C(dstruct::move(*s[a[1]]));
        else if (op == "ma") *s[o] = dstruct::move(*s[a[1]]);
        else if (op == "con") s[o]->connect((int)a[1], (int)a[2]);
        else if (op == "conrep") s[o]->connect(s[o]->find((int)a[1]), s[o]->find((int)a[2]));
        else if (op == "uni") { int x = s[o]->find((int)a[1]), y = s[o]->find((int)a[2]); s[o]->union_set(x, y); }
        else if (op == "unirep") { s[o]->union_set(s[o]->find((int)a[1]), s[o]->find((int)a[2])); }
        else if (op == "run") { int m = (int)a[1], x = (int)a[2], n = (int)a[3]; for (int i = 0; i + 1 < n; i++) { int p = (m & 2) ? x + n - 2 - i : x + i; if (m & 1) s[o]->connect(p + 1, p); else s[o]->connect(p, p + 1); } }
        else if (op == "find") ret.push_back(s[o]->find((int)a[1]));
        else if (op == "conn") ret.push_back(s[o]->connected((int)a[1], (int)a[2]));
        else { op_end(); Ev e("unsupported"); e.f("o", o).f("a", VI{}); e.end(); return; }
        op_end();
        Ev e(op.c_str()); e.f("o", o); e.f("a", VI(a.begin() + 1, a.end())); e.f("r", ret); op_emit(e);
        pool_emit(o, sizeof(int));
        if (g_views) views();
    }
    for (int o = 1; o <= NS; o++) if (s[o]) { op_begin(); s.kill(o); op_end(); Ev e("del"); e.f("o", o); e.f("a", VI{}); e.f("r", VI{}); op_emit(e); pool_emit(o, sizeof(int)); }
}
int main(int argc, char **argv) { return run_all(argv[1], argv[2], run); }
