// Conformance driver for the sequence family (SeqADT.tla): vectors, strings, lists, deques,
// queue/stack adapters, min/max stacks, heaps (as ordered bags) and fixed arrays.
// Build twice more with -DSM (static-memory aliases) and -DENABLE_SMA (static port).
#include <dstruct.hpp>
#include "config.hpp"
#ifdef ELX
#include "elx.hpp"
#endif
using namespace H;

enum : unsigned {
    PB = 1, PF = 2, OB = 4, OF = 8, GEN = 16 /*generic push/pop at front*/, GENB = 32 /*push back pop front*/,
    WR = 64, IX = 128, NIX = 256, RS = 512, CLR = 1024, BK = 2048, FR = 4096, FILL = 8192, RV = 16384,
    SZ = 32768, CAP = 65536, XV = 1 << 17, MIT = 1 << 18, RNGCTOR = 1 << 19, OBU = 1 << 20 /*_pop_back*/,
    ADT = 1 << 21 /*adapter: push back; pop via pop()*/, LIFO = 1 << 22, HEAP = 1 << 23, NOCOPY = 1 << 24,
    GENV = 1 << 25 /*generic push/pop at back*/, FIXED = 1 << 26,
    STP = 1 << 27 /*pointers to elements stay valid*/, STI = 1 << 28 /*so do iterators*/
};

static bool g_views = true;      // log a view of every live slot after every operation
static bool g_lite = false;      // views of large contents: one pass and the ends only
static const int NS = 3;
static const std::string PBs = "pb", PFs = "pf", OBs = "popb", OFs = "popf";
static VI g_b2(2), g_b1(1);      // arguments of the single operations of a bulk one (no allocation while one is counted)

struct Runner {
    virtual ~Runner() {}
    virtual void run(const Trace &t) = 0;
};

template <class C, class T, unsigned K>
struct SeqRunner : Runner {
    Slots<C> s;
    VI ret;
    // handles the user keeps: a pointer to an element and, where it lasts, an iterator
    using It = decltype(((C *)0)->begin());
    const T *hptr[4] = {}; It *hit[4] = {};
    ~SeqRunner() { for (int g = 0; g < 4; g++) delete hit[g]; }

    void view(int o) {
        if (!s[o]) return;
        g_mi.clear();
        C &c = *s[o]; const C &cc = c;
        Ev e("v"); e.f("o", o);
        std::string v = "{"; bool first = true;
        auto add = [&](const char *k, const VI &x) { if (!first) v += ','; first = false; v += '"'; v += k; v += "\":"; Ev::arr(v, x); };
        long long n = -1;
        { VI x; long long lim = 200000; for (auto it = cc.begin(); it != cc.end(); it++) { x.push_back(val(*it)); if (--lim < 0) break; } n = x.size(); add((K & HEAP) ? "bag" : "it", x); }
        if (g_lite) {
            if constexpr ((K & SZ) != 0) add("n", {(long long)cc.size()});
            add("e", {cc.empty() ? 1 : 0});
            if (n > 0) {
                if constexpr ((K & FR) != 0) add("f", {(long long)val(cc.front())});
                if constexpr ((K & BK) != 0) add("b", {(long long)val(cc.back())});
                if constexpr ((K & LIFO) != 0) add("b", {(long long)val(cc.top())});
            }
            v += "}"; e.s += ",\"v\":" + v; op_emit(e); return;
        }
        if constexpr ((K & MIT) != 0) { VI x; long long lim = 200000; for (auto it = c.begin(); it != c.end(); ++it) { x.push_back(val(*it)); if (--lim < 0) break; } add("mt", x); }
        if constexpr ((K & SZ) != 0) { n = (long long)cc.size(); add("n", {n}); }
        if constexpr ((K & CAP) != 0) add("cap", {(long long)cc.capacity()});
        add("e", {cc.empty() ? 1 : 0});
        if constexpr ((K & IX) != 0) { VI x; for (long long i = 0; i < n; i++) { if constexpr ((K & HEAP) != 0) x.push_back(val(c[i + 1])); else if constexpr ((K & ADT) != 0) x.push_back(val(c[i])); else x.push_back(val(cc[i])); } add((K & HEAP) ? "bag2" : "ix", x); }
        if constexpr ((K & NIX) != 0) { VI x; for (long long i = 0; i < n; i++) { if constexpr ((K & ADT) != 0) x.push_back(val(c[i - n])); else x.push_back(val(cc[i - n])); } add("nx", x); }
        if constexpr ((K & WR) != 0) { VI x; for (long long i = 0; i < n; i++) x.push_back(val(c[i])); for (long long i = 0; i < n; i++) x.push_back(val(c[i - n])); add("ix2", x); }
        if (n > 0) {
            if constexpr ((K & FR) != 0) add("f", {(long long)val(cc.front())});
            if constexpr ((K & BK) != 0) add("b", {(long long)val(cc.back())});
            if constexpr ((K & LIFO) != 0) add("b", {(long long)val(cc.top())});
            if constexpr ((K & XV) != 0) add("x", {(long long)val(cc.getXValue())});
            if constexpr ((K & HEAP) != 0) add("top", {(long long)val(cc.top())});
        }
        if constexpr ((K & RV) != 0) { // walk backwards from the last element
            VI x; auto it = cc.end(); for (long long i = 0; i < n; i++) { --it; x.push_back(val(*it)); } add("rv", x);
            VI y; auto jt = cc.end(); for (long long i = 0; i < n; i++) { jt--; y.push_back(val(*jt)); } add("rw", y);
        }
        v += "}";
        e.s += ",\"v\":" + v; op_emit(e);
    }
    void views() { for (int o = 1; o <= NS; o++) view(o); }

    void mk(int o, C *p) { s[o] = p; }
    void kill(int o) { s.kill(o); }

    // returns false for an operation this container does not offer
    bool apply(const std::string &op, const VI &a) {
        int o = (int)a[0]; auto A = [&](int i) { return a[i]; };
        if (op == "new") { mk(o, Fresh<C>::at(s.mem(o))); return true; }
        if (op == "del") { kill(o); return true; }
        if constexpr ((K & NOCOPY) == 0) {
            if (op == "cc") { mk(o, new (s.mem(o)) C(*(const C *)s[A(1)])); return true; }
            if (op == "ca") { *s[o] = *(const C *)s[A(1)]; return true; }
            if (op == "mc") { mk(o, new (s.mem(o)) C(dstruct::move(*s[A(1)]))); return true; }
            if (op == "ma") { *s[o] = dstruct::move(*s[A(1)]); return true; }
        }
        if constexpr ((K & FILL) != 0) { if (op == "newn") { mk(o, new (s.mem(o)) C(A(1), mkv<T>(A(2)))); return true; } }
        if constexpr ((K & FIXED) != 0) { if (op == "newx") { mk(o, new (s.mem(o)) C(mkv<T>(A(1)))); return true; } }
        C &c = *s[o];
        // many single operations in a row
        if (op == "bpb" || op == "bpf") { VI &b = g_b2; b[0] = a[0]; for (long long i = 0; i < A(1); i++) { b[1] = A(2) + i; if (!apply(op == "bpb" ? PBs : PFs, b)) return false; H::step(); } return true; }
        if (op == "bpopb" || op == "bpopf") { VI &b = g_b1; b[0] = a[0]; for (long long i = 0; i < A(1); i++) { if (!apply(op == "bpopb" ? OBs : OFs, b)) return false; H::step(); } return true; }
        if (op == "slide" || op == "slideb" || op == "churn") {
            VI &b = g_b2, &z = g_b1; b[0] = z[0] = a[0]; const std::string &pu = op == "slideb" ? PFs : PBs, &po = op == "slide" ? OFs : OBs;
            for (long long i = 0; i < A(1); i++) { b[1] = A(2) + i; if (!apply(pu, b)) return false; H::step(); if (!apply(po, z)) return false; H::step(); }
            return true;
        }
        if constexpr ((K & ADT) != 0) {
            if (op == "pb") { c.push(mkv<T>(A(1))); return true; }
            if (op == "pbi") { long long i = A(1); auto it = c.begin(); for (; i > 0; i--) it++; c.push(*it); return true; }
            if constexpr ((K & LIFO) != 0) { if (op == "popb") { c.pop(); return true; } }
            else { if (op == "popf") { c.pop(); return true; } }
        }
        if (op == "bsc") { VI &b = g_b2; b[0] = a[0]; for (long long i = 0; i < A(1); i++) { b[1] = A(2) + wrap(i * A(3), A(4)); if (!apply(PBs, b)) return false; H::step(); } return true; }
        if constexpr ((K & HEAP) != 0) {
            if (op == "bpopx") { for (long long i = 0; i < A(1); i++) { ret.push_back(val(c.top())); c.pop(); H::step(); } return true; }
            if (op == "pb") { c.push(mkv<T>(A(1))); return true; }
            if (op == "pbx") { ret.push_back(val(c[(int)A(1) + 1])); c.push(c[(int)A(1) + 1]); return true; }
            if (op == "popx") { ret.push_back(val(c.top())); c.pop(); return true; }
        }
        if constexpr ((K & PB) != 0) {
            if (op == "pb") { c.push_back(mkv<T>(A(1))); return true; }
            if (op == "pbi") { long long i = A(1); const C &cc = c; auto it = cc.begin(); for (; i > 0; i--) it++; c.push_back(*it); return true; }
        }
        if constexpr ((K & PF) != 0) {
            if (op == "pf") { c.push_front(mkv<T>(A(1))); return true; }
            if (op == "pfi") { long long i = A(1); const C &cc = c; auto it = cc.begin(); for (; i > 0; i--) it++; c.push_front(*it); return true; }
        }
        if constexpr ((K & OB) != 0) if (op == "popb") { c.pop_back(); return true; }
        if constexpr ((K & OBU) != 0) if (op == "popb") { c._pop_back(); return true; }
        if constexpr ((K & OF) != 0) if (op == "popf") { c.pop_front(); return true; }
        if constexpr ((K & GEN) != 0) { if (op == "gpf") { c.push(mkv<T>(A(1))); return true; } if (op == "gof") { c.pop(); return true; } }
        if constexpr ((K & GENB) != 0) { if (op == "gpb") { c.push(mkv<T>(A(1))); return true; } if (op == "gof") { c.pop(); return true; } }
        if constexpr ((K & GENV) != 0) { if (op == "gpb") { c.push(mkv<T>(A(1))); return true; } if (op == "gob") { c.pop(); return true; } }
        if constexpr ((K & WR) != 0) {
            if (op == "set") { c[(int)A(1)] = mkv<T>(A(2)); return true; }
            if (op == "seti") { c[(int)A(1)] = c[(int)A(2)]; return true; }
        }
        if constexpr ((K & MIT) != 0) if (op == "setit") { long long i = A(1); auto it = c.begin(); for (; i > 0; i--) ++it; *it = mkv<T>(A(2)); return true; }
        if constexpr ((K & RS) != 0) {
            if (op == "rs") { c.resize(A(1)); return true; }
            if (op == "rsf") { c.resize(A(1), mkv<T>(A(2))); return true; }
            if (op == "rsi") { c.resize(A(1), c[(int)A(2)]); return true; }
        }
        if constexpr ((K & CLR) != 0) if (op == "clr") { c.clear(); return true; }
        if constexpr ((K & STP) != 0) {
            if (op == "take") {
                int g = (int)A(1); long long i = A(2); auto it = c.begin(); for (; i > 0; i--) ++it;
                hptr[g] = &*it; delete hit[g]; hit[g] = new It(it); return true;
            }
            if (op == "rd") { int g = (int)A(1); ret.push_back(val(*hptr[g])); if constexpr ((K & STI) != 0) { ret.push_back(val(**hit[g])); ret.push_back(val(*hit[g]->operator->())); } return true; }
            if constexpr ((K & STI) != 0) {
                if (op == "wr") { int g = (int)A(1); if (g & 1) *const_cast<T *>(hptr[g]) = mkv<T>(A(2)); else **hit[g] = mkv<T>(A(2)); return true; }
                if (op == "nx") { It it = *hit[A(1)]; ++it; if (it != c.end()) ret.push_back(val(*it)); return true; }
                if constexpr ((K & RV) != 0) if (op == "pv") { It it = *hit[A(1)]; --it; if (it != c.end()) ret.push_back(val(*it)); return true; }
            }
        }
        return false;
    }

    void run(const Trace &t) override {
        ret.reserve(8);
        base_event(s, sizeof(T), 1, (K & XV) != 0, (K & FIXED) != 0);
        for (auto &l : t.ops) {
            if (l.op == "views") { g_views = l.a[0]; continue; }
            if (l.op == "lite") { g_lite = l.a[0]; continue; }
            if (l.op == "view") { views(); continue; }
            ret.clear();
            op_begin();
            bool ok = apply(l.op, l.a);
            op_end();
            if (!ok) { Ev e("unsupported"); e.f("o", l.a[0]).f("a", VI{}); e.end(); return; }
            Ev e(l.op.c_str()); e.f("o", l.a[0]); e.f("a", VI(l.a.begin() + 1, l.a.end())); if (!ret.empty() || l.op == "nx" || l.op == "pv" || l.op == "bpopx") e.f("r", ret); op_emit(e);
            pool_emit(l.a[0], sizeof(T));
            if (g_views) views();
        }
        for (int o = 1; o <= NS; o++) if (s[o]) { op_begin(); kill(o); op_end(); Ev e("del"); e.f("o", o); e.f("a", VI{}); op_emit(e); pool_emit(o, sizeof(T)); }
    }
};

// ---------------------------------------------------------------- strings
template <class S>
struct StrRunner : Runner {
    Slots<S> s;
    void view(int o) {
        if (!s[o]) return;
        g_mi.clear();
        S &c = *s[o]; const S &cc = c;
        Ev e("v"); e.f("o", o); std::string v = "{"; bool first = true;
        auto add = [&](const char *k, const VI &x) { if (!first) v += ','; first = false; v += '"'; v += k; v += "\":"; Ev::arr(v, x); };
        long long n = cc.size();
        add("n", {n}); add("e", {cc.empty() ? 1 : 0});
        add("cap", {(long long)cc.capacity()});
        { VI x; for (auto it = cc.begin(); it != cc.end(); it++) x.push_back(val(*it)); add("it", x); }
        { VI x; for (auto it = c.begin(); it != c.end(); ++it) x.push_back(val(*it)); add("mt", x); }
        { VI x; const char *p = cc.c_str(); for (long long i = 0; i <= n; i++) x.push_back((unsigned char)p[i]); add("cs", x); }
        { VI x; for (long long i = 0; i < n; i++) x.push_back(val(cc[i])); add("ix", x); }
        { VI x; for (long long i = 0; i < n; i++) x.push_back(val(c[i])); add("mx", x); }
        if (n > 0) { add("f", {val(cc.front())}); add("b", {val(cc.back())}); }
        // comparison of every pair of live slots, both operators
        { VI x, y; for (int p = 1; p <= NS; p++) { x.push_back(s[p] ? (cc == *s[p]) : 2); y.push_back(s[p] ? (cc != *s[p]) : 2); } add("eq", x); add("ne", y); }
        v += "}"; e.s += ",\"v\":" + v; op_emit(e);
    }
    void views() { for (int o = 1; o <= NS; o++) view(o); }
    void mk(int o, S *p) { s[o] = p; }
    void kill(int o) { s.kill(o); }
    void run(const Trace &t) override {
        base_event(s, 1, 0, 0, false);
        for (auto &l : t.ops) {
            if (l.op == "views") { g_views = l.a[0]; continue; }
            if (l.op == "view") { views(); continue; }
            const VI &a = l.a; int o = (int)a[0]; const std::string &op = l.op;
            // exact-size heap buffer for C strings so that reading past the terminator is caught
            auto cstr = [&](size_t from) { bool cnt = g_count; g_count = false; struct R { bool c; ~R() { g_count = c; } } rr{cnt}; char *p = new char[a.size() - from + 1]; for (size_t i = from; i < a.size(); i++) p[i - from] = (char)a[i]; p[a.size() - from] = 0; return p; };
            VI r; r.reserve(8); op_begin();
            if (op == "new") mk(o, new (s.mem(o)) S());
            else if (op == "del") kill(o);
            else if (op == "newl") { char *p = cstr(1); mk(o, new (s.mem(o)) S(p)); op_end(); delete[] p; }
            else if (op == "cc") mk(o, new (s.mem(o)) S(*(const S *)s[a[1]]));
            else if (op == "ca") *s[o] = *(const S *)s[a[1]];
            else if (op == "mc") mk(o, new (s.mem(o)) S(dstruct::move(*s[a[1]])));
            else if (op == "ma") *s[o] = dstruct::move(*s[a[1]]);
            else if (op == "as") { char *p = cstr(1); *s[o] = p; op_end(); delete[] p; }
            else if (op == "asown") { *s[o] = s[o]->c_str() + a[1]; }
            else if (op == "pb") s[o]->push_back((char)a[1]);
            else if (op == "bsc") for (long long i = 0; i < a[1]; i++) s[o]->push_back((char)(a[2] + wrap(i * a[3], a[4])));
            else if (op == "pbi") s[o]->push_back((*s[o])[(int)a[1]]);
            else if (op == "apc") { char *p = cstr(1); *s[o] += p; op_end(); delete[] p; }
            else if (op == "apown") { *s[o] += s[o]->c_str() + a[1]; }
            else if (op == "aps") *s[o] += *(const S *)s[a[1]];
            else if (op == "clr") s[o]->clear();
            else if (op == "set") (*s[o])[(int)a[1]] = (char)a[2];
            else if (op == "cat") { *s[o] = *s[a[1]] + *s[a[2]]; }
            else if (op == "catc") { char *p = cstr(2); *s[o] = *s[a[1]] + p; op_end(); delete[] p; }
            else if (op == "ccat") { char *p = cstr(2); *s[o] = p + *s[a[1]]; op_end(); delete[] p; }
            else if (op == "ncat") { mk(o, new (s.mem(o)) S(*s[a[1]] + *s[a[2]])); }
            else if (op == "eqc") { char *p = cstr(1); r.push_back(*s[o] == (const char *)p); r.push_back((const char *)p == *s[o]); r.push_back(*s[o] != (const char *)p); r.push_back((const char *)p != *s[o]); op_end(); delete[] p; }
            else { op_end(); Ev e("unsupported"); e.f("o", o).f("a", VI{}); e.end(); return; }
            op_end();
            Ev e(op.c_str()); e.f("o", o); e.f("a", VI(a.begin() + 1, a.end())); if (!r.empty()) e.f("r", r); op_emit(e);
            pool_emit(o, 1);
            if (g_views) views();
        }
        for (int o = 1; o <= NS; o++) if (s[o]) { op_begin(); kill(o); op_end(); Ev e("del"); e.f("o", o); e.f("a", VI{}); op_emit(e); pool_emit(o, 1); }
    }
};

// ---------------------------------------------------------------- heap algorithms (build / sort)
template <class T, class Hp>
struct HeapAlgo : Runner {
    void run(const Trace &t) override {
        for (auto &l : t.ops) {
            if (l.op == "views" || l.op == "view") continue;
            dstruct::Vector<T> v; for (auto x : l.a) v.push_back(mkv<T>(x));
            if (l.op == "sort") {
                op_begin(); Hp::sort(v.begin(), v.end()); op_end();
                VI r; for (auto it = v.begin(); it != v.end(); it++) r.push_back(val(*it));
                Ev e("sort"); e.f("o", 1).f("a", l.a).f("r", r); op_emit(e);
            } else if (l.op == "sortr") { // a sub-range: first arg = offset, second = length
                v.clear(); for (size_t i = 2; i < l.a.size(); i++) v.push_back(mkv<T>(l.a[i]));
                op_begin(); Hp::sort(v.begin() + (int)l.a[0], v.begin() + (int)(l.a[0] + l.a[1])); op_end();
                VI r; for (auto it = v.begin(); it != v.end(); it++) r.push_back(val(*it));
                Ev e("sortr"); e.f("o", 1).f("a", l.a).f("r", r); op_emit(e);
            } else if (l.op == "build") {
                op_begin(); Hp h = Hp::build(v.begin(), v.end()); op_end();
                VI r; for (auto it = v.begin(); it != v.end(); it++) r.push_back(val(*it));
                VI q; for (auto it = h.begin(); it != h.end(); it++) q.push_back(val(*it));
                VI d; long long n = h.size(); VI nn{n}; while (!h.empty()) { d.push_back(val(h.top())); h.pop(); if (d.size() > l.a.size() + 5) break; }
                Ev e("build"); e.f("o", 1).f("a", l.a).f("r", r).f("q", q).f("d", d).f("n", nn); op_emit(e);
            } else if (l.op == "ctor") {
                op_begin(); Hp h(v.begin(), v.end()); op_end();
                VI q; for (auto it = h.begin(); it != h.end(); it++) q.push_back(val(*it));
                VI d; VI nn{(long long)h.size()}; while (!h.empty()) { d.push_back(val(h.top())); h.pop(); if (d.size() > l.a.size() + 5) break; }
                VI r; for (auto it = v.begin(); it != v.end(); it++) r.push_back(val(*it));
                Ev e("ctor"); e.f("o", 1).f("a", l.a).f("r", r).f("q", q).f("d", d).f("n", nn); op_emit(e);
            }
        }
    }
};

static const unsigned VEC = PB | OB | GENV | WR | IX | NIX | RS | CLR | BK | FR | FILL | SZ | CAP | MIT;
static const unsigned SLL = STP | STI | PB | PF | OBU | OF | GEN | CLR | BK | FR | FILL | SZ | MIT;
static const unsigned DLL = STP | STI | PB | PF | OB | OF | GEN | CLR | BK | FR | FILL | SZ | MIT | RV;
static const unsigned DEQ = STP | PB | PF | OB | OF | GENB | CLR | BK | FR | IX | NIX | SZ | CAP | RV;
static const unsigned QUE = ADT | BK | FR | IX | NIX | SZ;
static const unsigned QUEL = ADT | BK | FR | SZ;
static const unsigned STK = ADT | LIFO | CLR | SZ;
static const unsigned XST = ADT | LIFO | CLR | XV;
static const unsigned HEP = HEAP | SZ | CAP | IX;
static const unsigned ARR = FIXED | WR | IX | NIX | BK | FR | SZ | CAP | MIT;

#ifndef FAM
#define FAM 0xff
#endif
template <class T> static Runner *pick(const std::string &n) {
#if FAM & 1
    if (n == "vec") return new SeqRunner<D::Vector<T>, T, VEC>();
#endif
#if FAM & 2
    if (n == "sll") return new SeqRunner<D::SLinkedList<T>, T, SLL>();
    if (n == "dll") return new SeqRunner<D::DLinkedList<T>, T, DLL>();
#endif
#if FAM & 4
    if (n == "deq1") return new SeqRunner<D::Deque<T, 1>, T, DEQ>();
    if (n == "deq2") return new SeqRunner<D::Deque<T, 2>, T, DEQ>();
    if (n == "deq3") return new SeqRunner<D::Deque<T, 3>, T, DEQ>();
    if (n == "deq5") return new SeqRunner<D::Deque<T, 5>, T, DEQ>();
    if (n == "deq") return new SeqRunner<D::Deque<T>, T, DEQ>();
#endif
#if FAM & 8
    if (n == "que") return new SeqRunner<D::Queue<T>, T, QUE>();
    if (n == "stk") return new SeqRunner<D::Stack<T>, T, STK>();
#endif
#if FAM & 32
    if (n == "heapmin") return new SeqRunner<D::MinHeap<T>, T, HEP>();
    if (n == "heapmax") return new SeqRunner<D::MaxHeap<T>, T, HEP>();
    if (n == "heappq") return new SeqRunner<D::PriorityQueue<T>, T, HEP>();
    if (n == "heapd") return new SeqRunner<dstruct::Heap<T, Dyn, D::Al>, T, HEP>();
#endif
#if FAM & 16
    if (n == "xmin") return new SeqRunner<D::MinStack<T>, T, XST>();
    if (n == "xmax") return new SeqRunner<D::MaxStack<T>, T, XST>();
    if (n == "xd") return new SeqRunner<dstruct::stack::XValueStack<T, Dyn, D::Stack<T>>, T, XST>();
#endif
#ifdef LED
#if FAM & 8
    if (n == "quel") return new SeqRunner<dstruct::adapter::Queue<T, D::DLinkedList<T>>, T, QUEL>();
    if (n == "ques") return new SeqRunner<dstruct::adapter::Queue<T, D::SLinkedList<T>>, T, QUEL>();
    if (n == "que1") return new SeqRunner<dstruct::adapter::Queue<T, D::Deque<T, 1>>, T, QUE>();
    if (n == "stkd") return new SeqRunner<dstruct::adapter::Stack<T, D::Deque<T, 3>>, T, STK>();
    if (n == "stkl") return new SeqRunner<dstruct::adapter::Stack<T, D::DLinkedList<T>>, T, STK>();
#endif
#endif
#if !defined(SM) && !defined(LED)
#if FAM & 8
    if (n == "quel") return new SeqRunner<dstruct::adapter::Queue<T, dstruct::DLinkedList<T>>, T, QUEL>();
    if (n == "ques") return new SeqRunner<dstruct::adapter::Queue<T, dstruct::SLinkedList<T>>, T, QUEL>();
    if (n == "que1") return new SeqRunner<dstruct::adapter::Queue<T, dstruct::Deque<T, 1>>, T, QUE>();
    if (n == "que3") return new SeqRunner<dstruct::adapter::Queue<T, dstruct::Deque<T, 3>>, T, QUE>();
    if (n == "stkd") return new SeqRunner<dstruct::adapter::Stack<T, dstruct::Deque<T, 3>>, T, STK>();
    if (n == "stkl") return new SeqRunner<dstruct::adapter::Stack<T, dstruct::DLinkedList<T>>, T, STK>();
#endif
#endif
#ifndef SM
#if FAM & 64
    if (n == "arr1") return new SeqRunner<dstruct::Array<T, 1>, T, ARR>();
    if (n == "arr2") return new SeqRunner<dstruct::Array<T, 2>, T, ARR>();
    if (n == "arr3") return new SeqRunner<dstruct::Array<T, 3>, T, ARR>();
    if (n == "arr7") return new SeqRunner<dstruct::Array<T, 7>, T, ARR>();
    if (n == "arr32") return new SeqRunner<dstruct::Array<T, 32>, T, ARR>();
    if (n == "arr300") return new SeqRunner<dstruct::Array<T, 300>, T, ARR>();
#endif
#endif
#if !defined(SM)
#if FAM & 32
    if (n == "hamin") return new HeapAlgo<T, D::MinHeap<T>>();
    if (n == "hamax") return new HeapAlgo<T, D::MaxHeap<T>>();
#endif
#endif
    return nullptr;
}

static void run(const Trace &t) {
    std::string n = t.var, el = "int"; size_t d = n.find('.');
    if (d != std::string::npos) { el = n.substr(d + 1); n = n.substr(0, d); }
    Runner *r = nullptr;
    if (n == "none") r = nullptr;
#if FAM & 1
    else if (n == "str") r = new StrRunner<D::String>();
#endif
#if !defined(SM) && !defined(LED)
#if FAM & 16
    else if (n == "xu") r = new SeqRunner<dstruct::stack::XValueStack<int, ByUnits, dstruct::Stack<int>>, int, XST>();
    else if (n == "xsd") r = new SeqRunner<dstruct::stack::XValueStack<int, dstruct::less<int>, dstruct::adapter::Stack<int, dstruct::Deque<int, 2>>>, int, XST>();
#endif
#if FAM & 32
    else if (n == "heapu") r = new SeqRunner<dstruct::Heap<int, ByUnits>, int, HEP>();
    else if (n == "hau") r = new HeapAlgo<int, dstruct::Heap<int, ByUnits>>();
#endif
#endif
#ifdef LED
    else if (el == "led") r = pick<Led>(n);
#elif defined(ELX)
    else if (el == "nest") r = pick<Nest>(n);
#ifndef NESTONLY
    else if (el == "self") r = pick<Selfp>(n);
    else if (el == "ptr") r = pick<Ptr>(n);
    else if (el == "chr") r = pick<unsigned char>(n);
    else if (el == "dbl") r = pick<double>(n);
#endif
#else
    else if (el == "int") r = pick<int>(n);
#ifndef INTONLY
    else if (el == "tok") r = pick<Tok>(n);
#endif
    else if (el == "big") r = pick<Big>(n);
#endif
    if (!r) { Ev e("novariant"); e.f("o", 1).f("a", VI{}); e.end(); return; }
    r->run(t);
    delete r;
}

int main(int argc, char **argv) { return run_all(argv[1], argv[2], run); }
