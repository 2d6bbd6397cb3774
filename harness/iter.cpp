// Conformance driver for iterators and range algorithms (IterADT.tla).
// Positions are recognised by element address: after every change of the container one full pass
// (begin to end) records the address of each element; every later iterator is located by == end()
// or by the address it points at.
#include <dstruct.hpp>
#include "config.hpp"
#include <memory>
using namespace H;

enum : unsigned { BI = 1, RA = 2, DI = 4, WRT = 8, CST = 16, SEQ_ = 32, FRONT = 64, ADP = 128, HEAP_ = 256, TREE = 512, MAP_ = 1024, FIX = 2048, STR = 4096,
                  PRE = 8192, POST = 16384, NOEQ = 32768, POPF = 65536, POPB = 1 << 17, CLR_ = 1 << 18, RSZ = 1 << 19, XS = 1 << 20 };
// an allocator whose blocks lie back to back in memory (no gaps, no headers), in either direction,
// and which hands freed blocks out again
template <bool DOWN> struct Adjacent {
    static char *arena() { alignas(16) static char a[1 << 22]; return a; }
    static void *allocate(int n) {
        auto &fr = pool()[n];
        if (!fr.empty()) { void *p = fr.back(); fr.pop_back(); return p; }
        static size_t lo = 0, hi = 1 << 22;
        size_t al = n % 8 ? 4 : 8;
        if (DOWN) { hi = (hi - n) / al * al; return arena() + hi; }
        lo = (lo + al - 1) / al * al; void *p = arena() + lo; lo += n; return p;
    }
    static void deallocate(void *p, int n) { if (p) pool()[n].push_back(p); }
    static std::map<int, std::vector<void *>> &pool() { static std::map<int, std::vector<void *>> m; return m; }
};
struct Runner { virtual ~Runner() {} virtual void run(const Trace &t) = 0; };

template <class C, class T, unsigned K> struct IterRunner : Runner {
    C *c = nullptr; VI ret; std::vector<const void *> pos;
    auto &cont() { if constexpr ((K & CST) != 0) return *(const C *)c; else return *c; }
    auto B() { if constexpr ((K & PRE) != 0) return cont().begin(C::PreOrder); else if constexpr ((K & POST) != 0) return cont().begin(C::PostOrder); else return cont().begin(); }
    auto E() { if constexpr ((K & PRE) != 0) return cont().end(C::PreOrder); else if constexpr ((K & POST) != 0) return cont().end(C::PostOrder); else return cont().end(); }
    using It = decltype(((IterRunner *)0)->B());
    std::unique_ptr<It> h[4];
    template <class X> static long long ev(const X &x) { if constexpr ((K & MAP_) != 0) return val(x.key); else return val(x); }
    static long long itv(const It &it) { return ev(*it); }
    static long long itva(const It &it) { if constexpr ((K & MAP_) != 0) return val(it->key); else return val(*it.operator->()); }

    long long where(const It &it) {
        It e = E();
        bool q = it == e, ne = it != e;
        if (q == ne) return -2;
        if (q) return (long long)pos.size();
        const void *p = (const void *)&*it;
        if (p != (const void *)it.operator->()) return -3;
        for (size_t i = 0; i < pos.size(); i++) if (pos[i] == p) return (long long)i;
        return -1;
    }
    // one pass over the whole container, in every way it can be walked forward
    void all() {
        pos.clear(); VI r, r2, r3, dup; const size_t LIM = 20000;
        for (It it = B(); it != E(); ++it) { r.push_back(itv(it)); pos.push_back((const void *)&*it); if (r.size() > LIM) break; }
        for (It it = B(); !(it == E()); it++) { r2.push_back(itva(it)); if (r2.size() > LIM) break; }
        if constexpr ((K & (PRE | POST)) == 0) for (auto &x : cont()) { r3.push_back(ev(x)); if (r3.size() > LIM) break; } else r3 = r;
        std::set<const void *> d(pos.begin(), pos.end());
        Ev e("all"); e.f("a", VI{}).f("r", r).f("r2", r2).f("r3", r3).f("d", VI{(long long)d.size()}).f("n", count()); e.end();
    }
    VI count() { if constexpr ((K & XS) != 0) return VI{}; else return VI{(long long)cont().size()}; }
    void drop() { for (auto &x : h) x.reset(); }
    bool build(const std::string &op, const VI &a) {
        if (op == "new") { if constexpr ((K & FIX) != 0) c = new C(mkv<T>(0)); else c = new C(); return true; }
        if (op == "del") { drop(); delete c; c = nullptr; return true; }
        if constexpr ((K & FIX) != 0) { if (op == "fill") { drop(); for (size_t i = 0; i < a.size(); i++) (*c)[(int)i] = mkv<T>(a[i]); return true; } }
        else if constexpr ((K & MAP_) != 0) { if (op == "ins") { drop(); (*c)[mkv<T>(a[0])] = T(1); return true; } if (op == "rem") { drop(); c->pop(mkv<T>(a[0])); return true; } }
        else if constexpr ((K & TREE) != 0) { if (op == "ins") { drop(); c->push(mkv<T>(a[0])); return true; } if (op == "rem") { drop(); c->pop(mkv<T>(a[0])); return true; } }
        else if constexpr ((K & STR) != 0) { if (op == "pb") { drop(); c->push_back((char)a[0]); return true; } }
        else if constexpr ((K & (ADP | HEAP_)) != 0) { if (op == "pb") { drop(); c->push(mkv<T>(a[0])); return true; } if (op == ((K & POPF) ? "popf" : (K & HEAP_) ? "poph" : "popb")) { drop(); c->pop(); return true; } }
        else {
            if (op == "pb") { drop(); c->push_back(mkv<T>(a[0])); return true; }
            if constexpr ((K & POPB) != 0) if (op == "popb") { drop(); c->pop_back(); return true; }
            if constexpr ((K & FRONT) != 0) { if (op == "pf") { drop(); c->push_front(mkv<T>(a[0])); return true; } if (op == "popf") { drop(); c->pop_front(); return true; } }
        }
        if constexpr ((K & CLR_) != 0) if (op == "clr") { drop(); c->clear(); return true; }
        if constexpr ((K & RSZ) != 0) if (op == "rs") { drop(); c->resize((int)a[0]); return true; }
        return false;
    }
    bool step(const std::string &op, const VI &a) {
        int x = (int)a[0], y = a.size() > 1 ? (int)a[1] : 0;
        auto at = [&](int i) -> It & { return *h[i]; };
        auto rep = [&](int i) { ret.push_back(where(at(i))); };
        if (op == "b") { h[x].reset(new It(B())); rep(x); return true; }
        if (op == "e") { h[x].reset(new It(E())); rep(x); return true; }
        if (op == "inc") { It &r = ++at(x); if (&r != &at(x)) ret.push_back(-9); rep(x); return true; }
        if (op == "pinc") { It o = at(x)++; rep(x); ret.push_back(where(o)); return true; }
        if (op == "cp") { h[x].reset(new It(at(y))); rep(x); rep(y); return true; }
        if (op == "as") { at(x) = at(y); rep(x); rep(y); return true; }
        if (op == "mv") { It n(dstruct::move(at(y))); h[y].reset(); h[x].reset(new It(n)); rep(x); return true; }
        if (op == "mas") { at(x) = dstruct::move(at(y)); h[y].reset(); rep(x); return true; }
        if (op == "eq") { ret.push_back(at(x) == at(y)); ret.push_back(at(x) != at(y)); return true; }
        if (op == "get") { ret.push_back(itv(at(x))); ret.push_back(itva(at(x))); rep(x); return true; }
        if (op == "each") { dstruct::algorithm::for_each(at(x), at(y), [&](const auto &v) { ret.push_back(ev(v)); }); return true; }
        if constexpr ((K & NOEQ) == 0) if (op == "fnd") { It r = dstruct::algorithm::find(at(x), at(y), mkv<T>(a[2])); ret.push_back(where(r)); return true; }
        if constexpr ((K & BI) != 0) {
            if (op == "dec") { It &r = --at(x); if (&r != &at(x)) ret.push_back(-9); rep(x); return true; }
            if (op == "pdec") { It o = at(x)--; rep(x); ret.push_back(where(o)); return true; }
        }
        if constexpr ((K & RA) != 0) {
            if (op == "add") { h[x].reset(new It(at(y) + (int)a[2])); rep(x); if (x != y) rep(y); return true; }
            if (op == "sub") { h[x].reset(new It(at(y) - (int)a[2])); rep(x); if (x != y) rep(y); return true; }
        }
        if constexpr ((K & DI) != 0) if (op == "dist") { ret.push_back((long long)dstruct::distance(at(x), at(y))); ret.push_back((long long)(at(y) - at(x))); return true; }
        if constexpr ((K & WRT) != 0 && (K & CST) == 0) {
            if (op == "wr") { *at(x) = T(y); return true; }
            if (op == "eachw") { dstruct::algorithm::for_each(at(x), at(y), [&](auto &v) { ret.push_back(val(v)); v = mkv<T>(val(v) + a[2]); }); return true; }
        }
        return false;
    }
    void run(const Trace &t) override {
        for (auto &l : t.ops) {
            ret.clear();
            bool b = build(l.op, l.a);
            if (!b && !step(l.op, l.a)) { Ev e("unsupported"); e.f("a", l.a).f("r", VI{}); e.end(); return; }
            Ev e(l.op.c_str()); e.f("a", l.a).f("r", ret); e.end();
            if (b && c && !((K & FIX) && l.op == "new")) all();
        }
        drop();
        if (c) { delete c; Ev e("del"); e.f("a", VI{}).f("r", VI{}); e.end(); }
    }
};

static std::map<std::string, Runner *> R;
template <class C, class T, unsigned K> static void reg(const char *n) { R[n] = new IterRunner<C, T, K>(); }
template <class T> static void types(const std::string &s) {
    auto N = [&](const char *x) { return strdup((std::string(x) + "." + s).c_str()); };
    const unsigned VW = SEQ_ | BI | RA | DI | WRT | POPB | CLR_;
#if FAM & 1
    reg<D::Vector<T>, T, VW | RSZ>(N("vec")); reg<D::Vector<T>, T, VW | CST | RSZ>(N("cvec"));
    reg<dstruct::Array<T, 7>, T, SEQ_ | BI | RA | DI | WRT | FIX>(N("arr7")); reg<dstruct::Array<T, 7>, T, SEQ_ | BI | RA | DI | FIX | CST>(N("carr7"));
    reg<D::SLinkedList<T>, T, SEQ_ | WRT | FRONT | CLR_>(N("sll")); reg<D::SLinkedList<T>, T, SEQ_ | FRONT | CST | CLR_>(N("csll"));
    reg<D::DLinkedList<T>, T, SEQ_ | BI | WRT | FRONT | POPB | CLR_>(N("dll")); reg<D::DLinkedList<T>, T, SEQ_ | BI | FRONT | POPB | CST | CLR_>(N("cdll"));
#endif
#if FAM & 2
    const unsigned DQ = SEQ_ | BI | RA | FRONT | POPB | CLR_;
    reg<D::Deque<T>, T, DQ>(N("deq")); reg<D::Deque<T, 1>, T, DQ>(N("deq1")); reg<D::Deque<T, 2>, T, DQ>(N("deq2")); reg<D::Deque<T, 3>, T, DQ | CST>(N("deq3")); reg<D::Deque<T, 32>, T, DQ>(N("deq32"));
    reg<dstruct::Deque<T, 1, Adjacent<true>>, T, DQ>(N("deqa1")); reg<dstruct::Deque<T, 2, Adjacent<true>>, T, DQ>(N("deqa2"));
    reg<dstruct::Deque<T, 2, Adjacent<false>>, T, DQ>(N("dequ2")); reg<dstruct::Deque<T, 4, Adjacent<true>>, T, DQ>(N("deqa4"));
    reg<D::Queue<T>, T, SEQ_ | BI | RA | ADP | POPF>(N("que")); reg<D::Stack<T>, T, SEQ_ | ADP | BI | RA>(N("stk"));
#endif
#if FAM & 4
    reg<D::MinStack<T>, T, SEQ_ | ADP | XS>(N("xmin")); reg<D::MaxStack<T>, T, SEQ_ | ADP | CST | XS>(N("xmax"));
    reg<D::MinHeap<T>, T, HEAP_ | BI | RA | DI>(N("heap"));
    reg<D::BSTree<T>, T, TREE | CLR_>(N("bst")); reg<dstruct::AVLTree<T, dstruct::less<T>, D::Al>, T, TREE | CLR_ | NOEQ * 0>(N("avl"));
    reg<D::BSTree<T>, T, TREE | PRE>(N("bstpre")); reg<D::BSTree<T>, T, TREE | POST | CST>(N("bstpost"));
    reg<dstruct::AVLTree<T, dstruct::less<T>, D::Al>, T, TREE | PRE>(N("avlpre")); reg<dstruct::AVLTree<T, dstruct::less<T>, D::Al>, T, TREE | POST>(N("avlpost"));
    reg<D::Map<T, T>, T, MAP_ | NOEQ | CLR_>(N("map")); reg<D::Map<T, T>, T, MAP_ | NOEQ | CST | CLR_>(N("cmap"));
#endif
}
static void run(const Trace &t) { auto it = R.find(t.var); if (it == R.end()) { Ev e("unsupported"); e.f("a", VI{}).f("r", VI{}); e.end(); return; } it->second->run(t); }
int main(int argc, char **argv) {
    types<int>("int"); types<Tok>("tok"); types<Big>("big");
#if FAM & 1
    reg<D::String, char, SEQ_ | BI | RA | DI | WRT | STR>("str"); reg<D::String, char, SEQ_ | BI | RA | DI | STR | CST>("cstr");
#endif
    return run_all(argv[1], argv[2], run);
}
