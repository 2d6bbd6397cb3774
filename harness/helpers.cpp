// Conformance driver for the value helpers (Helpers.tla).  Values are named by rank: 0 is zero, -k
// the negation of k; pointers by address order, null is 0.  MINR names the most negative value of a
// signed integer, which has no magnitude.
#include <dstruct.hpp>
#include "config.hpp"
#include <limits>
#include <algorithm>
using namespace H;
struct Runner { virtual ~Runner() {} virtual void run(const Trace &t) = 0; };
static const long long MINR = -99;

template <class T> struct Num {
    std::vector<T> pos; bool hasmin = false;
    Num() {
        using L = std::numeric_limits<T>;
        if (std::is_floating_point<T>::value) { for (double d : {0.0, 4.9e-324, 1e-300, 1e-30, 0.25, 0.5, 0.99999, 1.0, 1.5, 2.0, 1e6, 16777217.0, 1e30, 1e300}) pos.push_back((T)d); pos.push_back(L::max()); pos.push_back(L::infinity()); }
        else { for (unsigned long long d = 0; d <= 10; d++) add(d); for (int b = 4; b < 64; b++) { unsigned long long x = 1ull << b; if (b % 8 > 5 || b % 8 < 2) { add(x - 1); add(x); add(x + 1); } } pos.push_back(L::max()); hasmin = L::is_signed; }
        std::sort(pos.begin(), pos.end()); pos.erase(std::unique(pos.begin(), pos.end()), pos.end());
    }
    void add(unsigned long long d) { if (d <= (unsigned long long)std::numeric_limits<T>::max()) pos.push_back((T)d); }
    // the rank of this type nearest to the script's wish
    long long norm(long long r, bool mn) const {
        bool sg = std::numeric_limits<T>::is_signed;
        if (r == MINR && hasmin && mn) return MINR;
        long long k = (r < 0 ? -r : r) % (long long)pos.size();
        return r < 0 && sg ? -k : k;
    }
    T at(long long r) const { return r == MINR ? std::numeric_limits<T>::min() : r < 0 ? (T)-pos[-r] : pos[r]; }
    long long rank(T v) const {
        if (hasmin && v == std::numeric_limits<T>::min()) return MINR;
        for (size_t i = 0; i < pos.size(); i++) { if (pos[i] == v) return i; if (std::numeric_limits<T>::is_signed && (T)-pos[i] == v) return -(long long)i; }
        return 777777;
    }
};
template <class T> struct Cls {   // class types named by their int value
    long long norm(long long r, bool) const { return r; } T at(long long r) const { return T((int)r); } long long rank(const T &v) const { return val(v); }
};
template <class P> struct Pt {
    using E = typename std::remove_const<typename std::remove_pointer<P>::type>::type;
    static const int N = 24; E *a;
    Pt() { a = new E[N](); }
    long long norm(long long r, bool) const { return (r < 0 ? -r : r) % (N + 1); }
    P at(long long r) const { return r == 0 ? nullptr : (P)(a + r - 1); }
    long long rank(P p) const { return !p ? 0 : p >= a && p < a + N ? (p - a) + 1 : 777777; }
};
struct PtVoid {
    char a[24];
    long long norm(long long r, bool) const { return (r < 0 ? -r : r) % 25; }
    void *at(long long r) const { return r == 0 ? nullptr : (void *)(a + r - 1); }
    long long rank(void *p) const { return !p ? 0 : ((char *)p - a) + 1; }
};
// containers named by the single value (or the number of values) they hold
template <class C> struct Box {
    long long norm(long long r, bool) const { return r; }
    C at(long long r) const { C c; long long n = (r < 0 ? -r : r) % 5; c.push_back((int)r); for (long long i = 0; i < n; i++) c.push_back((int)i); return c; }
    long long rank(const C &c) const { VI v; for (auto it = c.begin(); it != c.end(); it++) v.push_back(val(*it)); if (v.empty()) return 0; long long r = v[0], n = (r < 0 ? -r : r) % 5; if ((long long)v.size() != n + 1 || (long long)c.size() != n + 1) return 777777; for (long long i = 0; i < n; i++) if (v[i + 1] != i) return 777777; return r; }
};
struct StrBox {
    long long norm(long long r, bool) const { return r; }
    D::String at(long long r) const { return D::String(std::to_string(r).c_str()); }
    long long rank(const D::String &s) const { return s.empty() ? 0 : atoll(s.c_str()); }
};
template <class C> struct TreeBox {
    long long norm(long long r, bool) const { return r < 0 ? -r : r; }
    C at(long long r) const { C c; for (long long i = 0; i < r; i++) c.push((int)(i * 7 % 101)); return c; }
    long long rank(const C &c) const { long long n = 0; int last = -1; for (auto it = c.begin(); it != c.end(); it++) { if (val(*it) <= last) return 777777; last = val(*it); n++; } return n == (long long)c.size() ? n : 777777; }
};
template <class C> struct HeapBox {
    long long norm(long long r, bool) const { return r < 0 ? -r : r; }
    C at(long long r) const { C c; for (long long i = 0; i < r; i++) c.push((int)(i * 7 % 101)); return c; }
    long long rank(const C &c) const { long long n = 0; for (auto it = c.begin(); it != c.end(); it++) n++; return n == (long long)c.size() && (n == 0 || val(c.top()) == 0) ? n : 777777; }
};

enum { ORD = 1, MX = 2, AB = 4, SW = 8 };
template <class T, class V, int K> struct HelpRunner : Runner {
    void run(const Trace &t) override {
        V v; T *reg[4];
        // a variable that was never set counts as rank 0
        if constexpr ((K & SW) != 0) for (int i = 1; i <= 3; i++) reg[i] = new T(v.at(0));
        auto all = [&](VI &r) { if constexpr ((K & SW) != 0) for (int i = 1; i <= 3; i++) r.push_back(v.rank(*reg[i])); };
        for (auto &l : t.ops) {
            VI a = l.a, r; bool ok = false;
            if constexpr ((K & ORD) != 0) if (l.op == "ord") {
                a[0] = v.norm(a[0], true); a[1] = v.norm(a[1], true); T x = v.at(a[0]), y = v.at(a[1]);
                dstruct::less<T> ls; dstruct::greater<T> gr; r = {ls(x, y) ? 1 : 0, gr(x, y) ? 1 : 0}; ok = true; }
            if constexpr ((K & MX) != 0) if (l.op == "max") { a[0] = v.norm(a[0], true); a[1] = v.norm(a[1], true); const T x = v.at(a[0]), y = v.at(a[1]); r = {v.rank(dstruct::max(x, y))}; ok = true; }
            if constexpr ((K & AB) != 0) if (l.op == "abs") { a[0] = v.norm(a[0], false); const T x = v.at(a[0]); r = {v.rank(dstruct::abs(x))}; ok = true; }
            if constexpr ((K & SW) != 0) {
                if (l.op == "set") { a[1] = v.norm(a[1], true); *reg[a[0]] = v.at(a[1]); all(r); ok = true; }
                if (l.op == "swap") { dstruct::swap(*reg[a[0]], *reg[a[1]]); all(r); ok = true; }
            }
            if (!ok) { Ev e("unsupported"); e.f("a", a).f("r", VI{}); e.end(); return; }
            Ev e(l.op.c_str()); e.f("a", a).f("r", r); e.end();
        }
        if constexpr ((K & SW) != 0) for (int i = 1; i <= 3; i++) delete reg[i];
    }
};
static std::map<std::string, Runner *> R;
template <class T> static void num(const char *n) { R[n] = new HelpRunner<T, Num<T>, ORD | MX | AB | SW>(); }
template <class P> static void ptr(const char *n) { R[n] = new HelpRunner<P, Pt<P>, ORD | SW>(); }
template <class T> static void cls(const char *n) { R[n] = new HelpRunner<T, Cls<T>, ORD | MX | SW>(); }
template <class C, class B> static void box(const char *n) { R[n] = new HelpRunner<C, B, SW>(); }
static void run(const Trace &t) { auto it = R.find(t.var); if (it == R.end()) { Ev e("unsupported"); e.f("a", VI{}).f("r", VI{}); e.end(); return; } it->second->run(t); }
int main(int argc, char **argv) {
    num<int>("n.int"); num<unsigned>("n.uint"); num<char>("n.char"); num<signed char>("n.schar"); num<unsigned char>("n.uchar"); num<short>("n.short");
    num<unsigned short>("n.ushort"); num<long>("n.long"); num<long long>("n.ll"); num<unsigned long long>("n.ull"); num<float>("n.float"); num<double>("n.double");
    ptr<int *>("p.int"); ptr<const int *>("p.cint"); ptr<char *>("p.char"); ptr<const char *>("p.cchar"); ptr<Tok *>("p.tok"); ptr<const Tok *>("p.ctok"); ptr<Big *>("p.big"); ptr<double *>("p.dbl"); ptr<int **>("p.pp");
    R["p.void"] = new HelpRunner<void *, PtVoid, ORD | SW>();
    cls<Tok>("c.tok"); cls<Big>("c.big");
    box<D::Vector<int>, Box<D::Vector<int>>>("b.vec"); box<D::Vector<Tok>, Box<D::Vector<Tok>>>("b.vect"); box<D::String, StrBox>("b.str"); box<D::Deque<int, 2>, Box<D::Deque<int, 2>>>("b.deq");
    box<D::SLinkedList<int>, Box<D::SLinkedList<int>>>("b.sll"); box<D::DLinkedList<Tok>, Box<D::DLinkedList<Tok>>>("b.dll");
    box<D::BSTree<int>, TreeBox<D::BSTree<int>>>("b.bst"); box<dstruct::AVLTree<int, dstruct::less<int>, D::Al>, TreeBox<dstruct::AVLTree<int, dstruct::less<int>, D::Al>>>("b.avl");
    box<D::MinHeap<int>, HeapBox<D::MinHeap<int>>>("b.heap");
    return run_all(argv[1], argv[2], run);
}
