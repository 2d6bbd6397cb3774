// Conformance driver for the ordered containers (OrdADT.tla): binary search tree, AVL tree, map.
#include <dstruct.hpp>
#include "config.hpp"
#ifdef ELX
#include "elx.hpp"
#endif
using namespace H;

static bool g_views = true;
static const int NS = 3;
struct Runner { virtual ~Runner() {} virtual void run(const Trace &t) = 0; };

template <class F> static void add(std::string &v, bool &first, const char *k, const F &x) {
    if (!first) v += ','; first = false; v += '"'; v += k; v += "\":"; Ev::arr(v, x);
}
enum { BST, AVL, MAP };

template <class T> static long long vval(const T &x) { return val(x); }
template <class T> static long long vval(const dstruct::AVLData_<T> &x) { return val(x.val); }

// access differs between a tree of plain keys and a map
template <class C, class T, int W> struct Acc {
    static long long key(const T &x) { return val(x); }
    template <class It> static long long itkey(const It &it) { return val(*it); }
    template <class It> static long long itval(const It &) { return 0; }
};
template <class C, class T> struct Acc<C, T, MAP> {
    template <class It> static long long itkey(const It &it) { return val(it->key); }
    template <class It> static long long itval(const It &it) { return val(it->value); }
};

template <class C, class T, int W, class V = T>
struct OrdRunner : Runner {
    using A_ = Acc<C, T, W>;
    Slots<C> s; VI ret; long long mask = 1; VI probes;
    using It = decltype(((const C *)0)->begin());
    It *held[4] = {nullptr, nullptr, nullptr, nullptr};
    const T *kptr[4] = {}; V *vptr[4] = {};      // and the addresses of its key and value
    void point(int h, const C &c) {
        if (*held[h] == c.end()) return;
        if constexpr (W == MAP) { kptr[h] = &(*held[h])->key; vptr[h] = const_cast<V *>(&(*held[h])->value); } else kptr[h] = &**held[h];
    }

    void view(int o) {
        if (!s[o]) return;
        g_mi.clear();
        C &c = *s[o]; const C &cc = c; const long long LIM = 100000;
        std::string v = "{"; bool first = true; Ev e("v"); e.f("o", o);
        add(v, first, "n", VI{(long long)cc.size()}); add(v, first, "e", VI{cc.empty() ? 1 : 0});
        add(v, first, "cap", VI{(long long)cc.capacity()});
        { VI x, y; for (auto it = cc.begin(); it != cc.end(); it++) { x.push_back(A_::itkey(it)); if (W == MAP) y.push_back(A_::itval(it)); if ((long long)x.size() > LIM) break; }
          add(v, first, "it", x); if (W == MAP) add(v, first, "cvals", y); }
        if (W == MAP) { VI x, y; for (auto it = c.begin(); it != c.end(); ++it) { x.push_back(A_::itkey(it)); y.push_back(A_::itval(it)); if ((long long)x.size() > LIM) break; } add(v, first, "cit", x); add(v, first, "vals", y); }
        { VI x; for (auto p : probes) { x.push_back(p); x.push_back(look(cc, p)); } add(v, first, "fnd", x); }
        if constexpr (W != MAP) {
            using TT = typename C::TraversalType;
            if (mask & 2) {
                auto it1 = [&](typename C::TraversalType t) { VI x; for (auto it = cc.begin(t); it != cc.end(t); ++it) { x.push_back(val(*it)); if ((long long)x.size() > LIM) break; } return x; };
                auto tr = [&](typename C::TraversalType t) { VI x; cc.traversal([&](const auto &d) { x.push_back(vval(d)); }, t); return x; };
                add(v, first, "pre", tr(C::PreOrder)); add(v, first, "in", tr(C::InOrder)); add(v, first, "post", tr(C::PostOrder));
                { VI x; cc.traversal([&](const auto &d) { x.push_back(vval(d)); }); add(v, first, "din", x); }
                add(v, first, "ipre", it1(C::PreOrder)); add(v, first, "iin", it1(C::InOrder)); add(v, first, "ipost", it1(C::PostOrder));
                { VI x; for (auto it = cc.begin(C::PreOrder); it != cc.end(C::PreOrder); it++) { x.push_back(val(*it)); if ((long long)x.size() > LIM) break; } add(v, first, "dpre", x); }
            }
            if constexpr (W == AVL) if (mask & 4) {
                if (!(mask & 2)) { VI x; cc.traversal([&](const auto &d) { x.push_back(vval(d)); }, C::PreOrder); add(v, first, "pre", x); }
                add(v, first, "bal", VI{1}); add(v, first, "h", VI{(long long)cc.height()});
            }
        }
        v += "}"; e.s += ",\"v\":" + v; op_emit(e);
    }
    long long look(const C &cc, long long p) {
        T k = mkv<T>(p); auto it = cc.find(k);
        return it != cc.end() ? A_::itkey(it) : -1;
    }
    void views() { for (int o = 1; o <= NS; o++) view(o); }
    void drop(int h) { delete held[h]; held[h] = nullptr; }
    void probe(long long k) { if (k < 0) return; for (auto p : probes) if (p == k) return; probes.push_back(k); if (probes.size() > 14) probes.erase(probes.begin()); }

    bool apply(const std::string &op, const VI &a) {
        int o = (int)a[0]; auto A = [&](int i) { return (int)a[i]; };
        if (op == "new") { s[o] = Fresh<C>::at(s.mem(o)); return true; }
        if (op == "del") { s.kill(o); return true; }
        if (op == "cc") { s[o] = new (s.mem(o)) C(*(const C *)s[A(1)]); return true; }
        if (op == "ca") { *s[o] = *(const C *)s[A(1)]; return true; }
        if (op == "mc") { s[o] = new (s.mem(o)) C(dstruct::move(*s[A(1)])); return true; }
        if (op == "ma") { *s[o] = dstruct::move(*s[A(1)]); return true; }
        if constexpr (W == BST) if (op == "newr") {
            bool cnt = g_count; g_count = false;
            dstruct::Vector<T> v; for (size_t i = 1; i < a.size(); i++) v.push_back(mkv<T>(a[i]));
            g_count = cnt;
            s[o] = Range<C>::at(s.mem(o), v);
            g_count = false; return true;
        }
        C &c = *s[o]; const C &cc = c;
        if (op == "clr") { c.clear(); return true; }
        // many insertions, removals or searches in a row: keys x, x + d, x + 2d, ... (the steps taken modulo m)
        if (op == "bins" || op == "brem" || op == "bfind") {
            for (long long i = 0; i < A(1); i++) {
                int x = A(2) + (int)wrap(i * A(3), A(4));
                if (op == "bins") { if constexpr (W == MAP) { if (i & 1) (void)c[mkv<T>(x)]; else if (cc.find(mkv<T>(x)) == cc.end()) c.push(typename C::KeyValueType(mkv<T>(x), mkv<V>(0))); } else if (W == BST || cc.find(mkv<T>(x)) == cc.end()) c.push(mkv<T>(x)); }
                else if (op == "brem") { if (i & 1) c.pop(mkv<T>(x)); else { auto it = cc.find(mkv<T>(x)); if (it != cc.end()) c.erase(it); } }
                else if (cc.find(mkv<T>(x)) != cc.end()) ret.push_back(x);
                H::step();
            }
            return true;
        }
        if constexpr (W == MAP) {
            using KV = typename C::KeyValueType;
            if (op == "ins") { c.push(KV(mkv<T>(A(1)), mkv<V>(a.size() > 2 ? A(2) : 0))); return true; }
            if (op == "put") { c[mkv<T>(A(1))] = mkv<V>(A(2)); return true; }
            if (op == "get") { ret.push_back(val(c[mkv<T>(A(1))])); return true; }
            if (op == "cget") { ret.push_back(val(cc[mkv<T>(A(1))])); return true; }
            if (op == "rem") { c.pop(mkv<T>(A(1))); return true; }
            if (op == "remown") { auto it = cc.find(mkv<T>(A(1))); c.pop(it->key); return true; }
            if (op == "putown") { auto it = cc.find(mkv<T>(A(1))); c[it->key] = mkv<V>(A(2)); return true; }
            if (op == "putval") { c[mkv<T>(A(1))] = cc[mkv<T>(A(2))]; return true; }
            if (op == "find") { auto it = cc.find(mkv<T>(A(1))); if (it != cc.end()) { ret.push_back(A_::itkey(it)); ret.push_back(A_::itval(it)); } return true; }
            if (op == "era") { auto it = cc.find(mkv<T>(A(1))); auto r = c.erase(it); if (r != c.end()) ret.push_back(A_::itkey(r)); return true; }
        } else {
            if (op == "ins" || op == "insdup") { c.push(mkv<T>(A(1))); return true; }
            if (op == "insown") { auto it = cc.find(mkv<T>(A(1))); c.push(*it); return true; }
            if (op == "rem") { c.pop(mkv<T>(A(1))); return true; }
            if (op == "remown") { auto it = cc.find(mkv<T>(A(1))); c.pop(*it); return true; }
            if (op == "find") { auto it = cc.find(mkv<T>(A(1))); if (it != cc.end()) { ret.push_back(val(*it)); ret.push_back(0); } return true; }
            if (op == "era") { auto it = cc.find(mkv<T>(A(1))); auto r = c.erase(it); if (r != cc.end()) ret.push_back(val(*r)); return true; }
        }
        // iterators the user keeps
        if (op == "hold") { int h = A(1); drop(h); held[h] = new It(cc.find(mkv<T>(A(2)))); point(h, cc); return true; }
        if (op == "at") { int h = A(1); ret.push_back(A_::itkey(*held[h])); ret.push_back(A_::itval(*held[h])); return true; }
        if (op == "rdr") { int h = A(1); ret.push_back(val(*kptr[h])); if constexpr (W == MAP) ret.push_back(val(*vptr[h])); else ret.push_back(0); return true; }
        if constexpr (W == MAP) if (op == "wrr") { int h = A(1); *vptr[h] = mkv<V>(A(2)); return true; }
        if (op == "step") { int h = A(1); ++*held[h]; point(h, cc); if (*held[h] != cc.end()) ret.push_back(A_::itkey(*held[h])); return true; }
        if (op == "erah") { int h = A(1); It r = c.erase(*held[h]); drop(h); held[h] = new It(r); point(h, cc); if (r != cc.end()) ret.push_back(A_::itkey(r)); return true; }
        return false;
    }
    template <class CC> struct Range { template <class VV> static CC *at(void *p, VV &v) { return new (p) CC(v.begin(), v.end()); } };
    template <class U, class Al> struct Range<dstruct::tree::BinarySearchTree<U, Dyn, Al>> { template <class VV> static dstruct::tree::BinarySearchTree<U, Dyn, Al> *at(void *p, VV &v) { return new (p) dstruct::tree::BinarySearchTree<U, Dyn, Al>(v.begin(), v.end(), Dyn(g_kind)); } };

    void run(const Trace &t) override {
        mask = t.m ? t.m : 1; ret.reserve(8);
        base_event(s, sizeof(T), W == MAP ? 2 : 1, 0, false);
        for (auto &l : t.ops) {
            if (l.op == "views") { g_views = l.a[0]; continue; }
            if (l.op == "view") { views(); continue; }
            ret.clear();
            if (l.op == "hold") probe(l.a[2]);
            else if (l.a.size() > 1 && l.op != "at" && l.op != "step" && l.op != "erah" && l.op != "rdr" && l.op != "wrr" && l.op != "cc" && l.op != "ca" && l.op != "mc" && l.op != "ma") { probe(l.a[1]); if (probes.size() < 12) probe(l.a[1] + 1); }
            op_begin();
            bool ok = apply(l.op, l.a);
            op_end();
            if (!ok) { Ev e("unsupported"); e.f("o", l.a[0]).f("a", VI{}); e.end(); return; }
            Ev e(l.op.c_str()); e.f("o", l.a[0]); e.f("a", VI(l.a.begin() + 1, l.a.end())); e.f("r", ret); op_emit(e);
            pool_emit(l.a[0], sizeof(T));
            if (g_views) views();
        }
        for (int h = 0; h < 4; h++) drop(h);
        for (int o = 1; o <= NS; o++) if (s[o]) { op_begin(); s.kill(o); op_end(); Ev e("del"); e.f("o", o); e.f("a", VI{}); e.f("r", VI{}); op_emit(e); pool_emit(o, sizeof(T)); }
    }
};

// the alias a user writes where there is one
template <class T, class CMP> struct BstSel { using type = dstruct::tree::BinarySearchTree<T, CMP, D::Al>; };
template <class T> struct BstSel<T, dstruct::less<T>> { using type = D::BSTree<T>; };
template <class T, class CMP> using Bst = typename BstSel<T, CMP>::type;
template <class T, class CMP> using Avl = dstruct::AVLTree<T, CMP, D::Al>;
#ifdef LED
template <class T, class CMP, class V = T> using Mp = dstruct::Map<T, V, CMP, dstruct::AVLTree<dstruct::KeyValue<const T, V>, dstruct::KVCMPKey<dstruct::KeyValue<const T, V>, CMP>, D::Al>>;
#else
template <class T, class CMP, class V = T> using Mp = dstruct::Map<T, V, CMP>;
#endif

template <class T, class CMP> static Runner *pick2(const std::string &n) {
#if FAM & 1
    if (n == "bst") return new OrdRunner<Bst<T, CMP>, T, BST>();
#endif
#ifndef SM
#if FAM & 2
    if (n == "avl") return new OrdRunner<Avl<T, CMP>, T, AVL>();
#endif
#if FAM & 4
    if (n == "map") return new OrdRunner<Mp<T, CMP>, T, MAP>();
#endif
#endif
    return nullptr;
}
template <class T> static Runner *pick(const std::string &n, int k) {
#if FAM & 1
    if (n == "bstd") return new OrdRunner<Bst<T, Dyn>, T, BST>();
#endif
#ifndef SM
#if FAM & 2
    if (n == "avld") return new OrdRunner<Avl<T, Dyn>, T, AVL>();
#endif
#endif
    if (k == 2) return pick2<T, dstruct::greater<T>>(n);
    if (k == 3) return pick2<T, ByUnits>(n);
    return pick2<T, dstruct::less<T>>(n);
}
template <class T, class V> static Runner *mapkv(int k) {
    if (k == 2) return new OrdRunner<Mp<T, dstruct::greater<T>, V>, T, MAP, V>();
    if (k == 3) return new OrdRunner<Mp<T, ByUnits, V>, T, MAP, V>();
    return new OrdRunner<Mp<T, dstruct::less<T>, V>, T, MAP, V>();
}
static void run(const Trace &t) {
    std::string n = t.var, el = "int"; size_t d = n.find('.');
    if (d != std::string::npos) { el = n.substr(d + 1); n = n.substr(0, d); }
    Runner *r = nullptr; int k = kind_no(t.kind);
#ifdef LED
    r = pick<Led>(n, k);
#elif defined(ELX)
    if (el == "nest") r = pick<Nest>(n, k);
#ifndef NESTONLY
    else if (el == "self") r = pick<Selfp>(n, k);
    else if (el == "ptr") r = pick<Ptr>(n, k);
    else if (el == "chr") r = pick<unsigned char>(n, k);
    else if (el == "dbl") r = pick<double>(n, k);
#endif
#ifndef SM
    // maps whose key and value types differ; the order of string keys is the user's
#if FAM & 1
    else if (el == "str" && n == "bst") { if (k == 2) r = new OrdRunner<Bst<Str, StrGreater>, Str, BST>(); else r = new OrdRunner<Bst<Str, StrLess>, Str, BST>(); }
#endif
#if FAM & 2
    else if (el == "str" && n == "avl") { if (k == 2) r = new OrdRunner<Avl<Str, StrGreater>, Str, AVL>(); else r = new OrdRunner<Avl<Str, StrLess>, Str, AVL>(); }
#endif
#if FAM & 4
    else if (el == "shortnest") r = mapkv<short, Nest>(k);
#ifndef NESTONLY
    else if (el == "nestchr") r = mapkv<Nest, unsigned char>(k);
    else if (el == "chrself") r = mapkv<unsigned char, Selfp>(k);
    else if (el == "dblptr") r = mapkv<double, Ptr>(k);
#endif
    else if (el == "ptrstr") r = mapkv<Ptr, Str>(k);
    else if (el == "strdbl") { if (k == 2) r = new OrdRunner<Mp<Str, StrGreater, double>, Str, MAP, double>(); else r = new OrdRunner<Mp<Str, StrLess, double>, Str, MAP, double>(); }
#endif
#endif
#else
    if (el == "int") r = pick<int>(n, k);
#ifndef INTONLY
    else if (el == "tok") r = pick<Tok>(n, k);
#endif
#endif
    if (!r) { Ev e("novariant"); e.f("o", 1).f("a", VI{}); e.end(); return; }
    r->run(t);
    delete r;
}
int main(int argc, char **argv) { return run_all(argv[1], argv[2], run); }
