// Conformance driver for intrusive links: rings and chains (LinkADT.tla), tree rotations (RotADT.tla).
#include <dstruct.hpp>
#include "config.hpp"
using namespace H;
static const int NN = 8;
struct Runner { virtual ~Runner() {} virtual void run(const Trace &t) = 0; };
static const unsigned char JUNK = 0xA5;

// how a variant reaches its links: bare links, or the links inside an embedded list node
template <class L> struct Bare {
    using Link = L; using Node = L;
    static L *link(Node *n) { return n; } static Node *node(L *l) { return l; }
    static void init(Node *n) { L::init(n); } static bool empty(Node *n) { return L::empty(n); }
    static void add(Node *p, Node *c) { L::add(p, c); } static void del(Node *p, Node *c) { L::del(p, c); }
    static Node *make(int) { return new L(); } static VI data(Node *) { return {}; }
};
template <class N, class T> struct Embed {
    using Link = typename N::LinkType; using Node = N;
    static Link *link(Node *n) { return N::to_link(n); } static Node *node(Link *l) { return N::to_node(l); }
    static void init(Node *n) { N::init(n); } static bool empty(Node *n) { return N::empty(n); }
    static void add(Node *p, Node *c) { N::add(p, c); } static void del(Node *p, Node *c) { N::del(p, c); }
    static Node *make(int i) { return new N{Link(), T(10 * i)}; } static VI data(Node *n) { return {val(n->data)}; }
};
template <class A, bool DBL> struct RingRunner : Runner {
    typename A::Node *n[NN + 1];
    long long id(const void *p) { if (!p) return 0; for (int i = 1; i <= NN; i++) if ((const void *)A::link(n[i]) == p) return i; return -1; }
    void run(const Trace &t) override {
        for (int i = 1; i <= NN; i++) { n[i] = A::make(i); memset((void *)A::link(n[i]), JUNK, sizeof(typename A::Link)); }
        for (auto &l : t.ops) {
            VI r; const VI &a = l.a;
            if (l.op == "init") A::init(n[a[0]]);
            else if (l.op == "zero") { A::link(n[a[0]])->next = nullptr; if constexpr (DBL) A::link(n[a[0]])->prev = nullptr; }
            else if (l.op == "add") A::add(n[a[0]], n[a[1]]);
            else if (l.op == "del") A::del(n[a[0]], n[a[1]]);
            else if (l.op == "empty") r.push_back(A::empty(n[a[0]]) ? 1 : 0);
            else { Ev e("unsupported"); e.f("a", a).f("r", VI{}); e.end(); return; }
            VI nx, pv, d, cv;
            for (int i = 1; i <= NN; i++) {
                nx.push_back(id(A::link(n[i])->next)); if constexpr (DBL) pv.push_back(id(A::link(n[i])->prev));
                for (auto x : A::data(n[i])) d.push_back(x);
                typename A::Node *b = A::node(A::link(n[i])); long long k = -1; for (int j = 1; j <= NN; j++) if (n[j] == b) k = j; cv.push_back(k);
            }
            Ev e(l.op.c_str()); e.f("a", a).f("r", r);
            std::string v = "{\"nx\":"; Ev::arr(v, nx); v += ",\"pv\":"; Ev::arr(v, pv); v += ",\"d\":"; Ev::arr(v, d); v += ",\"conv\":"; Ev::arr(v, cv); v += "}";
            e.s += ",\"v\":" + v; e.end();
        }
    }
};

namespace tr = dstruct::tree;
template <class T> struct RotRunner : Runner {
    using Node = tr::EmbeddedBinaryTreeNode<T>; using Link = tr::BinaryTreeLink_;
    Node *n[NN + 1]; Link *root = nullptr;
    long long id(const void *p) { if (!p) return 0; for (int i = 1; i <= NN; i++) if ((const void *)Node::to_link(n[i]) == p) return i; return -1; }
    Link *at(long long i) { return Node::to_link(n[i]); }
    void hook(Link *p, Link *x, Link *nw) { if (!p) root = nw; else if (p->left == x) p->left = nw; else p->right = nw; }
    static long long rd(int v) { return v; }
    static long long rd(const Link *) { return 0; }
    void run(const Trace &t) override {
        for (int i = 1; i <= NN; i++) n[i] = new Node(T(10 * i));
        for (auto &l : t.ops) {
            VI r; const VI &a = l.a; int fresh = 0;
            if (l.op == "root") { root = at(a[0]); *root = Link(); }
            else if (l.op == "al") { *at(a[1]) = Link(); at(a[0])->left = at(a[1]); at(a[1])->parent = at(a[0]); }
            else if (l.op == "ar") { *at(a[1]) = Link(); at(a[0])->right = at(a[1]); at(a[1])->parent = at(a[0]); }
            else if (l.op == "cut") { hook(at(a[0])->parent, at(a[0]), nullptr); memset((void *)at(a[0]), JUNK, sizeof(Link)); }
            else if (l.op == "lrot") { Link *x = at(a[0]), *p = x->parent, *w = tr::left_rotate(x); hook(p, x, w); r.push_back(id(w)); }
            else if (l.op == "rrot") { Link *x = at(a[0]), *p = x->parent, *w = tr::right_rotate(x); hook(p, x, w); r.push_back(id(w)); }
            else { Ev e("unsupported"); e.f("a", a).f("r", VI{}); e.end(); return; }
            view(l.op, a, r);
        }
    }
    void view(const std::string &op, const VI &a, const VI &r) {
        VI L, R_, P, hs, d, cv, dc, in, pre, post, nin, npre, npost;
        std::set<Link *> live; std::vector<Link *> st; if (root) st.push_back(root);
        while (!st.empty() && live.size() <= NN) { Link *x = st.back(); st.pop_back(); if (id(x) <= 0 || !live.insert(x).second) { live.clear(); live.insert(nullptr); break; } if (x->right) st.push_back(x->right); if (x->left) st.push_back(x->left); }
        bool sane = !live.count(nullptr);
        for (int i = 1; i <= NN; i++) {
            Link *x = at(i); bool lv = sane && live.count(x);
            L.push_back(id(x->left)); R_.push_back(id(x->right)); P.push_back(id(x->parent)); hs.push_back(lv ? tr::height(x) : 0);
            d.push_back(val(n[i]->data));
            Node *b = Node::to_node(x), *b2 = Node::to_node(Node::data_to_link(&n[i]->data)); long long k = -1, k2 = -1;
            for (int j = 1; j <= NN; j++) { if (n[j] == b) k = j; if (n[j] == b2) k2 = j; } cv.push_back(k); dc.push_back(k2);
        }
        long long h = -1;
        if (sane) {
            h = tr::height(root);
            auto c1 = [&](Link *x) { in.push_back(id(x)); }; auto c2 = [&](Link *x) { pre.push_back(id(x)); }; auto c3 = [&](Link *x) { post.push_back(id(x)); };
            tr::inorder_traversal(root, c1); tr::preorder_traversal(root, c2); tr::postorder_traversal(root, c3);
            Link *lm = root, *pf = root;
            while (lm && lm->left) lm = lm->left;
            while (pf && (pf->left || pf->right)) pf = pf->left ? pf->left : pf->right;
            for (Link *x = root; x && npre.size() <= NN; x = tr::next_preorder(x)) npre.push_back(id(x));
            for (Link *x = lm; x && nin.size() <= NN; x = tr::next_inorder(x)) nin.push_back(id(x));
            for (Link *x = pf; x && npost.size() <= NN; x = tr::next_postorder(x)) npost.push_back(id(x));
        }
        Ev e(op.c_str()); e.f("a", a).f("r", r);
        std::string v = "{\"root\":" + std::to_string(id(root)) + ",\"h\":" + std::to_string(h);
        auto add = [&](const char *k, const VI &x) { v += std::string(",\"") + k + "\":"; Ev::arr(v, x); };
        add("L", L); add("R", R_); add("P", P); add("hs", hs); add("d", d); add("conv", cv); add("dconv", dc);
        add("in", in); add("pre", pre); add("post", post); add("nin", nin); add("npre", npre); add("npost", npost);
        e.s += ",\"v\":" + v + "}"; e.end();
    }
};
static std::map<std::string, Runner *> R;
template <class T> static void types(const std::string &s) {
    R["ns." + s] = new RingRunner<Embed<dstruct::EListNode<T, dstruct::SinglyLink_>, T>, false>();
    R["nd." + s] = new RingRunner<Embed<dstruct::EListNode<T, dstruct::DoublyLink_>, T>, true>();
    R["tr." + s] = new RotRunner<T>();
}
static void run(const Trace &t) { auto it = R.find(t.var); if (it == R.end()) { Ev e("unsupported"); e.f("a", VI{}).f("r", VI{}); e.end(); return; } it->second->run(t); }
int main(int argc, char **argv) {
    R["ls"] = new RingRunner<Bare<dstruct::SinglyLink_>, false>(); R["ld"] = new RingRunner<Bare<dstruct::DoublyLink_>, true>();
    types<int>("int"); types<Tok>("tok"); types<Big>("big"); types<long long>("ll");
    return run_all(argv[1], argv[2], run);
}
