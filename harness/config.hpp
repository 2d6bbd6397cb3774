// Which allocator the containers under test use: the default port (plain build, or ENABLE_SMA for the
// static port), the static-memory aliases (-DSM) or a recording allocator (-DLED).
#pragma once
#include "common.hpp"
#include "ledger.hpp"

#ifdef LED
namespace D {
using RA = H::RecAlloc;
template <class T> using Vector = dstruct::Vector<T, RA>;
using String = dstruct::BasicString<char, RA>;
template <class T> using SLinkedList = dstruct::SLinkedList<T, RA>;
template <class T> using DLinkedList = dstruct::DLinkedList<T, RA>;
template <class T> using Queue = dstruct::Queue<T, RA>;
template <class T, size_t N = 32> using Deque = dstruct::Deque<T, N, RA>;
template <class T> using PriorityQueue = dstruct::PriorityQueue<T, dstruct::less<T>, RA>;
template <class T> using Stack = dstruct::Stack<T, RA>;
template <class T> using MinStack = dstruct::MinStack<T, RA>;
template <class T> using MaxStack = dstruct::MaxStack<T, RA>;
template <class T> using MinHeap = dstruct::MinHeap<T, RA>;
template <class T> using MaxHeap = dstruct::MaxHeap<T, RA>;
template <class T> using BSTree = dstruct::BSTree<T, RA>;
using UFSet = dstruct::DisjointSet<RA>;
using Al = RA;
}
#elif defined(SM)
namespace D { using namespace dstruct::smemory; using Al = dstruct::smemory::SMA; }
#else
namespace D { using namespace dstruct; using Al = dstruct::Alloc; }
#endif

#if defined(SM)
using Pool = dstruct::smemory::SMA;
#define HAVE_POOL 1
#elif defined(ENABLE_SMA)
using Pool = dstruct::port::DefaultSMA;
#define HAVE_POOL 1
#endif

static long long g_pool0 = 0;
void H::child_start(const H::Trace &t) {
    char here; H::g_base = &here + 8192;
    H::g_kind = H::kind_no(t.kind);
#ifdef HAVE_POOL
    g_pool0 = Pool::free_mem_size();
    H::count_libc();
#endif
#if defined(LED) && !defined(COST)
    H::g_led = true;
    H::count_libc();
#endif
    H::g_mi.reserve(1 << 16);
}

static inline void op_begin() {
#ifdef SM
    // the static-memory namespace leaves merging to its user
    static unsigned n = 0; if (++n % 5 == 0) Pool::memory_merge();
#endif
    H::g_mi.clear(); H::g_libc = 0; for (int i = 0; i < 4; i++) H::g_k[i] = H::g_kx[i] = H::g_kmark[i] = 0; H::g_count = true; }
static inline void op_end() { H::g_count = false; H::step(); for (int i = 0; i < 4; i++) H::g_kend[i] = H::g_k[i]; }
// the closing fields of an operation event, and the pool event after it
static inline void op_emit(H::Ev &e) {
    if (H::g_led) e.f("mi", H::g_mi).f("libc", (long long)H::g_libc);
#ifdef COST
    e.f("k", H::VI(H::g_kend, H::g_kend + 4)).f("kx", H::VI(H::g_kx, H::g_kx + 4));
#endif
    e.end();
}
static inline void pool_emit(long long o, size_t esz) {
#ifdef HAVE_POOL
    H::Ev e("pool"); e.f("o", o).f("a", H::VI{}).f("libc", H::VI{(long long)H::g_libc}).f("used", H::VI{g_pool0 - (long long)Pool::free_mem_size()}).f("esz", (long long)esz); e.end();
#endif
    (void)o; (void)esz;
}
template <class C, class... A> static C *make(void *p, A &&...a) { return new (p) C(static_cast<A &&>(a)...); }

// fresh construction; containers with a stateful comparator are told their order
template <class C> struct Fresh { static C *at(void *p) { return new (p) C(); } };
template <class T, class Al> struct Fresh<dstruct::Heap<T, H::Dyn, Al>> { static dstruct::Heap<T, H::Dyn, Al> *at(void *p) { return new (p) dstruct::Heap<T, H::Dyn, Al>(H::Dyn(H::g_kind)); } };
template <class T, class St> struct Fresh<dstruct::stack::XValueStack<T, H::Dyn, St>> { static dstruct::stack::XValueStack<T, H::Dyn, St> *at(void *p) { return new (p) dstruct::stack::XValueStack<T, H::Dyn, St>(H::Dyn(H::g_kind)); } };
template <class T, class Al> struct Fresh<dstruct::tree::BinarySearchTree<T, H::Dyn, Al>> { static dstruct::tree::BinarySearchTree<T, H::Dyn, Al> *at(void *p) { return new (p) dstruct::tree::BinarySearchTree<T, H::Dyn, Al>(H::Dyn(H::g_kind)); } };
template <class T, class Al> struct Fresh<dstruct::AVLTree<T, H::Dyn, Al>> { static dstruct::AVLTree<T, H::Dyn, Al> *at(void *p) { return new (p) dstruct::AVLTree<T, H::Dyn, Al>(H::Dyn(H::g_kind)); } };

// storage of the container objects: one exact heap buffer per slot
template <class C> struct Slots {
    C *s[4] = {nullptr, nullptr, nullptr, nullptr}; void *b[4];
    Slots() { for (int i = 0; i < 4; i++) { b[i] = ::operator new(sizeof(C)); H::g_slot[i] = (char *)b[i]; } H::g_slotsz = sizeof(C); }
    ~Slots() { for (int i = 0; i < 4; i++) ::operator delete(b[i]); }
    C *&operator[](int o) { return s[o]; }
    void *mem(int o) { return b[o]; }
    void kill(int o) { if (s[o]) { C *p = s[o]; s[o] = nullptr; p->~C(); } }
};
// what a fresh object of this kind already contains (sentinels), so that contents can be counted
template <class C> static void base_event(Slots<C> &s, size_t esz, int per, int slack, bool fixed) {
    if (!H::g_led) return;
    size_t n = 0; { C *p = Fresh<C>::at(s.mem(0)); n = H::g_alive.size(); p->~C(); }
    H::g_mi.clear(); H::g_alive.clear();
    H::Ev e("base"); e.f("o", 1LL).f("a", H::VI{}).f("b", (long long)(fixed ? 0 : n)).f("esz", (long long)esz).f("per", (long long)per).f("x", (long long)slack).f("fix", (long long)fixed); e.end();
}
