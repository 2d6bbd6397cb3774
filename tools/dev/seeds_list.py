SEEDS = []
def S(id, prop, edits, needs, what, demo, **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, what=what, demo=demo, **k))
V = "core/ds/array/Vector.hpp"; STR = "core/ds/string/BasicString.hpp"; DQ = "core/ds/queue/DoubleEndedQueue.hpp"
DLL = "core/ds/linked-list/DoublyLinkedList.hpp"; SLL = "core/ds/linked-list/SinglyLinkedList.hpp"; LL = "core/ds/linked-list/LinkedList.hpp"
EL = "core/ds/linked-list/EmbeddedList.hpp"; HP = "core/ds/Heap.hpp"; AVL = "core/ds/tree/AVLTree.hpp"; BST = "core/ds/tree/BinarySearchTree.hpp"
BT = "core/ds/tree/BinaryTree.hpp"; EBT = "core/ds/tree/EmbeddedBinaryTree.hpp"; UF = "core/ds/set/DisjointSet.hpp"; SMA = "memory/StaticMemAllocator.hpp"
ARR = "core/ds/array/Array.hpp"; UT = "core/utils.hpp"; XS = "core/ds/stack/XValueStack.hpp"; MAP = "core/ds/Map.hpp"; PORT = "port/static-memory/sma-dstruct-port.hpp"
IT = "core/Iterator.hpp"; ALG = "core/algorithm.hpp"; BSB = "core/ds/tree/BinarySearchTreeBase.hpp"

S("vec-const-negative", "C01", [(V, "index = mSize_d + index;", "index = mCapacity_d + index;", 1)],
  "negative index through a const vector whose capacity is larger than its size", "const v[-1] reads past the last element",
  '''#include <dstruct.hpp>
int main() { dstruct::Vector<int> v; for (int i = 0; i < 5; i++) v.push_back(i + 10);
  const dstruct::Vector<int> &c = v; CHECK(c[-1] == 14); CHECK(c[-5] == 10); return 0; }''')
S("str-compare-last", "C02", [(STR, "for (int i = 0; i < s1.size(); i++) {", "for (int i = 0; i + 1 < s1.size(); i++) {")],
  "two strings of equal length that differ only in the last character", "they compare equal",
  '''#include <dstruct.hpp>
int main() { dstruct::String a("abc"), b("abd"), c("abc"); CHECK(a == c); CHECK(!(a == b)); CHECK(a != b); return 0; }''')
S("str-push-alias", "C25", [(STR, "mCharList_d[-1] = element;\n        mCharList_d.push_back('\\0');", "mCharList_d.push_back('\\0');\n        mCharList_d[-2] = element;")],
  "push_back of the string's own character exactly when the buffer is full", "reads the released buffer",
  '''#include <dstruct.hpp>
int main() { dstruct::String s("h"); for (int i = 0; i < 40; i++) { s.push_back(s[0]); CHECK(s[-2] == 'h'); } return 0; }''')
S("dll-move-links", "C17", [(DLL, "mHeadNode_d.link.next->prev = headLinkPtr;", "")],
  "move a list, then walk backwards past its first node or pop it from the back", "the first node still links to the moved-from list",
  '''#include <dstruct.hpp>
int main() { dstruct::DLinkedList<int> a; a.push_back(1); a.push_back(2);
  dstruct::DLinkedList<int> b(dstruct::move(a)); b.pop_back(); b.pop_back(); CHECK(b.empty()); CHECK(a.empty());
  a.push_back(7); CHECK(a.front() == 7 && a.back() == 7 && a.size() == 1); b.push_back(3); CHECK(b.front() == 3 && b.back() == 3); return 0; }''')
S("sll-clear-tail", "C03", [(SLL, "List_::_clear();\n        mTailNodePtr_d = &mHeadNode_d;", "List_::_clear();")],
  "push_back after clear", "the tail still points to a released node",
  '''#include <dstruct.hpp>
int main() { dstruct::SLinkedList<int> l; l.push_back(1); l.push_back(2); l.clear(); l.push_back(3);
  CHECK(l.size() == 1 && l.front() == 3 && l.back() == 3); return 0; }''')
S("sll-popback-tail", "C03", [(SLL, "mTailNodePtr_d->link.next = Node_::to_link(&mHeadNode_d);\n    }\n\nprotected:", "mTailNodePtr_d->link.next = this->mSize_d ? Node_::to_link(&mHeadNode_d) : nullptr;\n    }\n\nprotected:")],
  "_pop_back of the only element, then use of the empty list", "the emptied list is no ring any more",
  '''#include <dstruct.hpp>
int main() { dstruct::SLinkedList<int> l; l.push_back(1); l._pop_back(); CHECK(l.empty()); int n = 0; for (auto it = l.begin(); it != l.end(); it++) n++; CHECK(n == 0);
  l.push_back(2); CHECK(l.front() == 2); for (auto it = l.begin(); it != l.end(); it++) n++; CHECK(n == 1); return 0; }''')
S("deque-resize-ceil", "C04", [(DQ, "size_t newArrStartIndex = ((n - mSize_d) / 2) / ARR_SIZE;", "size_t newArrStartIndex = ((n - mSize_d) / 2 + ARR_SIZE - 1) / ARR_SIZE;")],
  "elements popped from the front so that the begin is inside a block when push_back reaches the end of the table", "the grown block table is left through its end",
  '''#include <dstruct.hpp>
int main() { for (int p = 0; p < 12; p++) { dstruct::Deque<int, 4> d; for (int i = 0; i < 200; i++) { d.push_back(i); if (i % 12 < p && d.size() > 2) d.pop_front(); 
   CHECK(d.back() == i); } int x = d.front(); for (auto it = d.begin(); it != d.end(); it++) CHECK(*it == x++); CHECK(x == 200);
   dstruct::Deque<int, 4> e; for (int i = 0; i < p; i++) e.push_front(-i); for (int i = 0; i < 50; i++) { e.push_back(i); CHECK(e.back() == i); } }
  return 0; }''')
S("deque-move-capacity", "C17", [(DQ, "ds.mSize_d = ds.mCapacity_d = 0;", "ds.mSize_d = 0;")],
  "use of a deque after its contents were moved away", "the source believes it still owns blocks",
  '''#include <dstruct.hpp>
int main() { dstruct::Deque<int, 4> a; for (int i = 0; i < 5; i++) a.push_back(i); dstruct::Deque<int, 4> b(dstruct::move(a));
  CHECK(a.empty()); CHECK(b.size() == 5 && b.back() == 4); a.push_back(9); CHECK(a.size() == 1 && a.front() == 9); return 0; }''')
S("heap-build-last-parent", "C07", [(HP, "for (int i = (mHeap_d.size() - 1) / 2; i >= 1; i--) {", "for (int i = (mHeap_d.size() - 2) / 2; i >= 1; i--) {")],
  "a range of even length whose last element belongs above its parent", "heap built from a range is not a heap; sort is wrong",
  '''#include <dstruct.hpp>
int main() { for (int n = 1; n <= 9; n++) for (int r = 0; r < n; r++) { dstruct::Vector<int> v; for (int i = 0; i < n; i++) v.push_back((n - i + r) % n);
  dstruct::MinHeap<int>::sort(v.begin(), v.end()); for (int i = 0; i < n; i++) CHECK(v[i] == i); } return 0; }''')
S("heap-copy-cmp", "C16", [(HP, "mCmp_d = hep.mCmp_d;\n        mHeap_d = hep.mHeap_d;", "mHeap_d = hep.mHeap_d;")],
  "a heap with a stateful comparator that is copied and then used", "the copy orders by the default comparator",
  '''#include <dstruct.hpp>
struct C { int s; C(int s = 1) : s(s) {} bool operator()(int a, int b) const { return a * s < b * s; } };
int main() { dstruct::Heap<int, C> a(C(-1)); for (int i = 1; i < 8; i++) a.push(i); CHECK(a.top() == 7); dstruct::Heap<int, C> b(C(1)); b = a; b.push(9); CHECK(b.top() == 9);
  b.pop(); CHECK(b.top() == 7); dstruct::Heap<int, C> c(a); c.pop(); CHECK(c.top() == 6); return 0; }''')
S("bst-delete-parent", "C08", [(BST, "if (subTree)\n            subTree->parent = linkPtr->parent;", "if (subTree && linkPtr->parent == nullptr)\n            subTree->parent = nullptr;")],
  "deleting an inner node with one child, then iterating or erasing through that child", "the child keeps a link to the released node",
  '''#include <dstruct.hpp>
int main() { dstruct::BSTree<int> t; int a[] = {50, 20, 30, 40, 60}; for (int x : a) t.push(x); t.pop(20); int e[] = {30, 40, 50, 60}, n = 0;
  for (auto it = t.begin(); it != t.end(); it++) { CHECK(n < 4 && *it == e[n]); n++; } CHECK(n == 4); return 0; }''')
S("bst-find-default-cmp", "C08", [(BST, "BinarySearchTreeBase<T, CMP>::_find(Node_::to_link(BinaryTree_e::mRootPtr_d), obj, mCmp_d);", "BinarySearchTreeBase<T, CMP>::_find(Node_::to_link(BinaryTree_e::mRootPtr_d), obj);")],
  "a tree whose comparator carries state", "find searches with a default comparator",
  '''#include <dstruct.hpp>
struct C { int s; C(int s = 1) : s(s) {} bool operator()(int a, int b) const { return a * s < b * s; } };
int main() { dstruct::tree::BinarySearchTree<int, C, dstruct::Alloc> t(C(-1)); for (int x : {4, 2, 6, 1, 3}) t.push(x); for (int x : {4, 2, 6, 1, 3}) CHECK(t.find(x) != t.end()); CHECK(t.find(9) == t.end()); return 0; }''')
S("avl-double-on-even", "C10", [(AVL, "if (_balance_factor(root->left) < 0) {", "if (_balance_factor(root->left) <= 0) {")],
  "a deletion on the right of a node whose left child is evenly balanced", "a double rotation is applied where a single one is due",
  '''#include <dstruct.hpp>
using T = dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc>;
struct P : T { bool ok(decltype(std::declval<Node_>().link) *l, int &h) { if (!l) { h = 0; return true; } int a, b; if (!ok(l->left, a) || !ok(l->right, b)) return false; h = (a > b ? a : b) + 1; return a - b <= 1 && b - a <= 1; }
  bool bal() { int h; bool r = ok(mRootPtr_d ? &mRootPtr_d->link : nullptr, h); return r && h == height(); } };
int main() { for (int m = 0; m < 4000; m++) { srand(m); P t; std::vector<int> in; for (int i = 0; i < 24; i++) { int x = rand() % 40; if (t.find(x) == t.end()) t.push(x); else t.pop(x); CHECK(t.bal()); } } return 0; }''')
S("avl-height-stop", "C10", [(AVL, "_update_height(parent);\n            } else if (newRoot != root) {", "if (newRoot == root) _update_height(parent);\n            } else if (newRoot != root) {")],
  "erase by iterator that rotates below the root", "heights above the rotation stay stale",
  '''#include <dstruct.hpp>
using T = dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc>;
struct P : T { bool ok(decltype(std::declval<Node_>().link) *l, int &h) { if (!l) { h = 0; return true; } int a, b; if (!ok(l->left, a) || !ok(l->right, b)) return false; h = (a > b ? a : b) + 1; return a - b <= 1 && b - a <= 1; }
  bool bal() { int h; bool r = ok(mRootPtr_d ? &mRootPtr_d->link : nullptr, h); return r && h == height(); } };
int main() { for (int m = 0; m < 2000; m++) { srand(m); P t; for (int i = 0; i < 30; i++) { int x = rand() % 20; auto it = t.find(x); if (it == t.end()) t.push(x); else t.erase(it); CHECK(t.bal()); } } return 0; }''')
S("sma-exact-fit", "C14", [(SMA, "if (targetMemBlockPtr->data >= bytes)", "if (targetMemBlockPtr->data > bytes)")],
  "a request exactly as large as the only big free block", "it is refused although the memory is free",
  '''#include <dstruct-static.hpp>
#include <port/dstruct-port.h>
int main() { using A = dstruct::StaticMemAllocator<1024>; void *p = A::allocate(1024); CHECK(p); CHECK(A::deallocate(p, 1024)); CHECK(A::allocate(512)); CHECK(A::allocate(512)); return 0; }''')
S("sma-merge-step", "C15", [(SMA, "mbPtr->link.next = next->link.next;\n            } else {\n                mbPtr = next;\n            }", "mbPtr->link.next = next->link.next;\n            }\n            mbPtr = MemBlock_e::to_node(mbPtr->link.next);")],
  "three or more neighbouring free blocks in the pool list", "only pairs are joined",
  '''#include <dstruct-static.hpp>
#include <port/dstruct-port.h>
int main() { using A = dstruct::StaticMemAllocator<2048>; void *p[8]; for (int i = 0; i < 8; i++) CHECK(p[i] = A::allocate(256)); for (int i = 0; i < 8; i++) A::deallocate(p[i], 256);
  A::memory_merge(); CHECK(A::max_free_mblock_size() == 2048); return 0; }''')
S("vec-resize-destroy", "C18", [(V, "if (i < n) // TODO: use move by check type-tag\n                    dstruct::construct(mC_d + i, oldC[i]);\n                dstruct::destroy(oldC + i);", "if (i >= n) break; // TODO: use move by check type-tag\n                dstruct::construct(mC_d + i, oldC[i]);\n                dstruct::destroy(oldC + i);", 1)],
  "resize to fewer elements than the vector holds", "the dropped elements are never destroyed",
  '''#include <dstruct.hpp>
static int live = 0; struct X { int v; X(int v = 0) : v(v) { live++; } X(const X &o) : v(o.v) { live++; } ~X() { live--; } };
int main() { { dstruct::Vector<X> v; for (int i = 0; i < 6; i++) v.push_back(X(i)); v.resize(3); CHECK(v.size() == 3); CHECK(live == 3); } CHECK(live == 0); return 0; }''')
S("vec-dealloc-size", "C19", [(V, "Vector::Alloc_::deallocate(mC_d, mCapacity_d);", "Vector::Alloc_::deallocate(mC_d, mSize_d);")],
  "an allocator that needs the size back, and a vector with spare capacity", "less memory is returned than was obtained",
  '''#include <dstruct.hpp>
static int bal = 0; struct A { static void *allocate(int n) { bal += n; return malloc(n); } static void deallocate(void *p, int n) { bal -= n; free(p); } };
int main() { { dstruct::Vector<int, A> v; for (int i = 0; i < 5; i++) v.push_back(i); } CHECK(bal == 0); return 0; }''')
S("vec-fill-dealloc-size", "C19", [(V, "Vector::Alloc_::deallocate(oldC, mCapacity_d);", "Vector::Alloc_::deallocate(oldC, n);", 2)],
  "resize(n, value) of a non-empty vector to another capacity", "the old buffer is returned with the new size",
  '''#include <dstruct.hpp>
static int bal = 0; struct A { static void *allocate(int n) { bal += n; return malloc(n); } static void deallocate(void *p, int n) { bal -= n; free(p); } };
int main() { { dstruct::Vector<int, A> v; v.push_back(1); v.resize(7, 3); CHECK(v.size() == 7); } CHECK(bal == 0); return 0; }''')
S("port-no-merge", "C20", [(PORT, "DefaultSMA::memory_merge();", "// merged on demand by the application")],
  "the pool is fragmented into small blocks when a large request arrives", "the port fails although merging would satisfy it",
  '''#define ENABLE_SMA
#include <dstruct.hpp>
int main() { std::vector<void*> p; for (int i = 0; i < 1024; i++) p.push_back(dstruct::Alloc::allocate(1024)); for (int i = 0; i < 1024; i++) dstruct::Alloc::deallocate(p[i], 1024);
  void *q = dstruct::Alloc::allocate(512 * 1024); CHECK(q); dstruct::Vector<int> v; for (int i = 0; i < 20000; i++) v.push_back(i); CHECK(v.size() == 20000); return 0; }''', flags="-O0")
S("preorder-climb", "C21", [(EBT, "while (link->parent != nullptr) {\n        if (link->parent->right != nullptr && link->parent->right != link) {", "for (int hop = 0; link->parent != nullptr && hop < 2; hop++) {\n        if (link->parent->right != nullptr && link->parent->right != link) {")],
  "a left subtree ending three or more levels below the node whose right subtree follows", "pre-order iteration ends early",
  '''#include <dstruct.hpp>
int main() { dstruct::BSTree<int> t; int a[] = {50, 40, 30, 20, 60}; for (int x : a) t.push(x); int n = 0; using T = dstruct::BSTree<int>; for (auto it = t.begin(T::TraversalType::PreOrder); it != t.end(T::TraversalType::PreOrder); it++) { CHECK(n < 5 && *it == a[n]); n++; } CHECK(n == 5); return 0; }''')
S("dll-postdec", "C22", [(DLL, "auto oldLinkPtr = mLinkPtr_d;\n        _sync(mLinkPtr_d->prev);\n        return oldLinkPtr;", "_sync(mLinkPtr_d->prev);\n        return mLinkPtr_d;")],
  "the value of it-- on a doubly linked list", "the new position is returned instead of the old",
  '''#include <dstruct.hpp>
int main() { dstruct::DLinkedList<int> l; for (int i = 0; i < 3; i++) l.push_back(i); auto it = l.begin(); it++; auto o = it--; CHECK(*o == 1); CHECK(*it == 0); return 0; }''')
S("array-negative-full", "C23", [(ARR, "if (index < 0)\n            index = N + index;", "if (index < 0 && -index < (int)N)\n            index = N + index;", 1)],
  "index -N on a const array", "it reads before the first element",
  '''#include <dstruct.hpp>
int main() { dstruct::Array<int, 4> a(1); a[0] = 7; const dstruct::Array<int, 4> &c = a; CHECK(c[-1] == 1); CHECK(c[-4] == 7); return 0; }''')
S("rrotate-parent", "C24", [(EBT, "if (nullptr != newRoot->right) {\n        newRoot->right->parent = root;\n    }", "")],
  "a right rotation whose pivot has a right subtree", "that subtree keeps its old parent link",
  '''#include <dstruct.hpp>
int main() { using L = dstruct::tree::BinaryTreeLink_; L a, b, c; a.left = &b; b.parent = &a; b.right = &c; c.parent = &b; L *r = dstruct::tree::right_rotate(&a); CHECK(r == &b && b.right == &a && a.left == &c); CHECK(c.parent == &a); return 0; }''')
S("xstack-push-order", "C25", [(XS, "        mStack_d.push(val);\n", ""), (XS, "    void push(const T &val) {\n", "    void push(const T &val) {\n        mStack_d.push(val);\n")],
  "pushing an element of the stack itself that is a new extreme, exactly when the storage grows", "the extreme is taken from released storage",
  '''#include <dstruct.hpp>
int main() { dstruct::MinStack<int> s; s.push(5); for (int i = 0; i < 40; i++) { s.push(*s.begin()); CHECK(s.getXValue() == 5 && s.top() == 5); } return 0; }''')
S("less-null-order", "C26", [(UT, "if (b == nullptr) return false;\n        if (a == nullptr) return true;\n        return a < b;", "if (a == nullptr) return true;\n        if (b == nullptr) return false;\n        return a < b;")],
  "comparing two null pointers", "a null pointer is less than itself",
  '''#include <dstruct.hpp>
int main() { dstruct::less<int*> l; int x; int *n = nullptr; CHECK(!l(n, n)); CHECK(l(n, &x)); CHECK(!l(&x, n)); return 0; }''')
S("bst-erase-two", "C08", [(BST, "auto next = it; it++; // get next node", "it++; auto next = it; // get next node")],
  "erase by iterator of a node with two children", "the iterator returned refers to a released node",
  '''#include <dstruct.hpp>
int main() { dstruct::BSTree<int> t; for (int x : {50, 20, 70, 60, 80}) t.push(x); auto it = t.erase(t.find(50)); CHECK(it != t.end()); CHECK(*it == 60); it++; CHECK(*it == 70); return 0; }''')
S("bst-move-size", "C17", [(BST, "ds.mRootPtr_d = nullptr;\n        ds.mSize_d = 0;", "ds.mRootPtr_d = nullptr;")],
  "size of a search tree whose contents were moved away", "an emptied tree reports elements",
  '''#include <dstruct.hpp>
int main() { dstruct::BSTree<int> a; a.push(1); a.push(2); dstruct::BSTree<int> b(dstruct::move(a)); CHECK(b.size() == 2); CHECK(a.empty() && a.size() == 0); a.push(3); CHECK(a.size() == 1); return 0; }''')
S("deque-end-block-leak", "C19", [(DQ, "if (i < oldArrStartIndex || oldArrEndIndex < i) {\n                //dstruct::destroy", "if (i < oldArrStartIndex || oldArrEndIndex + 1 < i) {\n                //dstruct::destroy")],
  "growth of a deque towards the front while a spare block lies behind its end", "the spare block is lost",
  '''#include <dstruct.hpp>
static int bal = 0; struct A { static void *allocate(int n) { bal += n; return malloc(n); } static void deallocate(void *p, int n) { bal -= n; free(p); } };
int main() { { dstruct::DoubleEndedQueue<int, 4, A> d; for (int i = 0; i < 40; i++) d.push_front(i); for (int i = 0; i < 40; i++) CHECK(d[i] == 39 - i); } CHECK(bal == 0); return 0; }''')

S("vec-shrink-pow2", "C01", [(V, "resize(mCapacity_d / 2);", "size_t c = 2; while (2 * c <= mCapacity_d / 2) c *= 2;\n            resize(c);")],
  "a vector whose capacity (set by resize or the fill constructor) is 30 or 31, popped down to a third", "shrinking to a power of two drops live elements",
  '''#include <dstruct.hpp>
int main() { for (int c = 1; c < 70; c++) { dstruct::Vector<int> v(c, 1); for (int i = 0; i < c; i++) v[i] = i; while (!v.empty()) { int n = v.size(); CHECK(v.back() == n - 1); v.pop_back(); CHECK((int)v.size() == n - 1); } } return 0; }''')
S("avl-swap-adjacent-left", "C09", [(AVL, "if (aLeft) aLeft->parent = b;   // 6", "if (aLeft && aLeft->left) aLeft->parent = b;   // 6")],
  "popping a node whose successor is its right child and whose left child is a leaf (or has only a right child), then iterating", "the left child keeps a link to the released node",
  '''#include <dstruct.hpp>
int main() { for (int k = 1; k <= 15; k++) { dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t; for (int i = 1; i <= 15; i++) t.push(i); t.pop(k); int p = 0, n = 0;
  for (auto it = t.begin(); it != t.end(); it++) { CHECK(*it > p); p = *it; n++; CHECK(n <= 14); } CHECK(n == 14); } return 0; }''')
S("uf-find-grandparent", "C12", [(UF, "return mArray_d[index] = find(mArray_d[index]);", "if (mArray_d[mArray_d[index]] >= 0)\n            mArray_d[index] = mArray_d[mArray_d[index]];\n        return mArray_d[index];")],
  "an element three links away from its representative (needs eight elements joined pairwise)", "find returns an element that is not the representative",
  '''#include <dstruct.hpp>
int main() { dstruct::UFSet s(16); for (int w = 1; w < 16; w *= 2) for (int i = 0; i < 16; i += 2 * w) s.union_set(s.find(i), s.find(i + w)); for (int i = 15; i >= 0; i--) CHECK(s.connected(0, i)); CHECK(s.count() == 1); return 0; }''')
S("sma-insert-one-step", "C15", [(SMA, "while (freeMemLinkPtr->next != nullptr && addr > freeMemLinkPtr->next) {\n            freeMemLinkPtr = freeMemLinkPtr->next;\n        }", "if (freeMemLinkPtr->next != nullptr && addr > freeMemLinkPtr->next) {\n            freeMemLinkPtr = freeMemLinkPtr->next;\n        }")],
  "three or more free blocks in one list, released in ascending order, then merged", "the list is unordered and neighbours are not joined",
  '''#include <dstruct-static.hpp>
#include <port/dstruct-port.h>
int main() { using A = dstruct::StaticMemAllocator<2048>; void *p[8]; for (int i = 0; i < 8; i++) CHECK(p[i] = A::allocate(256)); for (int i : {0, 2, 4, 6, 1, 3, 5, 7}) A::deallocate(p[i], 256);
  A::memory_merge(); CHECK(A::free_mem_size() == 2048); CHECK(A::max_free_mblock_size() == 2048); return 0; }''')
S("sma-free-unrounded", "C14", [(SMA, "mFreeMemSize_d += MEM_ALIGN_ROUND_UP(bytes);", "mFreeMemSize_d += bytes;")],
  "releasing a block whose size is no multiple of the alignment unit", "the free size no longer equals the free memory",
  '''#include <dstruct-static.hpp>
#include <port/dstruct-port.h>
int main() { using A = dstruct::StaticMemAllocator<1024>; void *p = A::allocate(13); CHECK(A::free_mem_size() == 1024 - 16); A::deallocate(p, 13); CHECK(A::free_mem_size() == 1024); return 0; }''')
S("sma-near-fit", "C13", [(SMA, "if (targetMemBlockPtr->data >= bytes)", "if (targetMemBlockPtr->data + SMA_MEM_ALIGN >= bytes)")],
  "a big request while a free block exactly one unit too small precedes in the pool list", "the block handed out overlaps its live neighbour",
  '''#include <dstruct-static.hpp>
#include <port/dstruct-port.h>
int main() { using A = dstruct::StaticMemAllocator<1024>; char *p = (char *)A::allocate(200), *q = (char *)A::allocate(200); A::deallocate(p, 200); char *r = (char *)A::allocate(208); CHECK(r); CHECK(r + 208 <= q || q + 200 <= r); return 0; }''')
S("xstack-cmp-ctor", "C06", [(XS, "XValueStack(const Compare &cmp) : mCmp_d { cmp } { }", "XValueStack(const Compare &cmp) : mCmp_d { } { }")],
  "an extreme-value stack built with a comparator object that carries state", "the stack orders by a default comparator",
  '''#include <dstruct.hpp>
struct C { int s; C(int s = 1) : s(s) {} bool operator()(int a, int b) const { return a * s < b * s; } };
int main() { dstruct::stack::XValueStack<int, C> s(C(-1)); for (int x : {3, 9, 4}) s.push(x); CHECK(s.getXValue() == 9); s.pop(); s.pop(); CHECK(s.getXValue() == 3); return 0; }''')
S("xstack-move-cmp", "C17", [(XS, "        mCmp_d =  dstruct::move(ds.mCmp_d);\n", "")],
  "moving an extreme-value stack whose comparator carries state", "the target keeps its own comparator",
  '''#include <dstruct.hpp>
struct C { int s; C(int s = 1) : s(s) {} bool operator()(int a, int b) const { return a * s < b * s; } };
int main() { dstruct::stack::XValueStack<int, C> s(C(-1)); for (int x : {3, 9, 4}) s.push(x); dstruct::stack::XValueStack<int, C> t(dstruct::move(s)); t.push(10); CHECK(t.getXValue() == 10); t.pop(); CHECK(t.getXValue() == 9); return 0; }''')

S("queue-index-window", "C05", [("core/ds/queue/Queue.hpp", "return mDS_d[index];", "return mDS_d[index < 0 ? index + static_cast<int>(mDS_d.size()) : index % 32];")],
  "operator[] of a queue at an index beyond one storage block", "it reads the element of the first block",
  '''#include <dstruct.hpp>
int main() { dstruct::Queue<int> q; for (int i = 0; i < 70; i++) q.push(i); q.pop(); for (int i = 0; i < 69; i++) { CHECK(q[i] == i + 1); CHECK(q[i - 69] == i + 1); } return 0; }''')

S("avl-erase-root-rotate", "C11", [(AVL, "} else if (newRoot != root) {\n                BinaryTree_e::_update_root(newRoot);\n            }", "}")],
  "an erase by iterator that makes the root rotate", "the map keeps the old root and loses every key above it",
  '''#include <dstruct.hpp>
#include <core/ds/Map.hpp>
int main() { for (int k = 1; k <= 7; k++) { dstruct::Map<int, int> m; for (int i : {4, 2, 5, 1, 3}) m[i] = i * 10; auto it = m.find(5); m.erase(it); int n = 0; for (auto i = m.begin(); i != m.end(); i++) n++; CHECK(n == 4); for (int i = 1; i < 5; i++) CHECK(m.find(i) != m.end()); } return 0; }''')

# ---- C27 (stability), C28 (memory)
S("avl-pop-copies", "C27", [(AVL, "_swap_node(root, target);\n                root->right = _delete(root->right, obj); // retry",
  "const T next(Node_::to_node(target)->data.val);\n                root->right = _delete(root->right, next);\n                dstruct::destroy(&(nPtr->data.val));\n                dstruct::construct(&(nPtr->data.val), next);")],
  "a reference or iterator held on the successor of an element with two children, which is then removed by value", "the successor's node is released instead of the removed element's",
  '''#include <dstruct.hpp>
int main() { dstruct::AVLTree<int, dstruct::less<int>, dstruct::Alloc> t; for (int x : {4, 2, 6, 1, 3, 5, 7}) t.push(x); auto it = t.find(5); const int *p = &*it; CHECK(*p == 5);
  t.pop(4); CHECK(*p == 5); CHECK(*it == 5); ++it; CHECK(*it == 6); auto f = t.find(5); CHECK(*f == 5 && &*f == p); return 0; }''')
S("dll-move-one", "C27", [(DLL, "        // move list data\n        List_::operator=(dstruct::move(ds));",
  "        if (ds.size() == 1 && !this->empty()) { // one element: keep our own node list\n            clear();\n            push_back(ds.back());\n            ds.clear();\n            return *this;\n        }\n        // move list data\n        List_::operator=(dstruct::move(ds));")],
  "move assignment of a list of exactly one element onto a non-empty list while an iterator on that element is held", "the element is copied, the held iterator is left on a released node",
  '''#include <dstruct.hpp>
int main() { dstruct::DLinkedList<int> a, b; a.push_back(1); a.push_back(2); b.push_back(9); auto it = b.begin(); a = dstruct::move(b); CHECK(*it == 9); *it = 8; CHECK(a.front() == 8 && a.size() == 1 && b.empty()); return 0; }''')
S("sll-popfront-copies", "C27", [(LL, "        // 2. del target node\n        Node_::LinkType::del(Node_::to_link(&mHeadNode_d), lPtr);",
  "        if (mSize_d > 4 && sizeof(T) <= sizeof(void *)) { // small: move up the value, so that the head keeps its node\n            auto second = lPtr->next;\n            Node_::to_node(lPtr)->data = Node_::to_node(second)->data;\n            Node_::LinkType::del(lPtr, second);\n            lPtr = second;\n        } else\n        // 2. del target node\n        Node_::LinkType::del(Node_::to_link(&mHeadNode_d), lPtr);")],
  "an iterator held on the second element of a list of five or more small elements when the first is popped", "the second element's node is released and the first one's is reused for it",
  '''#include <dstruct.hpp>
int main() { dstruct::DLinkedList<int> a; for (int i = 0; i < 6; i++) a.push_back(i); auto it = a.begin(); ++it; a.pop_front(); CHECK(*it == 1); CHECK(a.front() == 1);
  --it; CHECK(it == a.end()); return 0; }''')
S("deque-move-copies", "C27", [(DQ, "        _only_clear();\n\n        // move\n        mSize_d = ds.mSize_d;",
  "        _only_clear();\n\n        if (ds.mSize_d && ds.mCapacity_d > MIN_MAP_TABLE_SIZE * ARR_SIZE && ds.mSize_d <= ARR_SIZE) { // few elements in a large table\n            for (auto &obj : ds) push_back(obj);\n            ds._only_clear();\n            return *this;\n        }\n\n        // move\n        mSize_d = ds.mSize_d;")],
  "a pointer held on an element of a deque that has grown, shrunk to few elements, and is then moved", "the element is copied; the pointer is left in a released block",
  '''#include <dstruct.hpp>
int main() { for (int n = 4; n < 40; n++) { dstruct::Deque<int, 4> d; for (int i = 0; i < n; i++) d.push_back(i); while (d.size() > 3) d.pop_front();
  const int *p = &*d.begin(); int x = *p; dstruct::Deque<int, 4> e(dstruct::move(d)); CHECK(*p == x); CHECK(e.front() == x && &*e.begin() == p); } return 0; }''')
S("vec-shrink-small-only", "C28", [(V, "        if (mSize_d < mCapacity_d / 3) {\n            resize(mCapacity_d / 2);", "        if (mSize_d < mCapacity_d / 3 && (mSize_d & (mSize_d - 1)) == 0 && mSize_d > 16) {\n            resize(mCapacity_d / 2);")],
  "a vector that grew large and is popped down to a few elements", "it keeps a multiple of the storage its elements need",
  '''#include <dstruct.hpp>
int main() { dstruct::Vector<int> v; for (int i = 0; i < 4000; i++) v.push_back(i); for (int i = 0; i < 3999; i++) v.pop_back(); CHECK(v.size() == 1 && v[0] == 0);
  CHECK(v.capacity() <= 16); return 0; }''')
S("deque-shrink-back-only", "C28", [(DQ, "        dstruct::destroy(&(*(mBegin_d)));\n        mBegin_d++;\n        mSize_d--;\n        if (mSize_d <= mCapacity_d / 3 &&", "        dstruct::destroy(&(*(mBegin_d)));\n        mBegin_d++;\n        mSize_d--;\n        if (mSize_d == 0 &&")],
  "a deque that grew large and is drained from the front to one element", "its table and blocks are kept",
  '''#include <dstruct.hpp>
int main() { dstruct::Deque<int, 4> d; for (int i = 0; i < 4000; i++) d.push_back(i); while (d.size() > 1) d.pop_front(); CHECK(d.front() == 3999);
  CHECK(d.capacity() <= 512); return 0; }''')
S("vec-grow-eight", "C28", [(V, "resize(2 * mSize_d);", "resize((mSize_d >= 256 ? 24 : 2) * mSize_d);")],
  "a vector that grows past 256 elements", "each growth multiplies the storage by twenty-four",
  '''#include <dstruct.hpp>
int main() { dstruct::Vector<int> v; for (int i = 0; i < 300; i++) { v.push_back(i); CHECK(v.capacity() <= 8 * (size_t)(i + 1)); } return 0; }''')

CNT = """struct E { int v; static long n; E(int x = 0) : v(x) {} E(const E &o) : v(o.v) { n++; } E &operator=(const E &o) { v = o.v; n++; return *this; }
  bool operator<(const E &o) const { cmp++; return v < o.v; } bool operator>(const E &o) const { cmp++; return v > o.v; } bool operator==(const E &o) const { return v == o.v; } static long cmp; };
long E::n = 0, E::cmp = 0;
"""
S("vec-shrink-at-half", "C29", [(V, "        if (mSize_d < mCapacity_d / 3) {", "        if (mSize_d < mCapacity_d / 2) {")],
  "two removals and two insertions in turn on a vector that has just grown", "every other operation copies all elements",
  '''#include <dstruct.hpp>
''' + CNT + '''int main() { dstruct::Vector<E> v; for (int i = 0; i < 1025; i++) v.push_back(i); long a = E::n;
  for (int i = 0; i < 500; i++) { v.pop_back(); v.pop_back(); v.push_back(1); v.push_back(2); } CHECK(E::n - a < 40000); CHECK(v.size() == 1025); return 0; }''')
S("vec-grow-step", "C29", [(V, "resize(2 * mSize_d);", "resize(mSize_d < 512 ? 2 * mSize_d : mSize_d + 128);")],
  "a vector that grows well past 512 elements", "growth copies everything each 128 insertions",
  '''#include <dstruct.hpp>
''' + CNT + '''int main() { dstruct::Vector<E> v; for (int i = 0; i < 20000; i++) v.push_back(i); CHECK(v.size() == 20000); CHECK(E::n < 400000); return 0; }''')
S("heap-pop-rebuild", "C29", [(HP, "        mHeap_d.pop_back();\n        _adjust_down(1);", "        mHeap_d.pop_back();\n        int last = mHeap_d.size() - 1; // a complete level is left: settle all of it\n        for (int i = last > 256 && (last & (last + 1)) == 0 ? last / 2 : 1; i >= 1; i--)\n            _adjust_down(i);")],
  "a push and a pop in turn at a size where the last level is complete", "the whole heap is sifted again on each such pop",
  '''#include <dstruct.hpp>
''' + CNT + '''int main() { dstruct::MinHeap<E> h; for (int i = 0; i < 5000; i++) h.push(i);
  while (!h.empty()) { long a = E::cmp; h.pop(); CHECK(E::cmp - a < 200); } return 0; }''')
