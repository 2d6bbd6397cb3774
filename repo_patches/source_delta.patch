From 1387788e49b6097534c0d9e98d7017c9bd34d8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 01/33] fix: Vector copy must not destroy elements that were
 never constructed

---
 core/ds/array/Vector.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index 5032e34..c13bb38 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -36,7 +36,6 @@ public: // big five
         resize(ds.mCapacity_d);
         mSize_d = ds.mSize_d;
         for (int i = 0; i < mSize_d; i++) {
-            dstruct::destroy(mC_d + i);
             dstruct::construct(mC_d + i, ds.mC_d[i]);
         }
         return *this;
-- 
2.43.0


From 978e7f7597c82da63e67145620c88540c8112770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 02/33] fix: Vector push_back/resize must accept a reference to
 an own element

---
 core/ds/array/Vector.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/ds/array/Vector.hpp b/core/ds/array/Vector.hpp
index c13bb38..4ade85f 100644
--- a/core/ds/array/Vector.hpp
+++ b/core/ds/array/Vector.hpp
@@ -96,12 +96,15 @@ public: // Modifiers
 
     void push_back(ConstReferenceType element) {
         if (mSize_d + 1 > mCapacity_d) {
+            const ValueType obj(element); // element may be in the storage released by resize
             if (mSize_d)
                 resize(2 * mSize_d);
             else
                 resize(2);
+            dstruct::construct(mC_d + mSize_d, obj);
+        } else {
+            dstruct::construct(mC_d + mSize_d, element);
         }
-        dstruct::construct(mC_d + mSize_d, element);
         mSize_d++;
     }
 
@@ -190,6 +193,11 @@ public:
         PointerType oldC = mC_d;
         mC_d = Vector::Alloc_::allocate(n);
 
+        // set (before release: element may be in the old storage)
+        for (int i = mSize_d; i < n; i++) {
+            dstruct::construct(mC_d + i, element);
+        }
+
         // release
         if (oldC) {
             for (int i = 0; i < mSize_d; i++) {
@@ -200,11 +208,6 @@ public:
             Vector::Alloc_::deallocate(oldC, mCapacity_d);
         }
 
-        // set
-        for (int i = mSize_d; i < n; i++) {
-            dstruct::construct(mC_d + i, element);
-        }
-
         mCapacity_d = mSize_d = n;
     }
 
-- 
2.43.0


From 540899a40d2175ca1391c0c7025f27449a4ed81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 03/33] fix: BasicString must not read past an empty C string

---
 core/ds/string/BasicString.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index 0fcf118..cfca4f9 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -38,6 +38,7 @@ public:
     }
 
     BasicString(const char *str) : BasicString() {
+        if (*str == '\0') return;
         mCharList_d[-1] = *str;
         while (*(++str) != '\0') {
             mCharList_d.push_back(*str);
-- 
2.43.0


From 8645809ad32aeefff22016f02a2c5647de95f857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 04/33] fix: appending a BasicString to itself must terminate
 and double it

---
 core/ds/string/BasicString.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index cfca4f9..1041cfa 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -118,6 +118,8 @@ public:
     }
 
     BasicString & operator+=(const BasicString &str) {
+        if (this == &str)
+            return *this += BasicString(str);
         if (mCharList_d.capacity() < mCharList_d.size() + str.mCharList_d.size() - 1)
             mCharList_d.resize(mCharList_d.size() + str.mCharList_d.size() - 1);
         mCharList_d[-1] = str[0];
-- 
2.43.0


From 3b0fc43b5956a071e2c1916793de312d2c4a0baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 05/33] fix: a moved-from BasicString must be a valid empty
 string

---
 core/ds/string/BasicString.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/string/BasicString.hpp b/core/ds/string/BasicString.hpp
index 1041cfa..a56382a 100644
--- a/core/ds/string/BasicString.hpp
+++ b/core/ds/string/BasicString.hpp
@@ -34,6 +34,7 @@ public:
 
     DSTRUCT_MOVE_SEMANTICS(BasicString) {
         mCharList_d = dstruct::move(ds.mCharList_d);
+        ds.clear(); // keep ds a valid (empty, terminated) string
         return *this;
     }
 
-- 
2.43.0


From 701cb3c7d22c7dff91d4111bd6aee3f3c48ed0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 06/33] fix: SinglyLinkedList push/pop must maintain the tail

---
 core/ds/linked-list/SinglyLinkedList.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 66cf9b2..bb420f5 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -116,12 +116,20 @@ public:
         mTailNodePtr_d = nPtr;
     }
 
+    void push(const T &obj) {
+        push_front(obj);
+    }
+
     void push_front(const T &obj) {
         List_::push_front(obj);
         if (mSize_d == 1)
             mTailNodePtr_d = Node_::to_node(mHeadNode_d.link.next);
     }
 
+    void pop() {
+        pop_front();
+    }
+
     void pop_front() {
         List_::pop_front();
         if (mSize_d == 0)
-- 
2.43.0


From 8fbc3fdf7d3831d8c88fc611296ac12f797a1ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 07/33] fix: SinglyLinkedList copy must copy every element and
 keep its own tail

---
 core/ds/linked-list/SinglyLinkedList.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index bb420f5..0fe2b94 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -77,10 +77,9 @@ public: // big five
                 push_back(nodePtr->data);
                 linkPtr = nextLinkPtr;
                 nextLinkPtr = nextLinkPtr->next;
-                auto nodePtr = Node_::to_node(linkPtr);
+                nodePtr = Node_::to_node(linkPtr);
             }
             push_back(nodePtr->data);
-            mTailNodePtr_d = nodePtr;
         }
         return *this;
     }
-- 
2.43.0


From 0c7b96d39efa50a98b37e90881027b3e40450c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 08/33] fix: moving an empty linked list must not tie it to the
 source's head node

---
 core/ds/linked-list/LinkedList.hpp       | 2 ++
 core/ds/linked-list/SinglyLinkedList.hpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ds/linked-list/LinkedList.hpp b/core/ds/linked-list/LinkedList.hpp
index 6bff19b..7de3927 100644
--- a/core/ds/linked-list/LinkedList.hpp
+++ b/core/ds/linked-list/LinkedList.hpp
@@ -49,6 +49,8 @@ public: // big five
         // 2.only move data
         LinkedList_::mHeadNode_d = ds.mHeadNode_d;
         LinkedList_::mSize_d = ds.mSize_d;
+        if (mSize_d == 0) // no data nodes: don't keep links to ds's headNode
+            Node_::init(&mHeadNode_d);
         // 3.spec move impl in subclass
         // 4.reset
         Node_::init(&(ds.mHeadNode_d));
diff --git a/core/ds/linked-list/SinglyLinkedList.hpp b/core/ds/linked-list/SinglyLinkedList.hpp
index 0fe2b94..2b402bd 100644
--- a/core/ds/linked-list/SinglyLinkedList.hpp
+++ b/core/ds/linked-list/SinglyLinkedList.hpp
@@ -87,7 +87,7 @@ public: // big five
     DSTRUCT_MOVE_SEMANTICS(SinglyLinkedList) {
         // move list
         List_::operator=(dstruct::move(ds));
-        mTailNodePtr_d = ds.mTailNodePtr_d;
+        mTailNodePtr_d = mSize_d == 0 ? &mHeadNode_d : ds.mTailNodePtr_d;
         mTailNodePtr_d->link.next = Node_::to_link(&mHeadNode_d);
         // reset
         ds.mTailNodePtr_d = &(ds.mHeadNode_d);
-- 
2.43.0


From b639d6bdb15e459000f3052dec0ba5c581217a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 09/33] fix: a moved DoubleEndedQueue must use its own block
 table

---
 core/ds/queue/DoubleEndedQueue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index d94b131..09c86ed 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -192,6 +192,7 @@ public:
         mArrMapTable_d = dstruct::move(ds.mArrMapTable_d);
         mBegin_d = dstruct::move(ds.mBegin_d);
         mEnd_d = dstruct::move(ds.mEnd_d);
+        mBegin_d.mArrMapTablePtr_d = mEnd_d.mArrMapTablePtr_d = &mArrMapTable_d;
 
         // reset ds
         ds.mSize_d = ds.mCapacity_d = 0;
-- 
2.43.0


From 38a2b05076d7fee325c34e3d0de34f6431c7fc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 10/33] fix: a fresh or cleared DoubleEndedQueue must iterate
 over nothing

---
 core/ds/queue/DoubleEndedQueue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 09c86ed..7bef1f3 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -31,7 +31,7 @@ private:
     using Self = DoubleEndedQueueIterator_;
 
 protected: // only for DoubleEndedQueue
-    DoubleEndedQueueIterator_() : mArrMapTablePtr_d { nullptr } { }
+    DoubleEndedQueueIterator_() : mCurrMapIndex_d { 0 }, mCurr_d { nullptr }, mArrMapTablePtr_d { nullptr } { _sync(); }
 
 public:
     DoubleEndedQueueIterator_(
@@ -324,7 +324,7 @@ protected:
             // reset
             mSize_d = mCapacity_d = 0;
             mArrMapTable_d.clear();
-            //mBegin_d = mEnd_d = nullptr;
+            mBegin_d = mEnd_d = typename DoubleEndedQueue::IteratorType();
         }
     }
 
-- 
2.43.0


From 58680ea19c096a4762f5e50b65c9996eee19077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 11/33] fix: DoubleEndedQueue must not construct block elements
 it never destroys

---
 core/ds/queue/DoubleEndedQueue.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 7bef1f3..6511604 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -338,8 +338,7 @@ protected:
         mArrMapTable_d.resize(MIN_MAP_TABLE_SIZE, nullptr);
         // alloc arr and fill map-table
         for (int i = 0; i < MIN_MAP_TABLE_SIZE; i++) {
-            mArrMapTable_d[i] = AllocArray_::allocate();
-            dstruct::construct(mArrMapTable_d[i], Array_());
+            mArrMapTable_d[i] = AllocArray_::allocate(); // raw: elements are constructed by push
         }
         auto midMapIndex = MIN_MAP_TABLE_SIZE / 2;
         mBegin_d = mEnd_d = decltype(mBegin_d)(midMapIndex, 0, &mArrMapTable_d);
@@ -376,8 +375,7 @@ protected:
         // build new map table
         for (int i = 0; i < newMapTableSize ; i++) {
             if (i < newArrStartIndex || newArrEndIndex < i) {
-                mArrMapTable_d[i] = AllocArray_::allocate();
-                dstruct::construct(mArrMapTable_d[i], Array_());
+                mArrMapTable_d[i] = AllocArray_::allocate(); // raw: elements are constructed by push
             } else {
                 mArrMapTable_d[i] = oldArrMapTable[oldArrStartIndex + (i - newArrStartIndex)];
             }
-- 
2.43.0


From 638b256e99291f3e9011ff7e09c5add5a0977e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 12/33] fix: DoubleEndedQueue must work with, and take all
 memory from, its own allocator

---
 core/ds/queue/DoubleEndedQueue.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 6511604..7a20b8c 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -20,13 +20,13 @@ namespace dstruct {
 template <typename T, size_t ARR_SIZE, typename Alloc = dstruct::Alloc>
 class DoubleEndedQueue;
 
-template <typename T, size_t ARR_SIZE>
+template <typename T, size_t ARR_SIZE, typename Alloc = dstruct::Alloc>
 class DoubleEndedQueueIterator_ : public DStructIteratorTypeSpec<T, RandomIterator> {
-    friend class DoubleEndedQueue<T, ARR_SIZE, dstruct::Alloc>;
-    friend class DoubleEndedQueueIterator_<const T, ARR_SIZE>; // for it -> const-it
+    friend class DoubleEndedQueue<T, ARR_SIZE, Alloc>;
+    friend class DoubleEndedQueueIterator_<const T, ARR_SIZE, Alloc>; // for it -> const-it
 protected:
     using Array_         = dstruct::Array<T, ARR_SIZE>;
-    using ArrMapTable_   = dstruct::Vector<Array_ *>;
+    using ArrMapTable_   = dstruct::Vector<Array_ *, Alloc>;
 private:
     using Self = DoubleEndedQueueIterator_;
 
@@ -75,7 +75,7 @@ public:
 
     // for it -> const-it
     DoubleEndedQueueIterator_(
-        const DoubleEndedQueueIterator_<typename RemoveConst<T>::Type, ARR_SIZE> &obj,
+        const DoubleEndedQueueIterator_<typename RemoveConst<T>::Type, ARR_SIZE, Alloc> &obj,
         bool _unsedFlag // constructor dispatch flag
     ) : DoubleEndedQueueIterator_() {
 
@@ -157,12 +157,12 @@ protected:
  
 template <typename T, size_t ARR_SIZE, typename Alloc>
 class DoubleEndedQueue :
-    public DStructTypeSpec<T, Alloc, DoubleEndedQueueIterator_<T, ARR_SIZE>, DoubleEndedQueueIterator_<const T, ARR_SIZE>> {
+    public DStructTypeSpec<T, Alloc, DoubleEndedQueueIterator_<T, ARR_SIZE, Alloc>, DoubleEndedQueueIterator_<const T, ARR_SIZE, Alloc>> {
 
 protected:
     using Array_         = Array<T, ARR_SIZE>;
     using AllocArray_    = dstruct::AllocSpec<Array_, Alloc>;
-    using ArrMapTable_   = Vector<Array_ *>;
+    using ArrMapTable_   = Vector<Array_ *, Alloc>;
 /*
     struct Block_ {
         typename ArrMapTable_::IteratorType arr; // point to Array
-- 
2.43.0


From da91e04f91a1506c8e0290f41308c34e1e45e646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 13/33] fix: MinStack/MaxStack must keep repeated extremes and
 iterate only over held values

---
 core/ds/stack/XValueStack.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/core/ds/stack/XValueStack.hpp b/core/ds/stack/XValueStack.hpp
index 4d1a174..a277d38 100644
--- a/core/ds/stack/XValueStack.hpp
+++ b/core/ds/stack/XValueStack.hpp
@@ -28,14 +28,14 @@ public:
     XValueStack(const Compare &cmp) : mCmp_d { cmp } { }
 
     DSTRUCT_COPY_SEMANTICS(XValueStack) {
-        this->mXValue_d = ds.mXValue_d;
+        this->mXStack_d = ds.mXStack_d;
         this->mCmp_d = ds.mCmp_d;
         this->mStack_d = ds.mStack_d;
         return *this;
     }
 
     DSTRUCT_MOVE_SEMANTICS(XValueStack) {
-        mXValue_d = dstruct::move(ds.mXValue_d);
+        mXStack_d = dstruct::move(ds.mXStack_d);
         mCmp_d =  dstruct::move(ds.mCmp_d);
         mStack_d =  dstruct::move(ds.mStack_d);
         return *this;
@@ -48,26 +48,27 @@ public:
 
     T top() const { return mStack_d.top(); }
 
-    T getXValue() const { return mXValue_d; }
+    T getXValue() const { return mXStack_d.top(); }
 
     void push(const T &val) {
-        if (mStack_d.empty() || mCmp_d(val, mXValue_d)) {
-            mStack_d.push(mXValue_d); // save XValue
-            mXValue_d = val;
+        // a value not worse than the current extreme(equal included) is the new extreme
+        if (mXStack_d.empty() || !mCmp_d(mXStack_d.top(), val)) {
+            mXStack_d.push(val);
         }
         mStack_d.push(val);
     }
 
     void pop() {
         T data = mStack_d.top(); mStack_d.pop();
-        if (mXValue_d == data) {
-            mXValue_d = mStack_d.top(); mStack_d.pop();
+        if (!mCmp_d(mXStack_d.top(), data)) { // data is the current extreme
+            mXStack_d.pop();
         }
         // return dstruct::move(data);
     }
 
     void clear() {
         mStack_d.clear();
+        mXStack_d.clear();
     }
 
     // Iterator/range-for
@@ -75,9 +76,9 @@ public:
     ConstIteratorType end() const { return mStack_d.end(); }
 
 protected:
-    T mXValue_d;
     Compare mCmp_d;
     StackType mStack_d;
+    StackType mXStack_d; // the extremes of all prefixes of mStack_d, current one on top
 };
 
 }
-- 
2.43.0


From 50644ff96c53cf6a7174c49ea2dcef8ada5fe724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 14/33] fix: DisjointSet must ignore links inside one set and
 link roots by rank

---
 core/ds/set/DisjointSet.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/ds/set/DisjointSet.hpp b/core/ds/set/DisjointSet.hpp
index 59bc539..7f5712f 100644
--- a/core/ds/set/DisjointSet.hpp
+++ b/core/ds/set/DisjointSet.hpp
@@ -72,8 +72,10 @@ public:
     }
 
     void union_set(ConstReferenceType root1, ConstReferenceType root2) {
-        if (root1 < root2) {
-            mArray_d[root2] = root1;
+        if (root1 == root2) return; // already in one set
+        // the negative value of a root is its rank, link the lower one to the higher one
+        if (mArray_d[root2] < mArray_d[root1]) {
+            mArray_d[root1] = root2;
         } else {
             if (mArray_d[root1] == mArray_d[root2])
                 mArray_d[root1]--;
-- 
2.43.0


From 149661921517de2e99f7a751c4c7b64797d86bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 15/33] fix: BinarySearchTree size must not count a value
 already present

---
 core/ds/tree/BinarySearchTree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index 64aa446..c123548 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -70,7 +70,7 @@ public: // push/pop
         auto tree = _insert(obj);
         if (BinaryTree_e::mRootPtr_d == nullptr)
             BinaryTree_e::_update_root(tree);
-        BinaryTree_e::mSize_d++;
+        // mSize_d++; in _insert
     }
 
     void pop(const T &obj) {
@@ -166,6 +166,7 @@ protected:
         auto nodePtr = AllocNode_::allocate();
         auto newNodeLink = Node_::to_link(nodePtr);
         dstruct::construct(nodePtr, Node_(obj));
+        BinaryTree_e::mSize_d++;
 
         if (parent != nullptr) { // nodePtr isn't root
             newNodeLink->parent = parent;
-- 
2.43.0


From 07238e187adf38d73d9fce2a4ead25d9a82c49d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 16/33] fix: removing an absent value from a search tree must
 change nothing

---
 core/ds/tree/AVLTree.hpp          | 1 +
 core/ds/tree/BinarySearchTree.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index df3ff65..f06c8bf 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -297,6 +297,7 @@ protected:
     }
 
     typename Node_::LinkType * _delete(typename Node_::LinkType *root, const T &obj) {
+        if (root == nullptr) return nullptr; // obj isn't in the tree
         auto nPtr = Node_::to_node(root);
         if (mCmp_d(obj, nPtr->data.val)) {
             root->left = _delete(root->left, obj);
diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index c123548..a9b789d 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -188,6 +188,7 @@ protected:
     }
 
     typename Node_::LinkType * _delete(typename Node_::LinkType *root, const T &obj) {
+        if (root == nullptr) return nullptr; // obj isn't in the tree
         auto nPtr = Node_::to_node(root);
         if (mCmp_d(obj, nPtr->data)) {
             root->left = _delete(root->left, obj);
-- 
2.43.0


From c426d90ec59c579e6b23b6163ca74e8d4d5d05d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 17/33] fix: BinarySearchTree must replace a removed node by
 its in-order successor

---
 core/ds/tree/BinarySearchTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinarySearchTree.hpp b/core/ds/tree/BinarySearchTree.hpp
index a9b789d..2b8b7fe 100644
--- a/core/ds/tree/BinarySearchTree.hpp
+++ b/core/ds/tree/BinarySearchTree.hpp
@@ -211,7 +211,7 @@ protected:
         } else { // have l and r, haven't del the node directly
             // step1: find right-bot
             typename Node_::LinkType *tmp = linkPtr->right;
-            while (nullptr == tmp->left) {
+            while (nullptr != tmp->left) {
                 tmp = tmp->left;
             }
 
-- 
2.43.0


From 5e9bb0f9e347e7a373cf0a8f89ab4e025945d433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 18/33] fix: BinaryTree::copy must copy nodes through their
 links

---
 core/ds/tree/BinaryTree.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 382ed99..c67742b 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -184,16 +184,17 @@ public:
             return nullptr;
 
         Node_ *newRoot = AllocNode_::allocate();
-        newRoot->data = root->data;
-        newRoot->parent = nullptr;
+        dstruct::construct(newRoot, Node_(root->data));
 
-        newRoot->left = copy(root->left);
-        if (newRoot->left)
-            newRoot->left->parent = newRoot;
+        auto link = Node_::to_link(newRoot);
 
-        newRoot->right = copy(root->right);
-        if (newRoot->right)
-            newRoot->right->parent = newRoot;
+        link->left = Node_::to_link(copy(Node_::to_node(root->link.left)));
+        if (link->left)
+            link->left->parent = link;
+
+        link->right = Node_::to_link(copy(Node_::to_node(root->link.right)));
+        if (link->right)
+            link->right->parent = link;
 
         return newRoot;
     }
-- 
2.43.0


From aec5f1fd6d8eb1232ab4c8b936cdbfedf4ec8f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 19/33] fix: an empty tree must be iterated as nothing

---
 core/ds/tree/BinaryTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index c67742b..5930958 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -212,7 +212,7 @@ public:
 
     static typename Node_::LinkType * first_node(typename Node_::LinkType *root, TraversalType ttype = TraversalType::InOrder) {
         auto first = root;
-        if (ttype != TraversalType::PreOrder) {
+        if (first != nullptr && ttype != TraversalType::PreOrder) {
             while (first->left != nullptr) {
                 first = first->left;
             }
-- 
2.43.0


From 526b3788a60c36d28ff7b523c92f794454c8c10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 20/33] fix: tree traversal must start from the root in every
 order

---
 core/ds/tree/BinaryTree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 5930958..794b76b 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -155,17 +155,17 @@ public: // algo
 
         switch (ttype) {
             case TraversalType::PreOrder:
-                return  tree::preorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::preorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             case TraversalType::InOrder:
-                return  tree::inorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::inorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             case TraversalType::PostOrder:
-                return  tree::postorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+                return  tree::postorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
             default: {
                 DSTRUCT_ASSERT(false);
             }
         }
 
-        return  tree::preorder_traversal(first_node(Node_::to_link(mRootPtr_d), ttype), cbWrapper);
+        return  tree::preorder_traversal(Node_::to_link(mRootPtr_d), cbWrapper);
     }
 
 public: // range-for and iterator
-- 
2.43.0


From 5ce9bd67c0c1eea9e19bd1da9d9ac51364838382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 21/33] fix: post-order iteration must start at a leaf and end
 at the root

---
 core/ds/tree/BinaryTree.hpp         |  3 +++
 core/ds/tree/EmbeddedBinaryTree.hpp | 31 ++++++++++++++++-------------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/core/ds/tree/BinaryTree.hpp b/core/ds/tree/BinaryTree.hpp
index 794b76b..7617ef9 100644
--- a/core/ds/tree/BinaryTree.hpp
+++ b/core/ds/tree/BinaryTree.hpp
@@ -216,6 +216,9 @@ public:
             while (first->left != nullptr) {
                 first = first->left;
             }
+            // post-order starts from a leaf
+            if (ttype == TraversalType::PostOrder && first->right != nullptr)
+                return first_node(first->right, ttype);
         }
         return first;
     }
diff --git a/core/ds/tree/EmbeddedBinaryTree.hpp b/core/ds/tree/EmbeddedBinaryTree.hpp
index a86f18d..d1f4826 100644
--- a/core/ds/tree/EmbeddedBinaryTree.hpp
+++ b/core/ds/tree/EmbeddedBinaryTree.hpp
@@ -140,23 +140,26 @@ static BinaryTreeLink_ * next_postorder(BinaryTreeLink_ *link) {
         return nullptr;
     }
 
-    if (link->right != nullptr) {
-        link = link->right;
-        while (link->left != nullptr || link->right != nullptr) {
-            if (link->left != nullptr) {
-                link = link->left;
-            } else {
-                link = link->right;
-            }
-        }
-        return link;
+    // root is the last one
+    if (link->parent == nullptr) {
+        return nullptr;
     }
 
-    // link->parent != nullptr : root check
-    while (link->parent != nullptr && link->parent->right == link) {
-        link = link->parent;
+    // both sub-trees of parent are visited
+    if (link->parent->right == nullptr || link->parent->right == link) {
+        return link->parent;
     }
-    return link->parent;
+
+    // first node(leaf) of parent's right sub-tree
+    link = link->parent->right;
+    while (link->left != nullptr || link->right != nullptr) {
+        if (link->left != nullptr) {
+            link = link->left;
+        } else {
+            link = link->right;
+        }
+    }
+    return link;
 }
 
 template <typename Callback>
-- 
2.43.0


From 9b39f281c8a2156b921d39861ef9dbcbd8a4bf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 22/33] fix: AVLTree::begin/end must honour the requested order

---
 core/ds/tree/AVLTree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index f06c8bf..fabd075 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -162,12 +162,12 @@ public: // range-for and iterator
 
     typename AVLTree::ConstIteratorType
     begin(TraversalType ttype = TraversalType::InOrder) const {
-        return BinaryTree_e::begin();
+        return BinaryTree_e::begin(ttype);
     }
 
     typename AVLTree::ConstIteratorType
     end(TraversalType ttype = TraversalType::InOrder) const {
-        return BinaryTree_e::end();
+        return BinaryTree_e::end(ttype);
     }
 
 protected:
-- 
2.43.0


From d30a10ec3a3e4bd3f24b27419e985c98a4f49002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 23/33] fix: erasing an AVLTree root through an iterator must
 update the root

---
 core/ds/tree/AVLTree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index fabd075..e8f79f6 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -266,6 +266,8 @@ protected:
                 }
                 _update_height(parent);
                 _rebalance_after_delete(parent);
+            } else {
+                BinaryTree_e::_update_root(nullptr);
             }
 
             _real_delete(target);
@@ -288,6 +290,8 @@ protected:
                 }
                 _update_height(parent);
                 _rebalance_after_delete(parent);
+            } else {
+                BinaryTree_e::_update_root(child);
             }
 
             _real_delete(target);
-- 
2.43.0


From 2211b17e1618e3674b281541001e35c05f0d0d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 24/33] fix: AVLTree must own its nodes when copied or moved

---
 core/ds/tree/AVLTree.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index e8f79f6..440cd4b 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -109,6 +109,31 @@ public:
 public:
     AVLTree(CMP cmp = CMP()) : BinaryTree_e { nullptr, 0 }, mCmp_d { cmp } { }
 
+    DSTRUCT_COPY_SEMANTICS(AVLTree) {
+        BinaryTree_e::clear();
+        BinaryTree_e::mRootPtr_d = BinaryTree_e::copy(ds.mRootPtr_d);
+        BinaryTree_e::mSize_d = ds.mSize_d;
+        mCmp_d = ds.mCmp_d;
+        return *this;
+    }
+
+    DSTRUCT_MOVE_SEMANTICS(AVLTree) {
+        BinaryTree_e::clear();
+
+        // move
+        BinaryTree_e::mRootPtr_d = ds.mRootPtr_d;
+        BinaryTree_e::mSize_d = ds.mSize_d;
+        mCmp_d = ds.mCmp_d;
+
+        // reset
+        ds.mRootPtr_d = nullptr;
+        ds.mSize_d = 0;
+
+        return *this;
+    }
+
+    ~AVLTree() = default;
+
 public:
     void push(const T &element) {
         auto root = _insert(Node_::to_link(BinaryTree_e::mRootPtr_d), element);
-- 
2.43.0


From 81abb8dffecb21e0bff6aac0b35cf05a2c7708a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 25/33] fix: AVLTree::erase must not require assignable
 elements (Map::erase)

---
 core/ds/tree/AVLTree.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/core/ds/tree/AVLTree.hpp b/core/ds/tree/AVLTree.hpp
index 440cd4b..0020d8d 100644
--- a/core/ds/tree/AVLTree.hpp
+++ b/core/ds/tree/AVLTree.hpp
@@ -165,18 +165,11 @@ public:
     typename AVLTree::ConstIteratorType
     erase(typename AVLTree::ConstIteratorType it) {
         auto target = it._get_link_pointer();
-        decltype(it) next = ++it;
-        typename RemoveConst<T>::Type nextData;
-        bool needUpdateNext = false;
-        
-        if (next._get_link_pointer() != nullptr) {
-            nextData = *next;
-            needUpdateNext = true;
-        }
+        ++it; // nodes are relinked, not copied, so the next iterator is still valid
 
         _delete_by_target(target);
 
-        return needUpdateNext ? find(nextData) : next;
+        return it;
     }
 
     int height() const {
-- 
2.43.0


From f2cd458a7d13b711b5875a126bddcf01769fa91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 26/33] fix: Map must be searchable when const

---
 core/ds/Map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ds/Map.hpp b/core/ds/Map.hpp
index 807b6d7..f159e84 100644
--- a/core/ds/Map.hpp
+++ b/core/ds/Map.hpp
@@ -114,7 +114,7 @@ public: // Access & Modifiers
     }
 
 public:
-    IteratorType find(const KeyType &key) {
+    IteratorType find(const KeyType &key) const {
         return mDStruct_d.find(KeyValueType { key, ValueType() });
     }
 
-- 
2.43.0


From 4bd27f4a73c32892e48a90b53dc8ab55a67c8e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 27/33] fix: the static memory pool must be aligned to
 SMA_MEM_ALIGN

---
 memory/StaticMemAllocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index 1d8c0ed..de42480 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -138,7 +138,7 @@ public: // mem-manager interface
 
 protected:
     int mFreeMemSize_d;
-    char mMemoryPool_d[MEMORY_SIZE];
+    alignas(SMA_MEM_ALIGN) char mMemoryPool_d[MEMORY_SIZE];
     dstruct::Array<Link_e, MAX_BLOCK_SIZE / SMA_MEM_ALIGN + 1/*MemPoolManager*/> mFreeMemList_d;
 
     static StaticMemAllocator & Instance_() {
-- 
2.43.0


From fabd0aac836d8d052636f3945a58fb3b0dcb35ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 28/33] fix: StaticMemAllocator must refuse empty and oversized
 requests without effect

---
 memory/StaticMemAllocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index de42480..3056c35 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -156,6 +156,8 @@ protected:
 
     void * allocate_d(int bytes) {
 
+        if (bytes <= 0 || bytes > MEMORY_SIZE) return nullptr;
+
         MemBlock_e targetMemBlockIndex;
 
         if (bytes > MAX_BLOCK_SIZE) {
-- 
2.43.0


From 11a6b9ab61583a7246c62161ad26509fa217912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 29/33] fix: StaticMemAllocator merge must scan the ordered
 lists past the first block

---
 memory/StaticMemAllocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index 3056c35..328223e 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -258,7 +258,7 @@ protected: // quick allocator
                                 break;
                             }
 
-                            if (firstMemBlockPtr > secondMemBlockPtr) break;
+                            if (addrDown < static_cast<void *>(secondMemBlockPtr)) break;
 
                             secondMemLinkPtr = secondMemBlockPtr;
                             secondMemBlockPtr = secondMemLinkPtr->next;
-- 
2.43.0


From 4cd8352ca5747d4cd9abaa93666dbec6793bd2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 30/33] fix: StaticMemAllocator merge must join small blocks
 with large neighbours

---
 memory/StaticMemAllocator.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/memory/StaticMemAllocator.hpp b/memory/StaticMemAllocator.hpp
index 328223e..7991fec 100644
--- a/memory/StaticMemAllocator.hpp
+++ b/memory/StaticMemAllocator.hpp
@@ -234,17 +234,19 @@ protected: // quick allocator
                     insert_mem_block_to_list_d(firstMemBlockPtr, INDEX_TO_SIZE_(listIndex));
                 } else {
                     bool secondMemBlockFlag = false;
-                    for (int j = i + 1; j < mFreeMemList_d.size() - 1 && !secondMemBlockFlag; j++) {
+                    for (int j = i + 1; j < mFreeMemList_d.size() && !secondMemBlockFlag; j++) {
+                        bool isMemPool = j == mFreeMemList_d.size() - 1;
                         auto secondMemLinkPtr = &(mFreeMemList_d[j]);
                         secondMemBlockPtr = secondMemLinkPtr->next;
                         while (secondMemBlockPtr != nullptr) {
+                            int secondMemBlockSize = isMemPool ? MemBlock_e::to_node(secondMemBlockPtr)->data : INDEX_TO_SIZE_(j);
                             /*                         +-----+ 
                               xUp                -->   |     |
                               firstMemBlockPtr   -->   |     |
                               xDown              -->   |     |
                                                        +-----+
                             */
-                            void *addrUP = reinterpret_cast<char *>(firstMemBlockPtr) - (j + 1) * SMA_MEM_ALIGN;
+                            void *addrUP = reinterpret_cast<char *>(firstMemBlockPtr) - secondMemBlockSize;
                             void *addrDown = reinterpret_cast<char *>(firstMemBlockPtr) + (i + 1) * SMA_MEM_ALIGN;
 
                             if (SMA_ADDRESS_EQUAL(addrUP, secondMemBlockPtr) || SMA_ADDRESS_EQUAL(addrDown, secondMemBlockPtr)) { // check merge-able
@@ -252,7 +254,7 @@ protected: // quick allocator
                                 secondMemLinkPtr->next = secondMemBlockPtr->next; // delete secondMemBlock from list[j]
                                 insert_mem_block_to_list_d(
                                     firstMemBlockPtr < secondMemBlockPtr ? firstMemBlockPtr : secondMemBlockPtr,
-                                    INDEX_TO_SIZE_(i + j + 1)
+                                    INDEX_TO_SIZE_(i) + secondMemBlockSize
                                 );
                                 secondMemBlockFlag = true;
                                 break;
-- 
2.43.0


From 79b41cbc4a1692321618495c37cd2de1015e99fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 31/33] fix: Heap self-move must be harmless

---
 core/ds/Heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ds/Heap.hpp b/core/ds/Heap.hpp
index d2b98f1..f369db5 100644
--- a/core/ds/Heap.hpp
+++ b/core/ds/Heap.hpp
@@ -50,6 +50,7 @@ public:
 
     Heap(Heap &&hep) { *this = dstruct::move(hep); }
     Heap & operator=(Heap &&hep) {
+        if (this == &hep) return *this;
         this->mCmp_d = hep.mCmp_d;
         this->mHeap_d = dstruct::move(hep.mHeap_d);
         hep.mHeap_d.resize(1, this->mHeap_d[0]);
-- 
2.43.0


From 83438d50074b2678d6ce605a50fbe02270d8b1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:28 +0000
Subject: [PATCH 32/33] fix: deque iterators and growth confuse blocks adjacent
 in memory

---
 core/ds/queue/DoubleEndedQueue.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 7a20b8c..8dd2239 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -87,6 +87,13 @@ public:
             _sync();
     }
 
+public: // base op
+    // Note: blocks may be adjacent in memory, then a block's end is the address of another block's begin
+    bool operator!=(const Self &it) const { return !(*this == it); }
+    bool operator==(const Self &it) const {
+        return mCurrMapIndex_d == it.mCurrMapIndex_d && mCurr_d == it.mCurr_d;
+    }
+
 public: // ForwardIterator
     Self& operator++() {
         static int cnt = 1;
@@ -245,7 +252,7 @@ public: // push/pop
         if (mCapacity_d == 0) {
             DSTRUCT_ASSERT(mArrMapTable_d.empty());
             _only_init();
-        } else if (mEnd_d.mCurr_d == mArrMapTable_d.back()->end()) {
+        } else if (mEnd_d.mCurrMapIndex_d + 1 == mArrMapTable_d.size() && mEnd_d.mCurr_d == mArrMapTable_d.back()->end()) {
             _resize(mCapacity_d * 2);
         }
         dstruct::construct(&(*mEnd_d), obj);
@@ -400,7 +407,7 @@ protected:
             mEnd_d._sync();
 
             // only if old_mEnd == mBegin_d
-            if (mBegin_d.mCurr_d == mArrMapTable_d[newArrEndIndex]->end()) {
+            if (newArrStartIndex == newArrEndIndex && mBegin_d.mCurr_d == mArrMapTable_d[newArrEndIndex]->end()) {
                 mBegin_d = mEnd_d;
             }
         }
-- 
2.43.0


From b405e7ff8bc1cf4453842e42e77ca198e6e4d2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:42 +0000
Subject: [PATCH 33/33] fix: a double-ended queue used as a queue no longer
 grows without bound

The shrink guard in _resize was inverted, so capacity never went down, and a
push at an end of the table always doubled the capacity, even if nearly all
of it was unused: a queue of three elements held memory proportional to the
number of pushes ever made.
---
 core/ds/queue/DoubleEndedQueue.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/core/ds/queue/DoubleEndedQueue.hpp b/core/ds/queue/DoubleEndedQueue.hpp
index 8dd2239..02bcd33 100644
--- a/core/ds/queue/DoubleEndedQueue.hpp
+++ b/core/ds/queue/DoubleEndedQueue.hpp
@@ -253,7 +253,7 @@ public: // push/pop
             DSTRUCT_ASSERT(mArrMapTable_d.empty());
             _only_init();
         } else if (mEnd_d.mCurrMapIndex_d + 1 == mArrMapTable_d.size() && mEnd_d.mCurr_d == mArrMapTable_d.back()->end()) {
-            _resize(mCapacity_d * 2);
+            _resize(_capacity_for_push());
         }
         dstruct::construct(&(*mEnd_d), obj);
         mEnd_d++;
@@ -265,7 +265,7 @@ public: // push/pop
             DSTRUCT_ASSERT(mArrMapTable_d.empty());
             _only_init();
         } else if (mBegin_d.mCurr_d == mArrMapTable_d[0]->begin()) {
-            _resize(mCapacity_d * 2);
+            _resize(_capacity_for_push());
         }
         mBegin_d--;
         dstruct::construct(mBegin_d.operator->(), obj);
@@ -352,6 +352,14 @@ protected:
 
     }
 
+    // the used area touches an end of the table: extend, or only move it back to
+    // the middle when most of the table is unused (elements pushed and popped like in a queue)
+    size_t _capacity_for_push() const {
+        if (mArrMapTable_d.size() > MIN_MAP_TABLE_SIZE && mSize_d < mCapacity_d / 4)
+            return mCapacity_d;
+        return mCapacity_d * 2;
+    }
+
     /* (temp)request1: n % ARR_SIZE == 0 */
     /* request2: mSize_d < (n and mCapacity_d) */
     // (newCapacity - mSize_d) / ARR_SIZE >= 2
@@ -368,11 +376,8 @@ protected:
         size_t newArrStartIndex = ((n - mSize_d) / 2) / ARR_SIZE;
         size_t newArrEndIndex = newArrStartIndex + arrNum;
 
-        // request: n / ARR_SIZE <= ((mSize_d - 1 - 1) / ARR_SIZE + 1 + 1)
-        // n = y * oldCapacity  
-        if (!isExtend && newMapTableSize >= arrNum) {
-            // when arrNum = ((mSize_d - 1 - 1) / ARR_SIZE + 1 + 1)
-            // exist newMapTableSize < arrNum
+        // request: the used arrays, and one after them, have to fit in the new table
+        if (!isExtend && newMapTableSize <= newArrEndIndex + 1) {
             return;
         }
 
-- 
2.43.0

