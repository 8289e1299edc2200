From efe58a2e992210ff5113922be9ac646227dc6c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 01/46] fix: copying a Janet tree lost the subtree of the last
 node of every degree chain

---
 ginv/janet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ginv/janet.cpp b/ginv/janet.cpp
index 73b1e62..ee660c2 100644
--- a/ginv/janet.cpp
+++ b/ginv/janet.cpp
@@ -97,6 +97,8 @@ Janet::Link Janet::build(Link j, Allocator* allocator) {
     i->mNextDeg = new(allocator) Node(j->mDeg, j->mWrap);
     i = i->mNextDeg;
   }
+  if (j->mNextVar)
+    i->mNextVar = build(j->mNextVar, allocator);
   return r;
 }
 
-- 
2.43.0


From 5202b9776d05b9fb0f289790399328d6e00cfa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 02/46] fix: the quotient of two monomials of one module
 component is a ring monomial

---
 ginv/monom.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ginv/monom.cpp b/ginv/monom.cpp
index 13392fd..33a8df4 100644
--- a/ginv/monom.cpp
+++ b/ginv/monom.cpp
@@ -275,6 +275,8 @@ void Monom::mult(Monom::Variable v, const Monom& a) {
   
 void Monom::div(const Monom& a) {
   assert(divisiable(a));
+  if (a.mPos >= 0)
+    mPos = -1;
   mDegree -=a.mDegree;
   Variable *i=mVariables;
   const Variable* const iend=mVariables+mSize;
-- 
2.43.0


From 9d401290b171349d0a6d8049b960116870d67993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 03/46] fix: monomials of different module components are not
 equal

---
 ginv/monom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/monom.cpp b/ginv/monom.cpp
index 33a8df4..a5205e7 100644
--- a/ginv/monom.cpp
+++ b/ginv/monom.cpp
@@ -217,7 +217,7 @@ void Monom::permutation(const Monom &a, RandPermutation &p) {
 
 bool operator==(const Monom& a, const Monom& b) {
   assert(a.mSize == b.mSize);
-  bool r=a.mDegree == b.mDegree;
+  bool r=a.mPos == b.mPos && a.mDegree == b.mDegree;
   if (r) {
     const Monom::Variable *ia=a.mVariables,
                           *ib=b.mVariables;
-- 
2.43.0


From 375e812072cbebfe94f3f1bf8c0c5b1d56d11d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:58 +0000
Subject: [PATCH 04/46] fix: a leading monomial that moves to another module
 component is a change of leading monomial

---
 ginv/wrap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/wrap.cpp b/ginv/wrap.cpp
index 532d960..82d9d33 100644
--- a/ginv/wrap.cpp
+++ b/ginv/wrap.cpp
@@ -23,7 +23,7 @@
 namespace GInv {
 
 void Wrap::update(const Monom& m) {
-  if (mLm.lex(m) != 0) {
+  if (mLm != m) {
     mLm = m;
     mAnsector = m;
     for(int i=0; i < mLm.size(); i++) {
-- 
2.43.0


From 84861b60c146c7c01422a9d6cd529bc3957afdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 05/46] fix: completeness: prolong the elements inserted after
 their degree was passed before declaring the Janet basis complete

---
 ginv/poly_int.cpp | 15 +++++++++++----
 ginv/poly_int.h   |  1 +
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 6d0a199..35a354f 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -632,6 +632,13 @@ void JanetPolyInt::prolong(WrapPolyInt *w) {
     }
 }
 
+bool JanetPolyInt::prolongRest() {
+  if (!mQ)
+    for(GCListWrapPolyInt::ConstIterator j(mT.begin()); j; ++j)
+      prolong(j.data());
+  return mQ;
+}
+
 bool JanetPolyInt::assertT() const {
   if (mT) {
     GCListWrapPolyInt::ConstIterator i(mT.begin());
@@ -704,7 +711,7 @@ void JanetPolyInt::algorithmBlockTQ() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(prolongRest()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
@@ -921,7 +928,7 @@ void JanetPolyInt::algorithmTQ1() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(prolongRest()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
@@ -1105,7 +1112,7 @@ void JanetPolyInt::algorithmTQ2() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(prolongRest()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
@@ -1302,7 +1309,7 @@ void JanetPolyInt::algorithmTQ() {
   int degPref=0;
   int critI=0;
   mTimer.start();
-  while(mQ) {
+  while(prolongRest()) {
     int size=mQ.head()->poly().size();
     int order=mQ.head()->poly().order();
 
diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index f6f95fa..bdc1c38 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -367,6 +367,7 @@ class JanetPolyInt {
   void setPos();
   void setOne(int order, int size);
   void prolong(WrapPolyInt *w);
+  bool prolongRest();
   bool assertT() const;
 
   static void insert(GCListWrapPolyInt &lst, WrapPolyInt *w);
-- 
2.43.0


From a84ac1ee7537fe04af97f7bf15a61833f5559b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 06/46] fix: a unit found while reducing a block makes the
 ideal trivial

---
 ginv/poly_int.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 35a354f..da7739b 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -845,6 +845,15 @@ std::cerr << "A" << std::endl;
       }
     } while(k1);
 
+    if (tmp.head()->poly().degree() == 0) {
+      for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
+        delete j.data();
+
+      setOne(order, size);
+      std::cerr << "deg - 0" << *mOneWrap << std::endl;
+      break;
+    }
+
     GCListWrapPolyInt::Iterator k(tmp.begin());
     while(k) {
       k.data()->update(k.data()->poly().lm());
-- 
2.43.0


From 5ddf78ce1bb678532bfa7bce279dada5a00f5ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 07/46] fix: TQ2 lost the element just inserted when it rebuilt
 the Janet tree

---
 ginv/poly_int.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index da7739b..cd88df8 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -1248,14 +1248,14 @@ void JanetPolyInt::algorithmTQ2() {
     w->update(w->poly().lm());
     mJanet[w->lm().pos()+1].insert(w);
 
-    if (degPref > deg) {
-      delete[] mJanet;
-      mJanet = new GCJanet[mPos+2];
-      for(GCListWrapPolyInt::Iterator j(mT.begin()); j; j.del()) {
-        j.data()->clearNM();
-        mQ.push(j.data());
-      }
-    }
+//     if (degPref > deg) {
+//       delete[] mJanet;
+//       mJanet = new GCJanet[mPos+2];
+//       for(GCListWrapPolyInt::Iterator j(mT.begin()); j; j.del()) {
+//         j.data()->clearNM();
+//         mQ.push(j.data());
+//       }
+//     }
     degPref = deg;
 
 
-- 
2.43.0


From caf1b2e2c1b45c5477728e828d5b06e55bfb2c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 08/46] fix: Buchberger product criterion holds for ring
 polynomials only, not for module elements

---
 ginv/poly_int.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index cd88df8..6d74921 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -618,7 +618,7 @@ void JanetPolyInt::prolong(WrapPolyInt *w) {
     if (w->NM(i) && !w->build(i)) {
       Monom m(allocator, i, w->lm());
       const WrapPolyInt *d=find(m);
-      if (d && m.degree() >=
+      if (d && m.pos() < 0 && m.degree() >=
         (w->ansector().degree() + d->ansector().degree())) {
         ++mCritI;
         w->setBuild(i);
-- 
2.43.0


From 26c66079802d457cd11387ec76c86bf057cc056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 09/46] fix: a module generator of degree zero is not a unit of
 the ring

---
 ginv/poly_int.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 6d74921..d417420 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -727,7 +727,7 @@ void JanetPolyInt::algorithmBlockTQ() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (j.data()->poly().lm().isZero() && j.data()->poly().lm().pos() < 0) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
@@ -845,7 +845,7 @@ std::cerr << "A" << std::endl;
       }
     } while(k1);
 
-    if (tmp.head()->poly().degree() == 0) {
+    if (tmp.head()->poly().lm().isZero() && tmp.head()->poly().lm().pos() < 0) {
       for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
         delete j.data();
 
@@ -955,7 +955,7 @@ void JanetPolyInt::algorithmTQ1() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (j.data()->poly().lm().isZero() && j.data()->poly().lm().pos() < 0) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
@@ -1139,7 +1139,7 @@ void JanetPolyInt::algorithmTQ2() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (j.data()->poly().lm().isZero() && j.data()->poly().lm().pos() < 0) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
@@ -1334,7 +1334,7 @@ void JanetPolyInt::algorithmTQ() {
         delete j.data();
       }
       else {
-        if (j.data()->poly().degree() == 0) {
+        if (j.data()->poly().lm().isZero() && j.data()->poly().lm().pos() < 0) {
           for(GCListWrapPolyInt::Iterator j(tmp.begin()); j; j.del())
             delete j.data();
 
-- 
2.43.0


From 08fc90d83a37c9908b76d9448da4c429f5ddf142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 10/46] fix: the zeroth power of a polynomial is one

---
 ginv/poly_int.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index d417420..ca50026 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -358,8 +358,10 @@ void PolyInt::pow(int deg) {
   assert(deg >= 0);
   if (deg == 1)
     ;
-  else if (deg == 0)
+  else if (deg == 0) {
     clear();
+    mHead.push(new(mAllocator) Term(mAllocator, mSize, "0x1"));
+  }
   else {
     assert(deg > 1);
     PolyInt tmp(mAllocator, *this);
-- 
2.43.0


From b1aeb1d7f48f724dfc6f75c5ddfccce955338d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 11/46] fix: multiplying by a single term leaked the terms of
 the product's left factor

---
 ginv/poly_int.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index ca50026..0c3fa39 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -295,7 +295,11 @@ void PolyInt::mult(const PolyInt &a) {
       }
     }
     mHead.swap(tmp);
-    mAllocator->destroy(tmp.head());
+    List<Term*>::Iterator k(tmp.begin());
+    while(k) {
+      mAllocator->destroy(k.data());
+      k.del();
+    }
   }
   else {
     List<Term*> sum(mAllocator);
-- 
2.43.0


From a5ede2f8441a3ae21ed7192f50adf4fa1a52dd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 12/46] fix: copying an empty red-black tree dereferenced a
 null root; moving a tree did not compile

---
 util/rbtree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/rbtree.h b/util/rbtree.h
index cdf17d4..01cfa82 100644
--- a/util/rbtree.h
+++ b/util/rbtree.h
@@ -475,7 +475,7 @@ public:
   };
 
   inline RBTree(RBTree&& a):
-      mAllocator(a.allocator),
+      mAllocator(a.mAllocator),
       mRoot(a.mRoot),
       mCount(a.mCount) {
     a.mRoot = nullptr;
@@ -522,7 +522,7 @@ public:
     assert(this != &a);
     if (mRoot)
       clear(mRoot, mAllocator);
-    mRoot = copy(a.mRoot, mAllocator, nullptr);
+    mRoot = (a.mRoot) ? copy(a.mRoot, mAllocator, nullptr): nullptr;
     mCount = a.mCount;
     assert(assertValid());
   }
-- 
2.43.0


From 39696257eb00e374e585e19c9023ea5340d596d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 13/46] fix: a constant added to a polynomial goes to its place
 in the order, also when the polynomial is zero

---
 ginv/poly_int.cpp | 50 ++++++++---------------------------------------
 1 file changed, 8 insertions(+), 42 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 0c3fa39..d9f89ee 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -127,26 +127,10 @@ void PolyInt::minus() {
 }
 
 void PolyInt::add(const char* hex) {
-  assert(mHead);
-  List<Term*>::Iterator i(mHead.begin());
-  assert(i);
-  int size=i.data()->mMonom.size();
-  while(i && (i.data()->mMonom.degree() > 0 ||
-              i.data()->mMonom.pos() >= 0))
-    ++i;
-  if (!i)
-    i.insert(new(mAllocator) Term(mAllocator, size, hex));
-  else {
-    assert(i.data()->mMonom.degree() == 0 &&
-           i.data()->mMonom.pos() == -1);
-    Integer a(mAllocator, hex);
-    i.data()->mCoeff.add(a);
-    if (i.data()->mCoeff.isZero()) {
-      mAllocator->destroy(i.data());
-      i.del();
-    }
-  }
-  assert(assertValid());
+  Allocator allocator[1];
+  Integer c(allocator, hex);
+  if (!c.isZero())
+    add(PolyInt(allocator, mOrder, mSize, hex));
 }
 
 void PolyInt::add(const PolyInt &a) {
@@ -183,28 +167,10 @@ void PolyInt::add(const PolyInt &a) {
 }
 
 void PolyInt::sub(const char* hex) {
-  assert(mHead);
-  List<Term*>::Iterator i(mHead.begin());
-  assert(i);
-  int size=i.data()->mMonom.size();
-  while(i && (i.data()->mMonom.degree() > 0 ||
-              i.data()->mMonom.pos() >= 0))
-    ++i;
-  if (!i) {
-    i.insert(new(mAllocator) Term(mAllocator, size, hex));
-    i.data()->mCoeff.set_neg();
-  }
-  else {
-    assert(i.data()->mMonom.degree() == 0 &&
-           i.data()->mMonom.pos() == -1);
-    Integer a(mAllocator, hex);
-    i.data()->mCoeff.sub(a);
-    if (i.data()->mCoeff.isZero()) {
-      mAllocator->destroy(i.data());
-      i.del();
-    }
-  }
-  assert(assertValid());
+  Allocator allocator[1];
+  Integer c(allocator, hex);
+  if (!c.isZero())
+    sub(PolyInt(allocator, mOrder, mSize, hex));
 }
 
 void PolyInt::sub(const PolyInt &a) {
-- 
2.43.0


From 6954de85857872d06048e71a35d60fc256224b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 14/46] fix: a duplicate generator of a monomial completion was
 used after it was destroyed

---
 ginv/mcompletion.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginv/mcompletion.cpp b/ginv/mcompletion.cpp
index 337881f..4868d19 100644
--- a/ginv/mcompletion.cpp
+++ b/ginv/mcompletion.cpp
@@ -35,8 +35,10 @@ void MCompletion::insert(Wrap *w) {
   }
   if (!j || mCmp(*j.data(), *w) > 0)
     j.insert(w);
-  else
+  else {
     mAllocator->destroy(w);
+    return;
+  }
   ++j;
   while(j) {
     for(int v=0; v < w->lm().size(); v++) {
-- 
2.43.0


From 0a33fd04b6c7489bd1a5d5f210203b06fa928d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 15/46] fix: subtracting an int from a polynomial added it in
 the Python module

---
 cython/ginv.pyx  | 2 +-
 util/allocator.h | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 73ed869..8fe8606 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -517,7 +517,7 @@ cdef class const_poly_int:
     if isinstance(other, const_poly_int):
       return -other.sub(self)
     else:
-      return self.add(other)
+      return self.sub(other)
 
   def mul(const_poly_int self, other): #TODO
     assert self.ptr
diff --git a/util/allocator.h b/util/allocator.h
index e9296e2..b8b090d 100644
--- a/util/allocator.h
+++ b/util/allocator.h
@@ -49,6 +49,8 @@ class Allocator {
         // mPointer(malloc(size)),
         mPointer(aligned_alloc(16, size)),
         mNext(next) {
+      if (!mPointer)
+        throw std::bad_alloc();
     }
     inline ~Node() { free(mPointer); }
   };
-- 
2.43.0


From e599f7fa6c99cddc0c74296a0cff8e390fb794de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 16/46] fix: const_timer reported the garbage collector's clock
 in the Python module

---
 cython/ginv.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 8fe8606..0d479d9 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -74,11 +74,11 @@ cdef class const_timer:
     self.ptr = NULL
 
   def userTime(self):
-    return allocator_timer().userTime()
+    return self.ptr.userTime()
   def sysTime(self):
-    return allocator_timer().sysTime()
+    return self.ptr.sysTime()
   def realTime(self):
-    return allocator_timer().realTime()
+    return self.ptr.realTime()
 
   def __str__(self):
     return "userTime: %.2f, sysTime: %.2f, realTime: %.2f" % (\
-- 
2.43.0


From bd53e2e398a61c8882c6f638b56506696afc258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 17/46] fix: views returned by the Python module keep the
 object they point into alive

---
 cython/ginv.pyx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 0d479d9..5f4bf68 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -70,6 +70,7 @@ cdef class const_timer_GC:
 
 cdef class const_timer:
   cdef const Timer* ptr
+  cdef object owner
   def __cinit__(self):
     self.ptr = NULL
 
@@ -172,6 +173,7 @@ cdef extern from "integer.h" namespace "GInv":
 
 cdef class const_integer:
   cdef const Integer *ptr
+  cdef object owner
   def __cinit__(self, ):
     self.ptr = NULL
 
@@ -247,6 +249,7 @@ cdef extern from "monom.h" namespace "GInv":
 
 cdef class const_monom:
   cdef const Monom *ptr
+  cdef object owner
   def __cinit__(self):
     self.ptr = NULL
 
@@ -399,6 +402,7 @@ cdef extern from "poly_int.h" namespace "GInv":
 
 cdef class const_poly_int:
   cdef const PolyInt *ptr
+  cdef object owner
   def __cinit__(self, ):
     self.ptr = NULL
 
@@ -415,6 +419,7 @@ cdef class const_poly_int:
     while i.isNext():
       m, c = const_monom(), const_integer()
       m.ptr, c.ptr = &i.monom(), &i.coeff()
+      m.owner, c.owner = self, self
       i.next()
       yield (m, c)
   def __str__(self):
@@ -445,12 +450,14 @@ cdef class const_poly_int:
     assert self
     r = const_monom()
     r.ptr = &self.ptr.lm()
+    r.owner = self
     return r
   def lc(self):
     assert self.ptr
     assert self
     r = const_integer()
     r.ptr = &self.ptr.lc()
+    r.owner = self
     return r
   def comparable(self, const_poly_int other):
     return self.ptr.comparable(other.ptr[0])
@@ -601,16 +608,19 @@ cdef extern from "poly_int.h" namespace "GInv":
 
 cdef class wrap_poly_int:
   cdef const WrapPolyInt *ptr
+  cdef object owner
   def __cinit__(self, ):
     self.ptr = NULL
 
   def lm(self):
     r = const_monom()
     r.ptr = &self.ptr.lm()
+    r.owner = self
     return r
   def ansector(self):
     r = const_monom()
     r.ptr = &self.ptr.ansector()
+    r.owner = self
     return r
   def isGB(self):
     return self.ptr.isGB()
@@ -622,6 +632,7 @@ cdef class wrap_poly_int:
   def poly(self):
     r = const_poly_int()
     r.ptr = &self.ptr.poly()
+    r.owner = self
     return r
 
   def __str__(self):
@@ -643,6 +654,7 @@ cdef extern from "janet.h" namespace "GInv":
 
 cdef class const_janet:
   cdef const Janet *ptr
+  cdef object owner
   def __cinit__(self, ):
     self.ptr = NULL
 
@@ -712,6 +724,7 @@ cdef class janet_poly_int:
     while i.isNext():
       r = wrap_poly_int()
       r.ptr = i.data()
+      r.owner = self
       i.next()
       yield r
 
@@ -737,6 +750,7 @@ cdef class janet_poly_int:
     else:
       r = wrap_poly_int()
       r.ptr = w
+      r.owner = self
       return r
 
   def nf(self, const_poly_int p):
@@ -750,6 +764,7 @@ cdef class janet_poly_int:
     assert -1 <= pos <= self.ptr.maxPos()
     r = const_janet()
     r.ptr = &self.ptr.janet(pos)
+    r.owner = self
     return r
 
   def HilbertPoly(self):
@@ -767,6 +782,7 @@ cdef class janet_poly_int:
   def timer(self):
     r = const_timer()
     r.ptr = &self.ptr.timer()
+    r.owner = self
     return r
   def reduction(self):
     return self.ptr.reduction()
-- 
2.43.0


From ecaf9932778d1780884744869eedfb4f70db2338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 18/46] fix: a failed allocation of a memory block is reported
 instead of being used as memory

---
 util/allocator.cpp | 5 +++--
 util/allocator.h   | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/allocator.cpp b/util/allocator.cpp
index 42c2623..748e921 100644
--- a/util/allocator.cpp
+++ b/util/allocator.cpp
@@ -80,9 +80,10 @@ void* Allocator::allocate(size_t n) {
   // n = ((n >> 6) + 1) << 6;          // выравнивание для кеша
   n = ((n >> 4) + 1) << 4;          // выравнивание для кеша
   if (mNodeSize + n > mNodeAlloc) { // если памяти в текущем блоке мало
-    mNodeAlloc = ((n + memoryPageSize) / memoryPageSize)*memoryPageSize;
+    size_t nodeAlloc = ((n + memoryPageSize) / memoryPageSize)*memoryPageSize;
+    mRoot = new Node(nodeAlloc, mRoot);
+    mNodeAlloc = nodeAlloc;
     mAlloc += mNodeAlloc;
-    mRoot = new Node(mNodeAlloc, mRoot);
     mNodeSize = 0;
     sCurrMemory += mNodeAlloc;
     sMaxMemory = (sMaxMemory >= sCurrMemory) ? sMaxMemory: sCurrMemory;
diff --git a/util/allocator.h b/util/allocator.h
index b8b090d..b86ed41 100644
--- a/util/allocator.h
+++ b/util/allocator.h
@@ -24,6 +24,7 @@
 #include <cstddef>
 #include <cstdlib>
 #include <cassert>
+#include <new>
 
 #include "config.h"
 #include "timer.h"
-- 
2.43.0


From 035e3c314cd34ab6c9041ed5e8f345dcfa9b45cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 19/46] fix: ginvMin prolonged only when it was verbose

---
 pyginv/ginv.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyginv/ginv.py b/pyginv/ginv.py
index f57d193..02cb952 100644
--- a/pyginv/ginv.py
+++ b/pyginv/ginv.py
@@ -151,13 +151,14 @@ def ginvMin(pset, invdiv, level=0):
   q = Q(Wrap(p) for p in pset)
   while True:
     m = q[0].lm if q else None
-    if level > 0:
-      if m:
+    if m:
+      if level > 0:
         print(f"prolong {m}")
-        q.push(invdiv.prolongMonom(m))
-      else:
+      q.push(invdiv.prolongMonom(m))
+    else:
+      if level > 0:
         print("prolongAll")
-        q.push(invdiv.prolongAll())
+      q.push(invdiv.prolongAll())
     if not q:
       break
     r = q.reduceAll(invdiv)
-- 
2.43.0


From 61bbfa0031a18088805ae9270cae3a2cbc7e5076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 20/46] fix: ginvBlockLow took a constant polynomial for an
 empty queue

---
 pyginv/ginv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyginv/ginv.py b/pyginv/ginv.py
index 02cb952..ceabad6 100644
--- a/pyginv/ginv.py
+++ b/pyginv/ginv.py
@@ -198,9 +198,9 @@ def ginvBlockLow(pset, invdiv, level=0):
     i = invdiv.degMinProlong()
     if level > 0:
       print(f"prolong {i}, Q {j}")
-    if i == 0 and j == 0:
+    if i == 0 and not q:
       break
-    if j == 0 or 0 < i < j:
+    if not q or 0 < i < j:
       q.push(invdiv.prolongDeg(i))
     res = q.reduceMinDegree(invdiv)
     if res:
-- 
2.43.0


From eae9e08d0fe44e9fdc0d467ec21ba18878ccdbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 21/46] fix: JanetCache reused multiples of an element that is
 no longer the involutive divisor

---
 pyginv/janet.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index fdffb11..370cfd2 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -394,13 +394,12 @@ class JanetCache(Janet):
       if not m1:
         r = w.poly
       else:
-        if m in self.сache:
-          r = self.сache[m]
-        else:
+        w2, lm2, r = self.сache.get(m, (None, None, None))
+        if w2 is not w or lm2 != w.lm:
           r = w.poly.mult(m1, sympy.S.One)
         r.NFtail(self)
         r.pp()
-        self.сache[m] = r
+        self.сache[m] = (w, w.lm, r)
         #print(m1, end=" ")
     return r
 
-- 
2.43.0


From 5d4386b3a753b334b3db46449aa0f2ef72957e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:33 +0000
Subject: [PATCH 22/46] fix: sums of polynomials shared their terms, so
 reducing one rewrote the other and the caller's input

---
 pyginv/janet.py      |  4 ++--
 pyginv/polynomial.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index 370cfd2..c7cea76 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -7,8 +7,8 @@ class Wrap:
 
   def __init__(self, *args):
     if len(args) == 1 and isinstance(args[0], Poly):
-      self.poly = args[0]
-      self.ansector = args[0].lm().copy()
+      self.poly = args[0].__class__(args[0])
+      self.ansector = self.poly.lm().copy()
     else:
       assert len(args) == 2 and isinstance(args[0], Wrap)
       assert args[0].prolong[args[1]] == False
diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index c40b8f7..343bc52 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -86,10 +86,10 @@ class Poly(list):
     while i < iend and j < jend:
       c = self[i][0].cmp(other[j][0])
       if c > 0:
-        p.append(self[i])
+        p.append(list(self[i]))
         i += 1
       elif c < 0:
-        p.append(other[j])
+        p.append(list(other[j]))
         j += 1
       else:
         k = self[i][1] + other[j][1]
@@ -98,10 +98,10 @@ class Poly(list):
         i += 1
         j += 1
     while i < iend:
-      p.append(self[i])
+      p.append(list(self[i]))
       i += 1
     while j < jend:
-      p.append(other[j])
+      p.append(list(other[j]))
       j += 1
     assert p.assertValid()
     return p
@@ -121,7 +121,7 @@ class Poly(list):
     while i < iend and j < jend:
       c = self[i][0].cmp(other[j][0])
       if c > 0:
-        p.append(self[i])
+        p.append(list(self[i]))
         i += 1
       elif c < 0:
         p.append([other[j][0], -other[j][1]])
@@ -133,7 +133,7 @@ class Poly(list):
         i += 1
         j += 1
     while i < iend:
-      p.append(self[i])
+      p.append(list(self[i]))
       i += 1
     while j < jend:
       p.append([other[j][0], -other[j][1]])
-- 
2.43.0


From 8abef62b5de5584f334d8066da3e72b999d2ff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:30 +0000
Subject: [PATCH 23/46] fix: pyginv applied Buchberger's product criterion to
 module elements

---
 pyginv/janet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index c7cea76..a72e8ff 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -79,7 +79,7 @@ class Wrap:
     return sum(0 if i else 1 for i in self.nonmult)
 
   def crit1(self, other):
-    return type(self.poly) == Poly and\
+    return type(self.poly) == Poly and self.lm.position() < 0 and\
         all(i == 0 or j == 0 for i, j in zip(self.ansector, other.ansector))
 
   def crit2(self, other):
-- 
2.43.0


From 94b3a367305eec5c2ae974a5a6726a647eb7f68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 24/46] hook: GINV_SIM lets a simulator decide when an arena is
 compacted (off by default)

---
 util/allocator.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/util/allocator.h b/util/allocator.h
index b86ed41..267008a 100644
--- a/util/allocator.h
+++ b/util/allocator.h
@@ -29,6 +29,11 @@
 #include "config.h"
 #include "timer.h"
 
+#ifdef GINV_SIM
+// -1: no opinion, 0: do not compact, 1: compact
+int ginv_sim_gc(std::size_t alloc, std::size_t size);
+#endif // GINV_SIM
+
 namespace GInv {
 
 class Allocator {
@@ -108,6 +113,11 @@ public:
   inline size_t size() const { return mSize; }
 #ifdef GINV_UTIL_ALLOCATOR
   inline bool isGC() const {                          // чисто эмпирические соображения
+#ifdef GINV_SIM // the simulator decides when to compact
+    int sim=ginv_sim_gc(mAlloc, mSize);
+    if (sim >= 0)
+      return sim > 0;
+#endif // GINV_SIM
     return mAlloc > 4096 && 2*mAlloc > 3*mSize;
   }
 #else
-- 
2.43.0


From d68849eb1416dba5d63b5c7c914fbb2b38d47c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:30 +0000
Subject: [PATCH 25/46] fix: assigning a GCPolyInt must copy the value, not
 share the arena

---
 ginv/poly_int.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index bdc1c38..52e6ca9 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -243,6 +243,11 @@ public:
   }
   ~GCPolyInt() {}
 
+  void operator=(const GCPolyInt &a) {
+    assert(this != &a);
+    PolyInt::operator=(a);
+  }
+
   void swap(GCPolyInt &a) {
     AllocatorPtr::swap(a);
     PolyInt::swap(a);
-- 
2.43.0


From 0edb655a573b3e9e6d1e4eff3de280cb5725a4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 26/46] fix: algorithmTQ2 must not build a Hilbert polynomial
 for an empty basis

---
 ginv/poly_int.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index d9f89ee..f7c1d96 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -1274,7 +1274,7 @@ void JanetPolyInt::algorithmTQ2() {
 
   std::cerr << "isZeroNf() - " << isZeroNf() << std::endl;
 
-  if (mOneWrap == nullptr) {
+  if (mOneWrap == nullptr && mT) {
     HilbertPoly hp;
     buildHP(hp);
     std::cerr << "HilbertPoly - " << hp << std::endl;
-- 
2.43.0


From 7cdaed0178b29a38a7235f2b3d525552168e996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 27/46] fix: Integer::reallocate releases the old limbs only
 after the new ones are there

---
 util/integer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/integer.cpp b/util/integer.cpp
index fdf1f6f..7467f22 100644
--- a/util/integer.cpp
+++ b/util/integer.cpp
@@ -29,11 +29,12 @@ char*  Integer::sBuffer=new char[Integer::sBufferSize];
   void Integer::reallocate(int size) {
     assert(size > 0);
     if (mMpz._mp_alloc < size) {
+      mp_limb_t *d = new(mAllocator) mp_limb_t[size];
       if (mMpz._mp_alloc)
         mAllocator->dealloc(mMpz._mp_d, mMpz._mp_alloc);
 //         delete[] mMpz._mp_d;
       mMpz._mp_alloc = size;
-      mMpz._mp_d = new(mAllocator) mp_limb_t[mMpz._mp_alloc];
+      mMpz._mp_d = d;
 //       mMpz._mp_d = new mp_limb_t[mMpz._mp_alloc];
     }
   }
-- 
2.43.0


From ea8990f9cd610a6607aadcd1855f55bc128d213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 28/46] fix: JanetPolyInt keeps an input primitive even when
 nothing reduces it

---
 ginv/poly_int.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ginv/poly_int.h b/ginv/poly_int.h
index 52e6ca9..a808e76 100644
--- a/ginv/poly_int.h
+++ b/ginv/poly_int.h
@@ -410,8 +410,11 @@ public:
   }
   void push(const PolyInt& a) {
     assert(comparable(a));
-    if (mOneWrap == nullptr && a)
-      insert(mQ, new WrapPolyInt(a));
+    if (mOneWrap == nullptr && a) {
+      WrapPolyInt *w = new WrapPolyInt(a);
+      w->poly().pp();
+      insert(mQ, w);
+    }
   }
 
 
-- 
2.43.0


From 5f1efd955b2de3209ed03f8374c82dd11560c5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:56 +0000
Subject: [PATCH 29/46] fix: algorithmBlockTQ reduces the tails of a block by
 the block itself

---
 ginv/poly_int.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index f7c1d96..59c65a5 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -847,6 +847,15 @@ std::cerr << "A" << std::endl;
 
     std::cerr << "2 mQ - " << mQ.length() << " mT - " << mT.length() << std::endl;
 
+    for(j = tmp.begin(); j; ++j) {
+      int r=j.data()->poly().nfTail(*this);
+      if (r) {
+        mReduction += r;
+        j.data()->poly().pp();
+        j.data()->reallocate();
+      }
+    }
+
     j = tmp.begin();
     k = mT.begin();
     while(k && j) {
-- 
2.43.0


From bc51109c52df9dc90c8434f43ca9f68dbfb0c101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:04 +0000
Subject: [PATCH 30/46] fix: pyginv number - polynomial returned polynomial -
 number

---
 pyginv/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index 343bc52..ee02aa4 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -107,7 +107,7 @@ class Poly(list):
     return p
 
   def __rsub__(self, other):
-    return self-other
+    return -self + other
 
   def __sub__(self, other):
     if other == S.Zero:
-- 
2.43.0


From a1a08cb12913b0ea1bed6fda305ba20e32762ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:32 +0000
Subject: [PATCH 31/46] fix: the lcm of two pyginv module monomials keeps their
 component

---
 pyginv/monomial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyginv/monomial.py b/pyginv/monomial.py
index 3594da0..55894dd 100644
--- a/pyginv/monomial.py
+++ b/pyginv/monomial.py
@@ -164,7 +164,9 @@ class Monom(tuple):
 
   def lcm(self, other):
     assert self.__pos == -1 or other.__pos == -1 or self.__pos == other.__pos
-    return Monom(max(i, j) for i, j in zip(self, other))
+    r = Monom(max(i, j) for i, j in zip(self, other))
+    r.__pos = max(self.__pos, other.__pos)
+    return r
 
   def gcd(self, other):
     assert self.__pos == -1 or other.__pos == -1 or self.__pos == other.__pos
-- 
2.43.0


From f902239ca72a548f72dc6fadfd5eb2852bd2030c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 32/46] fix: monomials, polynomials and allocators of the
 Python module never released their arenas

---
 cython/ginv.pyx | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cython/ginv.pyx b/cython/ginv.pyx
index 5f4bf68..06d1dbf 100644
--- a/cython/ginv.pyx
+++ b/cython/ginv.pyx
@@ -89,7 +89,11 @@ cdef class const_timer:
       )
 
 cdef class allocator:
-  cdef Allocator allocator[1]
+  cdef Allocator *allocator
+  def __cinit__(self):
+    self.allocator = new Allocator()
+  def __dealloc__(self):
+    del self.allocator
 
   @staticmethod
   def maxMemory():
@@ -329,9 +333,12 @@ cdef class const_monom:
     return self.ptr.alex(other.ptr[0])
 
 cdef class monom(const_monom):
-  cdef Allocator allocator[1]
+  cdef Allocator *allocator
+  def __cinit__(self):
+    self.allocator = new Allocator()
   def __dealloc__(self):
     del self.ptr
+    del self.allocator
 
   @staticmethod
   def zero(int size, int pos):
@@ -558,9 +565,12 @@ cdef class const_poly_int:
     return self.ptr.isPp()
 
 cdef class poly_int(const_poly_int):
-  cdef Allocator allocator[1]
+  cdef Allocator *allocator
+  def __cinit__(self):
+    self.allocator = new Allocator()
   def __dealloc__(self):
     del self.ptr
+    del self.allocator
 
   @staticmethod
   def to_monom(pos, order, const_monom a):
-- 
2.43.0


From 9c550a74bc913148f25be1f8ec54641476089abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:21 +0000
Subject: [PATCH 33/46] fix: PolyDiff.diff2poly kept sympy integers as
 exponents, so that prolonging an inhomogeneous equation failed

---
 pyginv/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index ee02aa4..f8d01fb 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -409,7 +409,7 @@ class PolyDiff(Poly):
         assert repr(a.args[0].func) in Monom._Monom__fun
         m = [0 for i in Monom._Monom__var]
         for v, d in a.args[1:]:
-          m[Monom._Monom__var.index(repr(v))] = d
+          m[Monom._Monom__var.index(repr(v))] = int(d)
         r = PolyDiff(Monom(m, pos=Monom._Monom__fun.index(repr(a.args[0].func))))
       return r       
 
-- 
2.43.0


From 6be3a4fca3c57667077371e8aedf223c4876fd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:21 +0000
Subject: [PATCH 34/46] fix: sums of symbolic coefficients of pyginv
 polynomials kept terms whose coefficient is zero

---
 pyginv/polynomial.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index f8d01fb..3bcfeff 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -2,6 +2,10 @@ import sympy
 from sympy import S, Integer, gcd, lcm, cancel, expand, fraction
 from monomial import *
 
+def normal(k):
+  # a sum of symbolic coefficients is zero exactly if its normal form is
+  return k if k.is_Rational else cancel(k)
+
 class Poly(list):
   __var = None
   __fun = None
@@ -92,7 +96,7 @@ class Poly(list):
         p.append(list(other[j]))
         j += 1
       else:
-        k = self[i][1] + other[j][1]
+        k = normal(self[i][1] + other[j][1])
         if k:
           p.append([self[i][0], k])
         i += 1
@@ -127,7 +131,7 @@ class Poly(list):
         p.append([other[j][0], -other[j][1]])
         j += 1
       else:
-        k = self[i][1] - other[j][1]
+        k = normal(self[i][1] - other[j][1])
         if k:
           p.append([self[i][0], k])
         i += 1
@@ -156,7 +160,7 @@ class Poly(list):
       for m2, k2 in other:
         m, k = m1*m2, k1*k2
         if m in t:
-          t[m] += k
+          t[m] = normal(t[m] + k)
         else:
           t[m] = k
     p = self.__class__()
@@ -258,9 +262,7 @@ class Poly(list):
         j += 1
       else:
         #k = ratsimp(self[i][1]*k1 + other[j][1]*k2)
-        k = self[i][1]*k1 + other[j][1]*k2
-        if not k.is_integer:
-          k = expand(k)
+        k = normal(self[i][1]*k1 + other[j][1]*k2)
         if k == S.Zero:
           del self[i]
         else:
@@ -293,9 +295,7 @@ class Poly(list):
         i += 1
         j += 1
       else:
-        k = self[i][1] + other[j][1]*k2
-        if not k.is_integer:
-          k = expand(k)
+        k = normal(self[i][1] + other[j][1]*k2)
         if k == S.Zero:
           del self[i]
         else:
-- 
2.43.0


From 15acad61624637184d9b87d533aaf09591df712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:21 +0000
Subject: [PATCH 35/46] fix: Poly.cancel overlooked the denominators of
 coefficients that are sums

---
 pyginv/polynomial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyginv/polynomial.py b/pyginv/polynomial.py
index 3bcfeff..809ba28 100644
--- a/pyginv/polynomial.py
+++ b/pyginv/polynomial.py
@@ -1,5 +1,5 @@
 import sympy
-from sympy import S, Integer, gcd, lcm, cancel, expand, fraction
+from sympy import S, Integer, gcd, lcm, cancel, expand, fraction, together
 from monomial import *
 
 def normal(k):
@@ -215,9 +215,9 @@ class Poly(list):
 
   def cancel(self):#TODO
     assert self
-    l = fraction(self[0][1])[1]
+    l = fraction(together(self[0][1]))[1]
     for mk in self[1:]:
-      l = lcm(l, fraction(mk[1])[1])
+      l = lcm(l, fraction(together(mk[1]))[1])
     for mk in self:
       mk[1] = cancel(mk[1]*l)
     assert self.assertValid()
-- 
2.43.0


From 2839a4fe1599b6fc301ccf6cdbb41c92da3843b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 36/46] fix: the zero Hilbert polynomial was written as nothing

---
 util/hilbertpoly.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/hilbertpoly.cpp b/util/hilbertpoly.cpp
index f101d89..8a55db1 100644
--- a/util/hilbertpoly.cpp
+++ b/util/hilbertpoly.cpp
@@ -128,6 +128,8 @@ std::ostream& operator<<(std::ostream& out, const HilbertPoly &a) {
         out << "s^" << i;
       sep=true;
     }
+  if (!sep)
+    out << '0';
   return out;
 }
 
-- 
2.43.0


From c1d6341c201afa7ac195dfb6de7e8267bfc5660b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 37/46] fix: writing a timer changed the stream's precision and
 could print exponents

---
 util/timer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/timer.cpp b/util/timer.cpp
index 36969c2..3e0e00a 100644
--- a/util/timer.cpp
+++ b/util/timer.cpp
@@ -118,11 +118,13 @@ void Timer::stop() {
 
 std::ostream& operator<<(std::ostream& out, const Timer &a) {
   std::ios::fmtflags flags = out.flags();
-  out.flags(flags | std::ios::fixed);
+  std::streamsize precision = out.precision();
+  out.setf(std::ios::fixed, std::ios::floatfield);
   out << "  real time: " << std::setprecision(2) << a.realTime() << " sec" << std::endl;
   out << "  user time: " << std::setprecision(2) << a.userTime() << " sec" << std::endl;
   out << "system time: " << std::setprecision(2) << a.sysTime()  << " sec" << std::endl;
   out.flags(flags);
+  out.precision(precision);
   return out;
 }
 
-- 
2.43.0


From 7a1685be3a130d512fd232a43f72f381eac3b945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 38/46] fix: a wrong assertion stopped Integer::reallocate for
 zero limbs

---
 util/integer.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/util/integer.cpp b/util/integer.cpp
index 7467f22..32556ca 100644
--- a/util/integer.cpp
+++ b/util/integer.cpp
@@ -27,7 +27,6 @@ char*  Integer::sBuffer=new char[Integer::sBufferSize];
 
 #ifdef GINV_UTIL_INTEGER_ALLOCATOR  
   void Integer::reallocate(int size) {
-    assert(size > 0);
     if (mMpz._mp_alloc < size) {
       mp_limb_t *d = new(mAllocator) mp_limb_t[size];
       if (mMpz._mp_alloc)
-- 
2.43.0


From 6da475eb259a6708b7e3f2a658fde0c0f94edbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 39/46] fix: wrong assertions stopped gcd and lcm of monomials
 of the same component

---
 ginv/monom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginv/monom.cpp b/ginv/monom.cpp
index a5205e7..3d73774 100644
--- a/ginv/monom.cpp
+++ b/ginv/monom.cpp
@@ -289,7 +289,7 @@ void Monom::div(const Monom& a) {
 
 int Monom::gcd(const Monom& a) const {
   assert(mSize == a.mSize);
-  assert(mPos == -1 || a.mPos == -1);
+  assert(mPos == -1 || a.mPos == -1 || mPos == a.mPos);
   int r=0;
   for(int i=0; i < mSize; i++)
     r += (mVariables[i] <= a.mVariables[i]) ? mVariables[i]: a.mVariables[i];
@@ -298,7 +298,7 @@ int Monom::gcd(const Monom& a) const {
 
 int Monom::lcm(const Monom& a) const {
   assert(mSize == a.mSize);
-  assert(mPos == -1 || a.mPos == -1);
+  assert(mPos == -1 || a.mPos == -1 || mPos == a.mPos);
   int r=0;
   for(int i=0; i < mSize; i++)
     r += (mVariables[i] >= a.mVariables[i]) ? mVariables[i]: a.mVariables[i];
-- 
2.43.0


From ab4725dd38764b58c2e9540e16244eba43738532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 40/46] fix: a wrong assertion stopped Janet::insert of a
 monomial of degree zero after a match

---
 ginv/janet.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ginv/janet.cpp b/ginv/janet.cpp
index ee660c2..519767a 100644
--- a/ginv/janet.cpp
+++ b/ginv/janet.cpp
@@ -338,7 +338,6 @@ void Janet::insert(Wrap *wrap) {
     Monom::Variable var = 0;
     do {
       assert(j);
-      assert(d > 0);
       assert(var < wrap->lm().size());
 
       while(j.degree() < wrap->lm()[var] && j.nextDeg())
-- 
2.43.0


From a090aef540a60ba52e2105acf94f72962c097abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:09 +0000
Subject: [PATCH 41/46] fix: TQ2 put postponed elements back into the queue out
 of order

---
 ginv/poly_int.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ginv/poly_int.cpp b/ginv/poly_int.cpp
index 59c65a5..f126af6 100644
--- a/ginv/poly_int.cpp
+++ b/ginv/poly_int.cpp
@@ -1173,9 +1173,11 @@ void JanetPolyInt::algorithmTQ2() {
       if (k.data()->poly().norm() < w->poly().norm()) {
         auto w1=w;
         w = k.data();
-        k.data() = w1;
+        k.del();
+        insert(tmp, w1);
       }
-      ++k;
+      else
+        ++k;
     }
 //     if (mMaxEqualLm < maxEqualLm)
 //       mMaxEqualLm = maxEqualLm;
-- 
2.43.0


From 458cca42e49da3de9c31deb10ee59edc3d821297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:09 +0000
Subject: [PATCH 42/46] fix: an arena abandoned by a refused copy reported a
 leak

---
 util/allocator.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/allocator.cpp b/util/allocator.cpp
index 748e921..b84c4d6 100644
--- a/util/allocator.cpp
+++ b/util/allocator.cpp
@@ -20,6 +20,8 @@
 
 #include <unistd.h>
 
+#include <exception>
+
 #include "allocator.h"
 
 namespace GInv {
@@ -41,10 +43,12 @@ Allocator::Allocator(const Allocator& a) {
 }
 
 Allocator::~Allocator() {
-  if (mSize != 0)
+  // a copy abandoned by an exception leaves its memory to the arena
+  const bool abandoned=std::uncaught_exception();
+  if (mSize != 0 && !abandoned)
     std::cerr << this << " (mSize != 0) "<< mSize << std::endl;
 
-  assert(mSize == 0);
+  assert(mSize == 0 || abandoned);
   sCurrMemory -= mAlloc;
   while(mRoot) {  // очистка списка блоков памяти
     auto *tmp = mRoot;
-- 
2.43.0


From 09be6336e996082930e94f6603770c4806b48592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:19 +0000
Subject: [PATCH 43/46] fix: a cached multiple changed in the hands of its
 holder, and was spoilt by an interrupt

---
 pyginv/janet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyginv/janet.py b/pyginv/janet.py
index a72e8ff..a65a04c 100644
--- a/pyginv/janet.py
+++ b/pyginv/janet.py
@@ -397,6 +397,8 @@ class JanetCache(Janet):
         w2, lm2, r = self.сache.get(m, (None, None, None))
         if w2 is not w or lm2 != w.lm:
           r = w.poly.mult(m1, sympy.S.One)
+        else:
+          r = r.__class__(r)  # прежний ответ не изменяется
         r.NFtail(self)
         r.pp()
         self.сache[m] = (w, w.lm, r)
-- 
2.43.0


From 2871fe0f8e77610c5cee82c2220a6bc181aad1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:12 +0000
Subject: [PATCH 44/46] fix: without the arena a refused allocation was handed
 out as a null pointer

---
 util/allocator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/allocator.cpp b/util/allocator.cpp
index b84c4d6..ce49f67 100644
--- a/util/allocator.cpp
+++ b/util/allocator.cpp
@@ -136,6 +136,9 @@ void Allocator::swap(Allocator& a) {
 const int addSize=sizeof(size_t)*2;
 void* Allocator::allocate(size_t n) {
   assert(n > 0);
+  void *r=malloc(n);
+  if (!r)
+    throw std::bad_alloc();
   size_t full=n + addSize;
   mAlloc += full;
   mSize += full;
@@ -145,7 +148,7 @@ void* Allocator::allocate(size_t n) {
     std::cerr << "memory limit exceeded - " << sLimitMemory << std::endl;
     exit(EXIT_SUCCESS);
   }
-  return malloc(n);
+  return r;
 }
 
 void Allocator::deallocate(const void* ptr, size_t n) {
-- 
2.43.0


From 35e09921d27046b7759d4f35fa8118f34d9bc164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:46 +0000
Subject: [PATCH 45/46] fix: moving onto a number leaked its limbs when GMP
 owns them

---
 util/integer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/integer.h b/util/integer.h
index 37aac0f..a09295c 100644
--- a/util/integer.h
+++ b/util/integer.h
@@ -162,7 +162,7 @@ public:
     mpz_swap(&mMpz, &a.mMpz);
   }
   void operator=(Integer&& a) {
-    mpz_set(&mMpz, &a.mMpz);
+    mpz_clear(&mMpz);
     mMpz._mp_alloc = a.mMpz._mp_alloc;
     mMpz._mp_size = a.mMpz._mp_size;
     mMpz._mp_d = a.mMpz._mp_d;
-- 
2.43.0


From aaabc78fc29e40b0f6abcb4e4cae03a826596b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:45 +0000
Subject: [PATCH 46/46] fix: every Hilbert polynomial leaked the limbs of a
 working fraction

---
 util/hilbertpoly.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/hilbertpoly.cpp b/util/hilbertpoly.cpp
index 8a55db1..001c35d 100644
--- a/util/hilbertpoly.cpp
+++ b/util/hilbertpoly.cpp
@@ -108,6 +108,7 @@ void HilbertPoly::binomial(long int a, unsigned long b) {
 
     for(k = 0; k < b; k++)
       mpq_clear(tmp + k);
+    mpq_clear(&q);
 
     delete[] tmp;
   }
-- 
2.43.0

