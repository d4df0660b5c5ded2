From d7747d26b2cf74b664c4b05137d530f2acb75284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 01/69] fix: TransparentQueue::swap() could not be instantiated

---
 include/bcl/transparent_queue.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 64d367d..86e6056 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -177,7 +177,9 @@ public:
     if (mIsSingle) {
       if (TQ.mIsSingle) {
         std::swap(mValue, TQ.mValue);
-        std::swap(mIsEmpty, TQ.mIsEmpty);
+        const bool IsEmpty = mIsEmpty;
+        mIsEmpty = TQ.mIsEmpty;
+        TQ.mIsEmpty = IsEmpty;
       } else {
         Ty *Tmp = mValue;
         mIsSingle = false;
@@ -188,14 +190,14 @@ public:
       }
     } else {
       if (TQ.mIsSingle) {
-        Ty *Tmp = TQ.Value;
+        Ty *Tmp = TQ.mValue;
         TQ.mIsSingle = false;
         TQ.mQueue = mQueue;
         mIsSingle = true;
         mIsEmpty = TQ.mIsEmpty;
         mValue = Tmp;
       } else {
-        mQueue->swap(TQ.mQueue);
+        std::swap(mQueue, TQ.mQueue);
       }
     }
   }
-- 
2.43.0


From 7877cc5968c8379e2396e8981b04782e976c0414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 02/69] fix: TransparentQueue assignment leaked its storage and
 returned nothing

---
 include/bcl/transparent_queue.h | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 86e6056..99f5aa2 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -29,6 +29,7 @@
 #include <assert.h>
 #include <cstring>
 #include <queue>
+#include <utility>
 
 namespace bcl {
 /// \brief Simple queue that store pointers.
@@ -67,12 +68,9 @@ public:
 
   /// Copy assignment.
   TransparentQueue & operator=(const TransparentQueue &TQ) {
-    mIsSingle = TQ.mIsSingle;
-    mIsEmpty = TQ.mIsEmpty;
-    if (mIsSingle)
-      mValue = TQ.mValue;
-    else
-      mQueue = new Container(*TQ.mQueue);
+    TransparentQueue Tmp(TQ);
+    swap(Tmp);
+    return *this;
   }
 
   /// Move constructor.
@@ -85,11 +83,9 @@ public:
 
   /// Move assignment.
   TransparentQueue & operator=(TransparentQueue &&TQ) {
-    mIsSingle = TQ.mIsSingle;
-    mIsEmpty = TQ.mIsEmpty;
-    std::memmove(&mQueue, &TQ.mQueue, sizeof(TQ.mQueue));
-    TQ.mIsSingle = true;
-    TQ.mIsEmpty = true;
+    TransparentQueue Tmp(std::move(TQ));
+    swap(Tmp);
+    return *this;
   }
 
   /// Removes allocated memory if it is necessary.
-- 
2.43.0


From f72357e87ef6e27e5c0e63b5b97f48c411794af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 03/69] fix: a moved-from TransparentQueue kept the element
 that had been moved

---
 include/bcl/transparent_queue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 99f5aa2..86aa681 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -79,6 +79,7 @@ public:
     std::memmove(&mQueue, &TQ.mQueue, sizeof(TQ.mQueue));
     TQ.mIsSingle = true;
     TQ.mIsEmpty = true;
+    TQ.mValue = nullptr;
   }
 
   /// Move assignment.
-- 
2.43.0


From 7d018a4d7dc478a0a2644244b6925a6be77af2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 04/69] fix: TransparentQueue::emplace() on an empty queue
 added a spurious element

---
 include/bcl/transparent_queue.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 86aa681..f498a3c 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -153,6 +153,11 @@ public:
   /// Pushes new element to the end of the queue.
   template<class... ArgTy> void emplace(ArgTy&&... Args) {
     if (mIsSingle) {
+      if (mIsEmpty) {
+        mIsEmpty = false;
+        mValue = value_type(std::forward<ArgTy>(Args)...);
+        return;
+      }
       mIsSingle = false;
       Ty *Current = mValue;
       mQueue = new Container();
-- 
2.43.0


From f977c25970aea6866f0c07e13acd30d36ea2932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 05/69] fix: comparison of a chain iterator with a node
 returned nothing

---
 include/bcl/Chain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Chain.h b/include/bcl/Chain.h
index ee34366..a2bd30f 100644
--- a/include/bcl/Chain.h
+++ b/include/bcl/Chain.h
@@ -246,7 +246,7 @@ public:
 
   /// Compares the iterator with a node.
   bool operator==(const Ty *RHS) const noexcept {
-    mCurrent == RHS;
+    return mCurrent == RHS;
   }
 
   /// Compares the iterator with a node.
-- 
2.43.0


From 1f2c3679c405f3c78be24d8a7587916898b1a5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 06/69] fix: postdecrement of chain iterators advanced them

---
 include/bcl/Chain.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Chain.h b/include/bcl/Chain.h
index a2bd30f..4dcbbf1 100644
--- a/include/bcl/Chain.h
+++ b/include/bcl/Chain.h
@@ -288,7 +288,7 @@ public:
   /// Postdecrement, this node must not be null.
   ChainIteratorC operator--(int)
       noexcept(noexcept(ChainIteratorC::operator--())) {
-    ChainIteratorC Tmp = *this; ++*this; return Tmp;
+    ChainIteratorC Tmp = *this; --*this; return Tmp;
   }
 
   /// Returns a current node.
@@ -361,7 +361,7 @@ public:
   /// Postdecrement, this node must not be null.
   ChainIterator operator--(int)
       noexcept(noexcept(ChainIterator::operator--())) {
-    ChainIterator Tmp = *this; ++*this; return Tmp;
+    ChainIterator Tmp = *this; --*this; return Tmp;
   }
 
   /// Returns a current node.
-- 
2.43.0


From 615d096891008cf9f625d82507fc31ddf28d3d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 07/69] fix: traversal members of chain iterators could not be
 instantiated

---
 include/bcl/Chain.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/bcl/Chain.h b/include/bcl/Chain.h
index 4dcbbf1..641af71 100644
--- a/include/bcl/Chain.h
+++ b/include/bcl/Chain.h
@@ -29,6 +29,8 @@
 #ifndef BCL_CHAIN_H
 #define BCL_CHAIN_H
 
+#include <utility>
+
 namespace bcl {
 /// \brief Simple bidirectional intrusive chain of nodes.
 ///
@@ -265,7 +267,8 @@ public:
 
   /// Preincrement, this node must not be null.
   ChainIteratorC & operator++()
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext(
+        std::declval<const Chain<Ty, Tag> *>()))) {
     assert(mCurrent && "Advancing null node!");
     mCurrent = ChainTraits<Ty, Tag>::getNext(mCurrent);
     return *this;
@@ -279,7 +282,8 @@ public:
 
   /// Predecrement, this node must not be null.
   ChainIteratorC & operator--()
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev(
+        std::declval<const Chain<Ty, Tag> *>()))) {
     assert(mCurrent && "Decreasing null node!!");
     mCurrent = ChainTraits<Ty, Tag>::getPrev(mCurrent);
     return *this;
@@ -296,13 +300,15 @@ public:
 
   /// Returns a next node.
   const Ty * getNext() const
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getNext(
+        std::declval<const Chain<Ty, Tag> *>()))) {
     return ChainTraits<Ty, Tag>::getNext(mCurrent);
   }
 
   /// Returns a previous node.
   const Ty * getPrev() const
-      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev())) {
+      noexcept(noexcept(ChainTraits<Ty, Tag>::getPrev(
+        std::declval<const Chain<Ty, Tag> *>()))) {
     return ChainTraits<Ty, Tag>::getPrev(mCurrent);
   }
 
-- 
2.43.0


From d7c19c4dff15abdcb66d9679624bf5e2b819bc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 08/69] fix: number of guards and monomials of an equation was
 never returned

---
 include/bcl/Equation.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index e35056d..bf9ef9f 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -143,7 +143,7 @@ public:
     return guard_const_range{guard_begin(), guard_end()};
   }
 
-  std::size_t guard_size() const noexcept { mGuards.second; }
+  std::size_t guard_size() const noexcept { return mGuards.second; }
 
   using inverse_iterator = typename InverseGuardList::iterator;
   using inverse_range = Range<inverse_iterator>;
@@ -176,7 +176,7 @@ public:
     return inverse_const_range{inverse_begin(), inverse_end()};
   }
 
-  std::size_t inverse_size() const noexcept { mInverseGuards.second; }
+  std::size_t inverse_size() const noexcept { return mInverseGuards.second; }
 
   using computed_iterator = typename ComputedMonomList::iterator;
   using computed_range = Range<computed_iterator>;
@@ -210,7 +210,7 @@ public:
     return computed_const_range{computed_begin(), computed_end()};
   }
 
-  std::size_t computed_size() const noexcept { mComputedMonoms.second; }
+  std::size_t computed_size() const noexcept { return mComputedMonoms.second; }
 
 private:
   std::pair<GuardList, std::size_t> mGuards = {{}, 0};
-- 
2.43.0


From e1821230364becd3baaef261ee38b6606abc9358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 09/69] fix: discarded equations were enumerated as
 instantiated ones

---
 include/bcl/Equation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index bf9ef9f..a9f098a 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -523,7 +523,7 @@ public:
         ++I;
       } else {
         --mInstantiatedSize;
-        std::swap(mIdx[I], mIdx[mInstantiatedSize]);
+        std::swap(mRows[mIdx[I]], mRows[mIdx[mInstantiatedSize]]);
       }
     }
   }
-- 
2.43.0


From 92c704b190e5e59331060e49f5f2e2de79b2c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 10/69] fix: coefficients of a reversed solution were truncated
 to the column type

---
 include/bcl/Equation.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index a9f098a..137f0e1 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -467,7 +467,8 @@ public:
     for (std::size_t I = 0, EI = mSolution.size(); I < EI; ++I) {
       std::swap(Divisors[0], Divisors[I]);
       auto Production = std::accumulate(
-        Divisors.begin() + 1, Divisors.end(), 1, std::multiplies<ColumnT>());
+        Divisors.begin() + 1, Divisors.end(), ValueT(1),
+        std::multiplies<ValueT>());
       auto &S = mSolution[I];
       Production *= (S.RHS.Value * Production  <  0) ? -1 : 1;
       S.LHS.Value *= Production;
-- 
2.43.0


From 041f614c9c2f84b97e8d2ee177d1456f62ea5aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 11/69] fix: minimum free term was computed in the column type

---
 include/bcl/Equation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index 137f0e1..1d40742 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -484,7 +484,7 @@ public:
   /// computed solution have non-negative free terms.
   template <class ColumnInfoT>
   void solutioWithPositiveConstant(ColumnInfoT &Info) {
-    ColumnT Min = 0;
+    ValueT Min = 0;
     for (std::size_t I = 0, EI = mSolution.size(); I < EI; ++I) {
       if (mSolution[I].Constant < Min)
         Min = mSolution[I].Constant;
-- 
2.43.0


From 43103d0f36f400353bd44fa3ed7bba59e729ea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 12/69] fix: dependent equations were solved incorrectly or
 divided by zero

---
 include/bcl/Equation.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index 1d40742..ccf3e3e 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -362,11 +362,24 @@ public:
   std::size_t solve(ColumnInfoT &Info, StreamT &OS = Undef) {
     for (std::size_t I = 0; I < mInstantiatedSize; ++I) {
       auto &Row = mRows[mIdx[I]];
+      // Substitutions may produce an equation A * X + B * X = C.
+      const bool IsSingle = Row.LHS.Column == Row.RHS.Column;
+      if (IsSingle) {
+        Row.LHS.Value += Row.RHS.Value;
+        Row.RHS.Value = 0;
+      }
       // We want to solve binomial equation A * X + B * Y = C
       // 1. Find GCD and two coefficients X' and Y' such as GCD = A * X' + B * Y'
       auto GCD = euclidGCD(Row.LHS.Value, Row.RHS.Value);
       log("> solve:\n", OS);
       logEquation(Row, Info, OS);
+      if (std::get<0>(GCD) == 0) {
+        // This is 0 = C, it does not restrict variables if C is zero.
+        if (!IsSolvable && Row.Constant != 0)
+          return I;
+        assert(Row.Constant == 0 && "Equation must have solution!");
+        continue;
+      }
       if (!IsSolvable && Row.Constant % std::get<0>(GCD))
         return I;
       assert(Row.Constant % std::get<0>(GCD) == 0 &&
@@ -391,10 +404,12 @@ public:
       // Y = (Y' * Q) + (A / GCD) * T, where T is any integer value.
       mSolution.emplace_back(Row.LHS.Column, 1,
         ParameterCol, Row.RHS.Value / std::get<0>(GCD), AnySolution.first);
-      mSolution.emplace_back(Row.RHS.Column, 1,
-        ParameterCol, - Row.LHS.Value / std::get<0>(GCD), AnySolution.second);
+      if (!IsSingle)
+        mSolution.emplace_back(Row.RHS.Column, 1,
+          ParameterCol, - Row.LHS.Value / std::get<0>(GCD), AnySolution.second);
+      const std::size_t NewSize = IsSingle ? 1 : 2;
       auto &SolutionLHS = mSolution[mSolution.size() - 1];
-      auto &SolutionRHS = mSolution[mSolution.size() - 2];
+      auto &SolutionRHS = mSolution[mSolution.size() - NewSize];
       log("> solution:\n", OS);
       logEquation(SolutionLHS, Info, OS);
       logEquation(SolutionRHS, Info, OS);
@@ -417,7 +432,7 @@ public:
         logEquation(RowToUpdate, Info, OS);
       }
       log("> update solution:\n", OS);
-      for (std::size_t J = 0, EJ = mSolution.size() - 2; J < EJ; ++J) {
+      for (std::size_t J = 0, EJ = mSolution.size() - NewSize; J < EJ; ++J) {
         auto &SolutionToUpdate = mSolution[J];
         logEquation(SolutionToUpdate, Info, OS);
         updateRow(SolutionLHS, SolutionToUpdate.Constant, SolutionToUpdate.LHS);
-- 
2.43.0


From d52d3446df66783ad0855640f72e279112c0cf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:07 +0000
Subject: [PATCH 13/69] fix: binary literals of 32 and more digits had wrong
 values

---
 include/bcl/utility.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index b2ee789..a460f3a 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -83,7 +83,8 @@ template <char HighBit, char... Bits>
 struct ToBinary<HighBit, Bits...> {
   static_assert(HighBit == '0' || HighBit == '1', "Not a binary value!");
   static const unsigned long long Value =
-    (HighBit - '0') << (sizeof...(Bits)) | ToBinary<Bits...>::Value;
+    static_cast<unsigned long long>(HighBit - '0') << (sizeof...(Bits)) |
+    ToBinary<Bits...>::Value;
 };
 
 /// Implementation of a user-defined binary-literal.
-- 
2.43.0


From 65a4be181ccbe1efc9ea26fc11e5d9c5bbeb97da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:07 +0000
Subject: [PATCH 14/69] fix: numberOfLessZeros() never returned for zero

---
 include/bcl/utility.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index a460f3a..99b4af1 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -110,7 +110,8 @@ constexpr unsigned long long operator "" _b() {
 template<class T>
 inline constexpr std::size_t numberOfLessZeros(T Value, T Base) {
   static_assert(std::is_integral<T>::value, "T must be an integral type!");
-  return Value % Base != 0 ? 0 : numberOfLessZeros(Value / Base, Base) + 1;
+  return Value % Base != 0 ? 0 :
+    Value / Base == 0 ? 1 : numberOfLessZeros(Value / Base, Base) + 1;
 }
 
 /// Returns a number of digits in a value which is represented in a number
-- 
2.43.0


From e6b05bb62e3a55a67f657b9cf903272775fa0b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:07 +0000
Subject: [PATCH 15/69] fix: shrinkPair() read outside of values narrower than
 a half of the result

---
 include/bcl/utility.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/bcl/utility.h b/include/bcl/utility.h
index 99b4af1..1e084e1 100644
--- a/include/bcl/utility.h
+++ b/include/bcl/utility.h
@@ -371,8 +371,11 @@ template<class FirstT, class SecondT, class T> bool shrinkPair(
   for (std::size_t I = HalfSizeOfT; I < sizeof(SecondT); ++I)
     if (RawSecond[I] != 0)
       return false;
-  std::memmove((char *)&Out, RawFirst, HalfSizeOfT);
-  std::memmove((char *)&Out + HalfSizeOfT, RawSecond, HalfSizeOfT);
+  std::memset((char *)&Out, 0, SizeOfT);
+  std::memmove((char *)&Out, RawFirst,
+    sizeof(FirstT) < HalfSizeOfT ? sizeof(FirstT) : HalfSizeOfT);
+  std::memmove((char *)&Out + HalfSizeOfT, RawSecond,
+    sizeof(SecondT) < HalfSizeOfT ? sizeof(SecondT) : HalfSizeOfT);
   return true;
 }
 
-- 
2.43.0


From fe7f3483670cf85fabcf66e43d99e262a39895a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:57 +0000
Subject: [PATCH 16/69] fix: move assignment of multidimensional arrays leaked
 elements and returned nothing

---
 include/bcl/marray.h   | 12 ++++++++----
 include/bcl/marray_f.h | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/bcl/marray.h b/include/bcl/marray.h
index 889b1de..2d52009 100644
--- a/include/bcl/marray.h
+++ b/include/bcl/marray.h
@@ -105,10 +105,14 @@ public:
   }
 
   inline marray & operator=(marray &&From) BCL_ALWAYS_INLINE {
-    mDims = std::move(From.mDims);
-    mOffset = std::move(From.mOffset);
-    mData = From.mData;
-    From.mData = nullptr;
+    if (this != &From) {
+      delete [] mData;
+      mDims = std::move(From.mDims);
+      mOffset = std::move(From.mOffset);
+      mData = From.mData;
+      From.mData = nullptr;
+    }
+    return *this;
   }
 
   inline ~marray() BCL_ALWAYS_INLINE {
diff --git a/include/bcl/marray_f.h b/include/bcl/marray_f.h
index 0e9a17e..590d79b 100644
--- a/include/bcl/marray_f.h
+++ b/include/bcl/marray_f.h
@@ -76,10 +76,14 @@ public:
   }
 
   inline marray_f & operator=(marray_f &&From) BCL_ALWAYS_INLINE {
-    mDims = std::move(From.mDims);
-    mOffset = std::move(From.mOffset);
-    mData = From.mData;
-    From.mData = nullptr;
+    if (this != &From) {
+      delete [] mData;
+      mDims = std::move(From.mDims);
+      mOffset = std::move(From.mOffset);
+      mData = From.mData;
+      From.mData = nullptr;
+    }
+    return *this;
   }
 
   inline ~marray_f() BCL_ALWAYS_INLINE {
-- 
2.43.0


From c1a16c030d957a9c4fc7e860516158bbff9d0472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:57 +0000
Subject: [PATCH 17/69] fix: diagnostic texts were released with the wrong form
 of delete

---
 include/bcl/Diagnostic.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Diagnostic.h b/include/bcl/Diagnostic.h
index 00bf223..fc89ce2 100644
--- a/include/bcl/Diagnostic.h
+++ b/include/bcl/Diagnostic.h
@@ -37,7 +37,7 @@ namespace bcl {
 ///
 /// All diagnostics are represented as a character string.
 class Diagnostic {
-  typedef std::vector<std::unique_ptr<const char>> Collection;
+  typedef std::vector<std::unique_ptr<const char[]>> Collection;
 
 public:
   typedef const char * value_type;
@@ -209,11 +209,11 @@ public:
       ++mInternalError;
       return false;
     }
-    mDiagnostics.emplace_back(std::unique_ptr<const char>(Buf));
+    mDiagnostics.emplace_back(std::unique_ptr<const char[]>(Buf));
     return true;
   }
 private:
-  std::unique_ptr<const char> mKind;
+  std::unique_ptr<const char[]> mKind;
   Collection mDiagnostics;
   size_type mInternalError = 0;
 };
-- 
2.43.0


From e61dcdff85948fa9e4a1dd228b2f35eab943543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:57 +0000
Subject: [PATCH 18/69] fix: diagnostic text was leaked on an internal error

---
 include/bcl/Diagnostic.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bcl/Diagnostic.h b/include/bcl/Diagnostic.h
index fc89ce2..79beb0c 100644
--- a/include/bcl/Diagnostic.h
+++ b/include/bcl/Diagnostic.h
@@ -206,6 +206,7 @@ public:
     char *Buf = new char[Size];
     if (std::snprintf(Buf, PreSize + 1, PrefixFmt, mKind.get(), Code, Pos) < 0 ||
         std::snprintf(Buf + PreSize, ErrSize + 1, Fmt, A...) < 0) {
+      delete[] Buf;
       ++mInternalError;
       return false;
     }
-- 
2.43.0


From 4ed6c76195361934e9434c35a4566c4819b19086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 19/69] fix: TraitSet::release() erased a missing description

---
 include/bcl/trait.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index 1d5511b..1daf246 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -805,8 +805,9 @@ public:
   template<class Trait> TraitDataTy<Trait> * release() {
     auto constexpr Key = TraitDescriptor::template getKey<Trait>();
     auto I = mValues.find(Key);
-    auto *Result = I == mValues.end() ? nullptr :
-      reinterpret_cast<TraitDataTy<Trait>*>(I->second);
+    if (I == mValues.end())
+      return nullptr;
+    auto *Result = reinterpret_cast<TraitDataTy<Trait>*>(I->second);
     mValues.erase(I);
     return Result;
   }
-- 
2.43.0


From d8d369a534fa88d20ff25e84d60c747639fd50b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 20/69] fix: move assignment of a TraitSet leaked descriptions
 of traits

---
 include/bcl/trait.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/bcl/trait.h b/include/bcl/trait.h
index 1daf246..052f573 100644
--- a/include/bcl/trait.h
+++ b/include/bcl/trait.h
@@ -619,7 +619,16 @@ class TraitSet {
 public:
   TraitSet() = default;
   TraitSet(TraitSet &&) = default;
-  TraitSet & operator=(TraitSet &&) = default;
+
+  /// Destroys descriptions stored in this set and moves other ones to it.
+  TraitSet & operator=(TraitSet &&TS) {
+    if (this != &TS) {
+      unset_all();
+      mValues = std::move(TS.mValues);
+      mTD = std::move(TS.mTD);
+    }
+    return *this;
+  }
 
   // This set manages memory allocation for a trait description, however,
   // it does not know how to copy this trait. Hence, only 'move' operations are
-- 
2.43.0


From acc419c8783c3a2cd4ed4666b3cd199073f575f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 21/69] fix: values of a static map built from a type list were
 initialized in reverse order

---
 include/bcl/cell.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index 8b376cb..33d57de 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -370,7 +370,7 @@ namespace detail {
 template<template<class Ty> class KeyCtor, class Types, class... Keys>
 struct StaticMapConstructorImp {
   typedef typename StaticMapConstructorImp<KeyCtor, typename Types::Next,
-    typename KeyCtor<typename Types::Type>::CellKey, Keys...>::Type Type;
+    Keys..., typename KeyCtor<typename Types::Type>::CellKey>::Type Type;
 };
 
 template<template<class Ty> class KeyCtor, class... Keys>
-- 
2.43.0


From 21dbe9a1cb5184d4412a7d965ef27cf385413ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 22/69] fix: cells could not be copied or moved to a target
 collection

---
 include/bcl/cell.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/bcl/cell.h b/include/bcl/cell.h
index 33d57de..ce8562f 100644
--- a/include/bcl/cell.h
+++ b/include/bcl/cell.h
@@ -696,7 +696,7 @@ private:
 template<class To_> struct CopyFromCellFunctor {
   typedef To_ To;
 
-  CopyFromCellFunctor(const To *T) : mTo(T) {
+  CopyFromCellFunctor(To *T) : mTo(T) {
     assert(T && "A target collection must not be null!");
   }
 
@@ -713,7 +713,7 @@ private:
 
   template<class CellTy> inline void copyFrom(CellTy *, std::false_type) {}
 
-  const To *mTo;
+  To *mTo;
 };
 
 /// \brief Moves data from one cell to another.
@@ -724,7 +724,7 @@ private:
 template<class From_> struct MoveToCellFunctor {
   typedef From_ From;
 
-  MoveToCellFunctor(const From *F) : mFrom(F) {
+  MoveToCellFunctor(From *F) : mFrom(F) {
     assert(F && "The source of data must not be null!");
   }
 
@@ -741,7 +741,7 @@ private:
 
   template<class CellTy> inline void moveTo(CellTy *, std::false_type) {}
 
-  const From *mFrom;
+  From *mFrom;
 };
 
 /// \brief Moves data from one cell to another.
@@ -752,7 +752,7 @@ private:
 template<class To_> struct MoveFromCellFunctor {
   typedef To_ To;
 
-  MoveFromCellFunctor(const To *T) : mTo(T) {
+  MoveFromCellFunctor(To *T) : mTo(T) {
     assert(T && "A target collection must not be null!");
   }
 
@@ -769,7 +769,7 @@ private:
 
   template<class CellTy> inline void moveFrom(CellTy *, std::false_type) {}
 
-  const To *mTo;
+  To *mTo;
 };
 }
 
-- 
2.43.0


From 0ae1810aa4f7cf4a709ce2767147e839faa56e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 23/69] fix: index of a tag in a tagged tuple could not be
 obtained

---
 include/bcl/tagged.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/tagged.h b/include/bcl/tagged.h
index 706d51e..4be13da 100644
--- a/include/bcl/tagged.h
+++ b/include/bcl/tagged.h
@@ -361,7 +361,8 @@ template<class Tag, class T> class tagged_tuple_idx;
 template<class Tag, class... Taggeds>
 class tagged_tuple_idx<Tag, tagged_tuple<Taggeds...>> :
   public std::integral_constant<
-    std::size_t, bcl::index_of<Tag, Taggeds...>()> {};
+    std::size_t, bcl::index_of<
+      bcl::get_tagged<Tag, Taggeds...>, Taggeds...>()> {};
 
 /// Provide compile time access to a tag with a specified index.
 template<std::size_t Idx, class T> struct tagged_tuple_tag;
-- 
2.43.0


From 8456a7ff991b4d140077520460f1d33d2c8ff24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 24/69] fix: end of a JSON string with escaped characters was
 determined incorrectly

---
 include/bcl/Json.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index aae7f4e..b2761e9 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -357,7 +357,7 @@ enum class Token : char {
   COMMA = ',',
   COLON = ':',
   QUOTE = '"',
-  ESCAPE = '/',
+  ESCAPE = '\\',
   DOT = '.',
   PLUS = '+',
   MINUS = '-',
@@ -468,7 +468,9 @@ public:
     mStart = mEnd = mNext;
     if (isQuote(mJSON[mNext])) {
       for (++mNext; mNext < mJSON.size(); ++mNext) {
-        if (isQuote(mJSON[mNext]) && !isEscape(mJSON[mNext - 1])) {
+        if (isEscape(mJSON[mNext])) {
+          ++mNext;
+        } else if (isQuote(mJSON[mNext])) {
           mEnd = mNext++;
           mToken = Token::IDENTIFIER;
           return true;
-- 
2.43.0


From 5c4bb9be8cf1f149cfb1f302829b736b84e6735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 25/69] fix: an escape sequence at the end of a JSON string led
 to reading out of bounds

---
 include/bcl/Json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index b2761e9..9d2b935 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1047,7 +1047,7 @@ template<> struct Traits<std::string> {
     std::string Res;
     Res.reserve(Str.length());
     auto I = Str.begin(), EI = Str.end() - 1;
-    while (I != EI) {
+    while (I < EI) {
       if (*I != '\\') {
         Res += *I;
         ++I;
-- 
2.43.0


From 36c0a535f1d2694fc9f1a506bd1f87e89875e2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 26/69] fix: separate letters were treated as JSON identifiers,
 numbers and keywords

---
 include/bcl/Json.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 9d2b935..faa2ea4 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -515,7 +515,9 @@ public:
         return true;
     }
     mEnd = mNext;
-    mToken = static_cast<Token>(mJSON[mStart]);
+    // Letters are codes of tokens which consist of several characters.
+    mToken = std::isalpha(mJSON[mStart]) ? Token::INVALID :
+      static_cast<Token>(mJSON[mStart]);
     ++mNext;
     return true;
   }
-- 
2.43.0


From ae828445a6c3f26dfa1c37c0a22ee00a78a76303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:09 +0000
Subject: [PATCH 27/69] fix: restored position of a JSON lexer was not removed
 from a stack

---
 include/bcl/Json.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index faa2ea4..63b2623 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -609,6 +609,7 @@ public:
     mNext = mStates.top().mNext;
     mToken = mStates.top().mToken;
     mIsIntegral = mStates.top().mIsIntegral;
+    mStates.pop();
   }
 
   /// \brief Returns start position of a current token in the JSON string.
-- 
2.43.0


From f56aa997be4166bf5595e18bfb4e1b3b31adae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:10 +0000
Subject: [PATCH 28/69] fix: characters were read from and written to JSON
 incorrectly

---
 include/bcl/Json.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 63b2623..507ad47 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1110,12 +1110,14 @@ template<> struct Traits<char> {
       Lex.json().substr(Value.first, Value.second - Value.first + 1));
     if (Tmp.size() != 1)
       return false;
-    Dest = Lex.json()[Tmp.front()];
+    Dest = Tmp.front();
     return true;
   }
   inline static void unparse(String &JSON, char Obj) {
     auto I = JSON.size() + 1;
-    JSON += '"' + Obj + '"';
+    JSON += '"';
+    JSON += Obj;
+    JSON += '"';
     Traits<std::string>::escape(JSON, I);
   }
 };
-- 
2.43.0


From a11d28aade754015a4a759213ec8113f41f27e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:10 +0000
Subject: [PATCH 29/69] fix: JSON numbers out of range of unsigned were
 truncated

---
 include/bcl/Json.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 507ad47..8d2eb37 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -228,6 +228,7 @@
 #include "Diagnostic.h"
 #include "utility.h"
 #include <cctype>
+#include <limits>
 #include <map>
 #include <memory>
 #include <optional>
@@ -1178,7 +1179,10 @@ template<> struct Traits<unsigned> {
     try {
       std::string Str;
       Traits<std::string>::parse(Str, Lex);
-      Dest = static_cast<unsigned>(std::stoul(Str));
+      auto Value = std::stoul(Str);
+      if (Value > std::numeric_limits<unsigned>::max())
+        return false;
+      Dest = static_cast<unsigned>(Value);
     }
     catch (...) {
       return false;
-- 
2.43.0


From 4f6ab10e2060f33e86e851da43b271a22b3462aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:10 +0000
Subject: [PATCH 30/69] fix: arrays read from JSON were released with the wrong
 form of delete

---
 include/bcl/Json.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 8d2eb37..bd74d6a 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1316,7 +1316,7 @@ template<> struct Traits<char *> {
           throw 0;
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     } else {
@@ -1329,7 +1329,7 @@ template<> struct Traits<char *> {
         TmpDest[Unescaped.length()] = '\0';
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     }
@@ -1392,7 +1392,7 @@ template<class Ty> struct Traits<Ty *> {
           throw 0;
       }
       catch (...) {
-        if (TmpDest) { try { delete TmpDest; } catch (...) {} }
+        if (TmpDest) { try { delete[] TmpDest; } catch (...) {} }
         return false;
       }
     } else {
-- 
2.43.0


From bdc0c1a501cdd205213a95f5c85b26a263b00ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:10 +0000
Subject: [PATCH 31/69] fix: indeterminate key was inserted in a map if a JSON
 key is invalid

---
 include/bcl/Json.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index bd74d6a..4c67a91 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1571,8 +1571,10 @@ struct Traits<std::map<KeyTy, Ty, Compare, Allocator>> {
     Lex.storePosition();
     Lex.setPosition(Key.first);
     KeyTy KeyValue;
-    Traits<KeyTy>::parse(KeyValue, Lex);
+    bool IsKeyOk = Traits<KeyTy>::parse(KeyValue, Lex);
     Lex.restorePosition();
+    if (!IsKeyOk)
+      return false;
     auto Pair = Dest.emplace(KeyValue, Ty());
     if (!Pair.second) {
       Lex.errors().insert(JSON_ERROR(8), Lex.start());
@@ -1624,8 +1626,10 @@ struct Traits<std::multimap<KeyTy, Ty, Compare, Allocator>> {
     Lex.storePosition();
     Lex.setPosition(Key.first);
     KeyTy KeyValue;
-    Traits<KeyTy>::parse(KeyValue, Lex);
+    bool IsKeyOk = Traits<KeyTy>::parse(KeyValue, Lex);
     Lex.restorePosition();
+    if (!IsKeyOk)
+      return false;
     auto Itr = Dest.emplace(KeyValue, Ty());
     if (Itr == Dest.end())
       return false;
-- 
2.43.0


From a2c64e6780168d02832ea643b791ab8e7949fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:10 +0000
Subject: [PATCH 32/69] fix: optional value was indeterminate if a JSON value
 is invalid

---
 include/bcl/Json.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 4c67a91..421980b 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1867,7 +1867,8 @@ template<class T> struct Traits<std::optional<T>> {
         Dest.reset();
       } else {
         T Tmp;
-        Traits<T>::parse(Tmp, Lex);
+        if (!Traits<T>::parse(Tmp, Lex))
+          return false;
         Dest = std::move(Tmp);
       }
     }
-- 
2.43.0


From b32f1508011f67b549711e764bbef3d1798ba54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:10 +0000
Subject: [PATCH 33/69] fix: optional string which is equal to 'null' was lost
 in JSON

---
 include/bcl/Json.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 421980b..1a9ed87 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1862,7 +1862,8 @@ template<class T> struct Traits<std::optional<T>> {
     try {
       std::string Str;
       if (Lex.isKeyword(Keyword::NO_VALUE) ||
-          Traits<std::string>::parse(Str, Lex) &&
+          !std::is_same<T, std::string>::value && Lex.is(Token::IDENTIFIER) &&
+              Traits<std::string>::parse(Str, Lex) &&
               Str == toString(Keyword::NO_VALUE)) {
         Dest.reset();
       } else {
-- 
2.43.0


From 63672dcb4c5f402e4f545b2f0cf00e1a9915e511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:10 +0000
Subject: [PATCH 34/69] fix: brackets and delimiters were accepted as scalar
 values in JSON

---
 include/bcl/Json.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 1a9ed87..05bde1f 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1087,6 +1087,8 @@ template<> struct Traits<std::string> {
   }
   inline static bool parse(std::string &Dest, Lexer &Lex) noexcept {
     try {
+      if (!Lex.checkValue())
+        return false;
       auto Value = Lex.discardQuote();
       Dest = unescape(
         Lex.json().substr(Value.first, Value.second - Value.first + 1));
@@ -1106,10 +1108,8 @@ template<> struct Traits<std::string> {
 
 template<> struct Traits<char> {
   inline static bool parse(char &Dest, Lexer &Lex) noexcept {
-    auto Value = Lex.discardQuote();
-    auto Tmp = Traits<std::string>::unescape(
-      Lex.json().substr(Value.first, Value.second - Value.first + 1));
-    if (Tmp.size() != 1)
+    std::string Tmp;
+    if (!Traits<std::string>::parse(Tmp, Lex) || Tmp.size() != 1)
       return false;
     Dest = Tmp.front();
     return true;
@@ -1321,9 +1321,9 @@ template<> struct Traits<char *> {
       }
     } else {
       try {
-        auto Value = Lex.discardQuote();
-        auto Unescaped = Traits<std::string>::unescape(
-          Lex.json().substr(Value.first, Value.second - Value.first + 1));
+        std::string Unescaped;
+        if (!Traits<std::string>::parse(Unescaped, Lex))
+          return false;
         TmpDest = new char[Unescaped.length() + 1];
         Unescaped.copy(TmpDest, Unescaped.length());
         TmpDest[Unescaped.length()] = '\0';
-- 
2.43.0


From 68ad42e7183e3cf2c64c4c4613fbb92372ef1902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:10 +0000
Subject: [PATCH 35/69] fix: an empty text was accepted as a JSON string

---
 include/bcl/Json.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 05bde1f..7797f74 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -767,7 +767,8 @@ template<class... Objects> class Parser {
     /// Converts JSON string to a specified Ty.
     template<class Ty> static bool parse(Ty &Obj, Lexer &Lex) {
       Lex.resetPosition();
-      Lex.goToNext();
+      if (!Lex.goToNext())
+        return false;
       if (!Traits<Ty>::parse(Obj, Lex)) {
         Lex.errors().insert(JSON_ERROR(6), Lex.start());
         return false;
-- 
2.43.0


From a9b5fdb94cdc3af6f3fed67c8a798cf8fa946d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:10 +0000
Subject: [PATCH 36/69] fix: no error was reported if there is a comma after a
 JSON value

---
 include/bcl/Json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 7797f74..313e1fc 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -775,7 +775,7 @@ template<class... Objects> class Parser {
       }
       if (Lex.next() < Lex.json().size()) {
         Lex.goToNext();
-        Lex.checkSpecial(Token::COMMA);
+        Lex.errors().insert(JSON_ERROR(9), Lex.start());
         return false;
       }
       return true;
-- 
2.43.0


From 37161441ef6d6c8e421794f006ac9e0e223dc12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:20 +0000
Subject: [PATCH 37/69] fix: spaces after a JSON value were treated as an error

---
 include/bcl/Json.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 313e1fc..59449ed 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -773,7 +773,10 @@ template<class... Objects> class Parser {
         Lex.errors().insert(JSON_ERROR(6), Lex.start());
         return false;
       }
-      if (Lex.next() < Lex.json().size()) {
+      auto Next = Lex.next();
+      while (Next < Lex.json().size() && std::isspace(Lex.json()[Next]))
+        ++Next;
+      if (Next < Lex.json().size()) {
         Lex.goToNext();
         Lex.errors().insert(JSON_ERROR(9), Lex.start());
         return false;
-- 
2.43.0


From 4209d3712ed82b89d56de296d3eba0c69e3fb171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:20 +0000
Subject: [PATCH 38/69] fix: duplicates of indexes hid uninitialized elements
 of JSON arrays

---
 include/bcl/Json.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 59449ed..cc8af1b 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1767,6 +1767,7 @@ Parser<Objects...>::numberOfKeys(Lexer &Lex) {
   Lex.storePosition();
   Position MaxIdx = 0;
   Position Count = 0;
+  std::set<unsigned long long> Indexes;
   Token Last;
   if (Lex.is(Token::LEFT_BRACKET))
     Last = Token::RIGHT_BRACKET;
@@ -1788,6 +1789,10 @@ Parser<Objects...>::numberOfKeys(Lexer &Lex) {
       unsigned long long Idx;
       if (!Traits<unsigned long long>::parse(Idx, Lex))
         return std::make_tuple(0, 0, false);
+      if (!Indexes.insert(Idx).second) {
+        Lex.errors().insert(JSON_ERROR(8), Lex.start());
+        return std::make_tuple(0, 0, false);
+      }
       MaxIdx = static_cast<Position>(Idx > MaxIdx ? Idx : MaxIdx);
       if (!Lex.goToNext() || !Lex.checkSpecial(Token::COLON) ||
           !Lex.goToNext())
-- 
2.43.0


From 8333d526b22879485c3010ccf513710e85130c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:20 +0000
Subject: [PATCH 39/69] fix: escaped indexes of JSON arrays were interpreted in
 different ways

---
 include/bcl/Json.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index cc8af1b..f904c93 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1346,8 +1346,8 @@ template<> struct Traits<char *> {
       // Note that Idx will be successfully converted because this check has
       // been performed when memory for the Dest array has been allocated.
       // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
       return Traits<char>::parse(Dest[Idx], Lex);
     } else {
       return Traits<char>::parse(Dest[Key.second], Lex);
@@ -1420,8 +1420,8 @@ template<class Ty> struct Traits<Ty *> {
       // Note that Idx will be successfully converted because this check has
       // been performed when memory for the Dest array has been allocated.
       // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
       return Traits<Ty>::parse(Dest[Idx], Lex);
     } else {
       return Traits<Ty>::parse(Dest[Key.second], Lex);
@@ -1480,8 +1480,8 @@ struct Traits<std::vector<Ty, Allocator>> {
       // Note that Idx will be successfully converted because this check has
       // been performed when memory for the Dest array has been allocated.
       // This also implies that Dest[Idx] can not produce out of range exception.
-      auto Idx = std::stoull(
-        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1));
+      auto Idx = std::stoull(Traits<std::string>::unescape(
+        Lex.json().substr(Key.first + 1, Key.second - Key.first - 1)));
       return Traits<Ty>::parse(Dest[Idx], Lex);
     } else {
       return Traits<Ty>::parse(Dest[Key.second], Lex);
-- 
2.43.0


From ca1413bcc559b69fc89a758a74a70491f705cb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:20 +0000
Subject: [PATCH 40/69] fix: JSON array without values was unparsed to a
 malformed string

---
 include/bcl/Json.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index f904c93..8da5c95 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1506,8 +1506,8 @@ struct Traits<std::vector<Ty, Allocator>> {
           Traits<unsigned long long>::unparse(JSON, I);
           JSON += "\":" + Values[I] + ",";
         }
-        assert(JSON.back() == ',' && "A delimiter must be a comma!");
-        JSON.erase(JSON.size() - 1);
+        if (JSON.back() == ',')
+          JSON.erase(JSON.size() - 1);
         JSON += '}';
       } else {
         JSON += '[';
-- 
2.43.0


From 762e3cbebce2e6fdfec991c6dc42ba87ef9ee1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:20 +0000
Subject: [PATCH 41/69] fix: name of a JSON object was not found after compound
 values

---
 include/bcl/Json.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 8da5c95..ce883de 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1027,9 +1027,8 @@ private:
         mNameEnd = mLex.end();
         return true;
       }
-      if (((mLex.is(Token::LEFT_BRACE) || mLex.is(Token::LEFT_BRACKET)) &&
-           !mLex.skipInternal()) ||
-          !mLex.checkValue())
+      if (mLex.is(Token::LEFT_BRACE) || mLex.is(Token::LEFT_BRACKET) ?
+          !mLex.skipInternal() : !mLex.checkValue())
         return false;
       if (!mLex.goToNext())
         return false;
-- 
2.43.0


From 5dd7c7f226d70e092e252cb321abeee5f5f559d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:20 +0000
Subject: [PATCH 42/69] fix: no error was reported if a type of a JSON object
 is unknown

---
 include/bcl/Json.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index ce883de..2153360 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -981,7 +981,10 @@ public:
     ParseFunctor F(
       mLex.json().substr(mNameStart + 1, mNameEnd - mNameStart - 1), mLex);
     ObjectTypeList::for_each_type(F);
-    return F.stealObject();
+    auto Obj = F.stealObject();
+    if (!Obj && !hasErrors())
+      mLex.errors().insert(JSON_ERROR(3), mNameStart, getNameKey());
+    return Obj;
   }
 
   /// Parses JSON string and converts it to a specified type,
@@ -1013,7 +1016,7 @@ private:
     if (!mLex.goToNext() || !mLex.checkSpecial(Token::LEFT_BRACE))
       return false;
     while (mLex.goToNext()) {
-      if (!mLex.is(Token::IDENTIFIER))
+      if (!mLex.checkIdentifier())
         return false;
       bool IsName = (mLex.json().compare(
         mLex.start() + 1, mLex.end() - mLex.start() - 1, getNameKey()) == 0);
-- 
2.43.0


From bb4bedf352e611b91c13335557862f08aafd9031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:20 +0000
Subject: [PATCH 43/69] fix: unknown compound values led to failure of JSON
 object parsing

---
 include/bcl/Json.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 2153360..0bfefa9 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1700,16 +1700,21 @@ public:
           mKey.first + 1, mKey.second - mKey.first - 1 ,
           CellTraits<CellKey>::name()) != 0)
       return;
+    mIsFound = true;
     mHasError = !CellTraits<CellKey>::parse(
       Cell->template value<CellKey>(), mLex);
   }
 
   /// Returns true if errors have been occurred during conversion.
   bool hasError() const noexcept { return mHasError; }
+
+  /// Returns true if there is a cell with a specified key.
+  bool isFound() const noexcept { return mIsFound; }
 private:
   Lexer &mLex;
   std::pair<Position, Position> mKey;
   bool mHasError;
+  bool mIsFound = false;
 };
 
 /// This functor unparses JSON object represented as a bcl::StaticMap. It should
@@ -1754,6 +1759,10 @@ template<class... Args> struct Traits<bcl::StaticMap<Args...>> {
       std::pair<Position, Position> Key) {
     detail::ParseCellFunctor Parse(Key, Lex);
     Dest.for_each(Parse);
+    // Compound values of unknown keys must be ignored as well as scalar ones.
+    if (!Parse.isFound() &&
+        (Lex.is(Token::LEFT_BRACE) || Lex.is(Token::LEFT_BRACKET)))
+      return Lex.skipInternal();
     return !Parse.hasError();
   }
   inline static void unparse(String &JSON, const bcl::StaticMap<Args...> &Obj) {
-- 
2.43.0


From 4f3cfdbd95ae19ad6424d34544e0a96b5c4b20f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:20 +0000
Subject: [PATCH 44/69] fix: diagnostics with spaces were lost or truncated in
 JSON and leaked

---
 include/bcl/Json.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 0bfefa9..a5774b8 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1836,23 +1836,20 @@ template<> struct Traits<bcl::Diagnostic> {
   }
   inline static bool parse(bcl::Diagnostic &Dest, Lexer &Lex,
     std::pair<Position, Position>) {
-    const char *Msg;
-    if (!Traits<const char *>::parse(Msg, Lex))
+    std::string Msg;
+    if (!Traits<std::string>::parse(Msg, Lex))
       return false;
-    char *Kind = new char[std::strlen(Msg) + 1];
-    char *Buf = new char[std::strlen(Msg) + 1];
+    auto KindLen = std::strlen(Dest.getKind());
     std::size_t Code;
     std::uintmax_t Pos;
-    auto ArgNum = std::sscanf(Msg, "%s C%zu(%ju): %s", Kind, &Code, &Pos, Buf);
-    if (ArgNum != 4 || std::strcmp(Kind, Dest.getKind()) != 0 ||
-        !Dest.insert(Code, "%s", Pos, Buf)) {
+    int Text = -1;
+    if (Msg.compare(0, KindLen, Dest.getKind()) != 0 ||
+        std::sscanf(Msg.c_str() + KindLen, " C%zu(%ju):%n",
+          &Code, &Pos, &Text) != 2 || Text < 0 || Msg[KindLen + Text] != ' ' ||
+        !Dest.insert(Code, "%s", Pos, Msg.c_str() + KindLen + Text + 1)) {
       Lex.errors().insert(JSON_ERROR(9), Lex.start());
-      delete[]Kind;
-      delete[]Buf;
       return false;
     }
-    delete[]Kind;
-    delete[]Buf;
     return true;
   }
   inline static void unparse(String &JSON, const bcl::Diagnostic &Obj) {
-- 
2.43.0


From 84d5101ef1f4f80694f4fb5a019520634b96c41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 45/69] fix: target of a redirection was closed twice if
 closing failed

---
 include/bcl/RedirectIO.h | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index df66208..ea1b0f1 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -98,10 +98,7 @@ public:
     }
     if (dup2(fileno(mFile), mFromHandle) == -1) {
       storeErrNo("dup2");
-      if (fclose(mFile) != 0)
-        storeErrNo("fclose");
-      else
-        mFile = nullptr;
+      closeFile();
       return;
     }
     if (M == Mode::Append) {
@@ -110,20 +107,14 @@ public:
       while (fgetc(mFile) != EOF);
       if (!std::feof(mFile)) {
         storeErrNo("fgetc");
-        if (fclose(mFile) != 0)
-          storeErrNo("fclose");
-        else
-          mFile = nullptr;
+        closeFile();
         return;
       }
     }
     mDiffStart = mDiffPos = std::ftell(mFile);
     if (mDiffPos == -1) {
       storeErrNo("ftell");
-      if (fclose(mFile) != 0)
-        storeErrNo("fclose");
-      else
-        mFile = nullptr;
+      closeFile();
       return;
     }
   }
@@ -136,9 +127,7 @@ public:
     // This is possible because mErrors will be unset when move is performed.
     if (!mayRedirected() || !mFile)
       return;
-    if (fclose(mFile) != 0)
-      storeErrNo("fclose");
-    mFile = nullptr;
+    closeFile();
   }
 
   RedirectIO(const RedirectIO &) = delete;
@@ -242,6 +231,14 @@ public:
   }
 
 private:
+  /// Closes a target file, note that a file can not be used (and can not be
+  /// closed once more) even if an error occurs.
+  void closeFile() {
+    if (fclose(mFile) != 0)
+      storeErrNo("fclose");
+    mFile = nullptr;
+  }
+
   /// Stores description of error ErrNos to the errors() container.
   ///
   /// \param [in] Number of error. This must be one of possible errno values.
-- 
2.43.0


From d85bde2dd527f6eec1af711431847fef6b2eeefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 46/69] fix: null pointer was dereferenced if nothing is
 redirected

---
 include/bcl/RedirectIO.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index ea1b0f1..5eea71e 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -164,6 +164,8 @@ public:
   /// \return If some errors occur this method is going to return false and
   /// store errors description in a diagnostic container (see errors()).
   bool isDiff() {
+    if (!mayRedirected())
+      return false;
     // It is necessary to perform this check because fflush(NULL) flushes all
     // opened files and this is unwanted behavior.
     if (!mFile) {
-- 
2.43.0


From acb47d1d7acdee3473093b3a0fe10aada56b2235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 47/69] fix: target of a redirection was not closed on move
 assignment

---
 include/bcl/RedirectIO.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 5eea71e..2429eb5 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -77,7 +77,8 @@ public:
   ///
   /// Note that only move operations are available, copy constructor and
   /// assignment are deleted.
-  RedirectIO() : mFile(nullptr) {}
+  RedirectIO() :
+    mFromHandle(-1), mFile(nullptr), mDiffPos(-1), mDiffStart(-1) {}
 
   /// \brief Redirect file with handle descriptor From to a file with a name To.
   ///
@@ -89,7 +90,8 @@ public:
   /// becomes available from errors() container.
   RedirectIO(int From, const std::string &To, Mode M = Mode::Rewrite) :
     mErrors(new bcl::Diagnostic("redirect error")),
-    mFile(nullptr), mFromHandle(From), mToName(To) {
+    mFromHandle(From), mToName(To), mFile(nullptr),
+    mDiffPos(-1), mDiffStart(-1) {
     const char ModeStr[3] = { static_cast<char>(M), '+', '\0' };
     mFile = std::fopen(To.data(), ModeStr);
     if (!mFile) {
@@ -133,7 +135,19 @@ public:
   RedirectIO(const RedirectIO &) = delete;
   RedirectIO & operator=(const RedirectIO &) = delete;
   RedirectIO(RedirectIO &&) = default;
-  RedirectIO & operator=(RedirectIO &&) = default;
+  RedirectIO & operator=(RedirectIO &&From) {
+    if (this == &From)
+      return *this;
+    if (mayRedirected() && mFile)
+      closeFile();
+    mErrors = std::move(From.mErrors);
+    mFromHandle = From.mFromHandle;
+    mToName = std::move(From.mToName);
+    mFile = From.mFile;
+    mDiffPos = From.mDiffPos;
+    mDiffStart = From.mDiffStart;
+    return *this;
+  }
 
   /// \brief Returns true if redirection is active, note that in case of errors
   /// this also returns true.
-- 
2.43.0


From dc7d4b87c9e0cb00b047bb78a3069dab52dcea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 48/69] fix: redirected data was lost after a null character

---
 include/bcl/RedirectIO.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 2429eb5..9fadf28 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -218,12 +218,12 @@ public:
       storeErrNo("fseek");
       return "";
     }
-    char Buf[100] = "\0";
+    char Buf[100];
     std::string Str;
-    while (std::fgets(Buf, 100, mFile))
-      Str += Buf;
+    while (auto Size = std::fread(Buf, 1, sizeof(Buf), mFile))
+      Str.append(Buf, Size);
     if (!std::feof(mFile)) {
-      storeErrNo("fgets");
+      storeErrNo("fread");
       if (std::fseek(mFile, Pos, SEEK_SET) != 0)
         storeErrNo("fseek");
       return "";
-- 
2.43.0


From 72d5f66c83ca534d7887f64fad5c8454d792302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 49/69] fix: do not touch status of a connection after it may
 be destroyed

---
 include/bcl/IntrusiveConnection.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index c22fa0c..7064c51 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -109,8 +109,9 @@ public:
     {
       std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
       mStatus->mReject = true;
+      // Status may be destroyed as soon as the lock is released.
+      mStatus->mSendEvent.notify_one();
     }
-    mStatus->mSendEvent.notify_one();
   }
 
   /// \brief Receives a request, evaluates it and sends response.
@@ -138,8 +139,9 @@ public:
       {
         std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
         mStatus->mReject = true;
+        // Status may be destroyed as soon as the lock is released.
+        mStatus->mSendEvent.notify_one();
       }
-      mStatus->mSendEvent.notify_one();
       mStatus = nullptr;
       return false;
     }
-- 
2.43.0


From a96c1e0045c9f6e661fda1421e7c56b885a8ebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 50/69] fix: reject joined requests which remain when a
 connection is closed

---
 include/bcl/IntrusiveConnection.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index 7064c51..53c34c6 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -238,7 +238,9 @@ public:
         S->send(Data + Delimiter);
         if (*Reject) {
           delete CS;
-          break;
+          // Reject the rest of joined requests.
+          for (; !Buffer.empty(); Buffer.pop())
+            S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
         }
       }
     });
-- 
2.43.0


From 9b0c71108584aec045d9a2dd62b0b0cf30a82808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 51/69] fix: close the previous connection and return a value
 in move assignment

---
 include/bcl/IntrusiveConnection.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index 53c34c6..551ecc9 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -98,21 +98,14 @@ public:
   IntrusiveConnection & operator=(IntrusiveConnection &&C) {
     if (this == &C)
       return *this;
+    close();
     mStatus = C.mStatus;
     C.mStatus = nullptr;
+    return *this;
   }
 
   /// Destructor.
-  ~IntrusiveConnection() {
-    if (!mStatus)
-      return;
-    {
-      std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
-      mStatus->mReject = true;
-      // Status may be destroyed as soon as the lock is released.
-      mStatus->mSendEvent.notify_one();
-    }
-  }
+  ~IntrusiveConnection() { close(); }
 
   /// \brief Receives a request, evaluates it and sends response.
   ///
@@ -247,6 +240,16 @@ public:
   }
 
 private:
+  /// Closes connection, all subsequent requests are going to be rejected.
+  void close() {
+    if (!mStatus)
+      return;
+    std::unique_lock<std::mutex> Lock(mStatus->mSendMutex);
+    mStatus->mReject = true;
+    // Status may be destroyed as soon as the lock is released.
+    mStatus->mSendEvent.notify_one();
+  }
+
   Status *mStatus;
 };
 }
-- 
2.43.0


From b097368f1f3bc51c0b1334c7a5c19b4bd0165375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 52/69] fix: reject each of joined requests when a connection
 is closed

---
 include/bcl/IntrusiveConnection.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index 551ecc9..146e2d8 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -194,10 +194,6 @@ public:
     // when CS will be deleted it is necessary to access S to send REJECT
     // response.
     S->receive([Reject, Delimiter, S, CS](const std::string &Request) {
-      if (*Reject) {
-        S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
-        return;
-      }
       std::queue<std::string> Buffer;
       std::stringstream IS(Request);
       std::string Item;
@@ -209,6 +205,11 @@ public:
       if (!Item.empty())
         Buffer.push(Item);
       while (!Buffer.empty()) {
+        if (*Reject) {
+          S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
+          Buffer.pop();
+          continue;
+        }
         {
           std::unique_lock<std::mutex> Lock(CS->mReceiveMutex);
           CS->mIsReceive = true;
@@ -229,12 +230,8 @@ public:
           CS->mIsSend = false;;
         }
         S->send(Data + Delimiter);
-        if (*Reject) {
+        if (*Reject)
           delete CS;
-          // Reject the rest of joined requests.
-          for (; !Buffer.empty(); Buffer.pop())
-            S->send(std::string(IntrusiveConnection::Reject()) + Delimiter);
-        }
       }
     });
   }
-- 
2.43.0


From b382d738b1c788a95096e385d6dbeb94a93f36d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 53/69] fix: pass received data with null characters to
 callbacks

---
 lib/Socket/CSocket/CSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 3f5415e..5d975ad 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -234,7 +234,7 @@ public:
       Buffer.get()[ReceivedInfo.first] = '\0';
       mOn(bcl::net::SocketStatus::Receive, mConnection);
       for (auto &Callback : mReceiveCallbacks)
-        Callback(std::string(Buffer.get()));
+        Callback(std::string(Buffer.get(), ReceivedInfo.first));
       if (mState == State::OnClose) {
         closeSocket(false);
         return 1;
-- 
2.43.0


From 731ed24982f1836b44c8279e5b1f54a2d4ff3f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 54/69] fix: send the rest of a message if a part of it has
 been sent

---
 lib/Socket/CSocket/CSocket.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 5d975ad..72935b8 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -173,7 +173,14 @@ static inline bool bindSocket(SocketT S, const AddressInfoT &AddressInfo) {
 }
 
 static inline bool sendData(SocketT S, const std::string &Message) {
-  return send(S, Message.c_str(), Message.length(), 0) >= 0;
+  // A part of the message may be sent only, so send the rest of it.
+  for (std::size_t Sent = 0; Sent < Message.length();) {
+    auto Size = send(S, Message.c_str() + Sent, Message.length() - Sent, 0);
+    if (Size < 0)
+      return false;
+    Sent += Size;
+  }
+  return true;
 }
 
 static inline std::pair<std::size_t, bool> receiveData(SocketT S,
-- 
2.43.0


From 1eecf5bf968b37d218430cdb7b1e77338e6f0359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 55/69] fix: do not abort if a descriptor of a closed
 connection is reused

---
 lib/Socket/CSocket/CSocket.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 72935b8..8f73fef 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -385,9 +385,10 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
     auto EngineItr = ActiveSockets.emplace(std::piecewise_construct,
       std::forward_as_tuple(ConnectionFD),
       std::forward_as_tuple()).first;
-    assert(!EngineItr->second.valid() ||
-           EngineItr->second.wait_for(std::chrono::seconds(0))
-             == std::future_status::ready && "Unable to join thread!");
+    // The descriptor of a closed connection may be reused before a thread which
+    // maintains this connection is finished.
+    if (EngineItr->second.valid())
+      EngineItr->second.wait();
     EngineItr->second = std::async(std::launch::async,
       engine, ConnectionFD, std::move(NewConnection));
   }
-- 
2.43.0


From a10ce8dbbcf4065ab459e8e3b3b41748f9062e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 56/69] fix: allow a callback of a socket to register other
 callbacks

---
 lib/Socket/CSocket/CSocket.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 8f73fef..408a4c0 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -31,6 +31,7 @@
 #include <cassert>
 #include <csignal>
 #include <chrono>
+#include <deque>
 #include <future>
 #include <string>
 #include <thread>
@@ -240,8 +241,9 @@ public:
       }
       Buffer.get()[ReceivedInfo.first] = '\0';
       mOn(bcl::net::SocketStatus::Receive, mConnection);
-      for (auto &Callback : mReceiveCallbacks)
-        Callback(std::string(Buffer.get(), ReceivedInfo.first));
+      // A callback may register other ones.
+      for (std::size_t I = 0, EI = mReceiveCallbacks.size(); I < EI; ++I)
+        mReceiveCallbacks[I](std::string(Buffer.get(), ReceivedInfo.first));
       if (mState == State::OnClose) {
         closeSocket(false);
         return 1;
@@ -266,7 +268,7 @@ public:
   bcl::net::Connection mConnection;
   std::size_t mBufferSize;
   bcl::net::SocketStatusHandler mOn;
-  mutable std::vector<ReceiveCallback> mReceiveCallbacks;
+  mutable std::deque<ReceiveCallback> mReceiveCallbacks;
   mutable std::vector<ClosedCallback> mClosedCallbacks;
   mutable State mState = State::Open;
 };
-- 
2.43.0


From 8c3495b54ba6e3360c8704d79af363354a9c2951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 57/69] fix: the least number is converted to a text of all its
 digits

---
 include/bcl/legacy/text.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/bcl/legacy/text.h b/include/bcl/legacy/text.h
index 97d53e0..1788da8 100644
--- a/include/bcl/legacy/text.h
+++ b/include/bcl/legacy/text.h
@@ -53,20 +53,22 @@ namespace Base
         if ( value == 0)
             return L"0";
 
+        // The absolute value of the least number exceeds the greatest one.
+        unsigned absolute = value;
         if ( value < 0)
         {
             buffer[ index++] = '-';
-            value = -value;
+            absolute = 0u - absolute;
         }
 
-        for ( int tmp = value; tmp > 0; tmp /= 10, last++);
+        for ( unsigned tmp = absolute; tmp > 0; tmp /= 10, last++);
 
         if ( index + last > 19)
             throw  Base::Exception< BCL >::Error< CELL_COLL_1( ErrorList::ConvertString) >( );
 
         buffer[ index + last] = '\0';
-        for ( index = index + last - 1; value > 0; value /= 10, index--)
-            buffer[ index] = value % 10 + '0';
+        for ( index = index + last - 1; absolute > 0; absolute /= 10, index--)
+            buffer[ index] = absolute % 10 + '0';
 
         return buffer;
     }
@@ -94,20 +96,22 @@ namespace Base
         if ( value == 0)
             return "0";
 
+        // The absolute value of the least number exceeds the greatest one.
+        unsigned absolute = value;
         if ( value < 0)
         {
             buffer[ index++] = '-';
-            value = -value;
+            absolute = 0u - absolute;
         }
 
-        for ( int tmp = value; tmp > 0; tmp /= 10, last++);
+        for ( unsigned tmp = absolute; tmp > 0; tmp /= 10, last++);
 
         if ( index + last > 19)
             throw  Base::Exception< BCL >::Error< CELL_COLL_1( ErrorList::ConvertString) >( );
 
         buffer[ index + last] = '\0';
-        for ( index = index + last - 1; value > 0; value /= 10, index--)
-            buffer[ index] = value % 10 + '0';
+        for ( index = index + last - 1; absolute > 0; absolute /= 10, index--)
+            buffer[ index] = absolute % 10 + '0';
 
         return buffer; 
     }
-- 
2.43.0


From d022d8a2c2e6e524de30d9b6d0a86509241611e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 58/69] fix: values of computed monomials are printed with the
 type of values

---
 include/bcl/Equation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index ccf3e3e..ca3bdc6 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -561,7 +561,7 @@ public:
       OS << " computed monoms: ";
       for (auto &Monom : Row.computed_monoms())
         OS << Monom.Value << " " << Info.name(Monom.Column) << " = "
-         << Monom.Value * Info.template get<ColumnT>(Monom.Column) << " ";
+         << Monom.Value * Info.template get<ValueT>(Monom.Column) << " ";
       OS << "\n";
     }
     OS << "--- discarded ---\n";
@@ -579,7 +579,7 @@ public:
       OS << " computed monoms: ";
       for (auto &Monom : Row.computed_monoms())
         OS << Monom.Value << " " << Info.name(Monom.Column) << " = "
-         << Monom.Value * Info.template get<ColumnT>(Monom.Column) << " ";
+         << Monom.Value * Info.template get<ValueT>(Monom.Column) << " ";
       OS << "\n";
     }
   }
-- 
2.43.0


From 0c73b1ac0257793135994391bf0ef8ad1996c7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 59/69] fix: a restored position of a lexer restores a kind of
 a keyword

---
 include/bcl/Json.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index a5774b8..b718b82 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -437,14 +437,16 @@ class Lexer: private bcl::Uncopyable {
 
   /// State of a lexer.
   struct State {
-    State(Position S, Position E, Position N, Token T, bool IsInt) :
-      mStart(S), mEnd(E), mNext(N), mToken(T), mIsIntegral(IsInt) {}
+    State(Position S, Position E, Position N, Token T, bool IsInt, Keyword K) :
+      mStart(S), mEnd(E), mNext(N), mToken(T), mIsIntegral(IsInt),
+      mKeyword(K) {}
 
     Position mStart = 0;
     Position mEnd = 0;
     Position mNext = 0;
     Token mToken;
     bool mIsIntegral = false;
+    Keyword mKeyword = Keyword::NO_VALUE;
   };
 
 public:
@@ -597,7 +599,8 @@ public:
   /// Saves the current position in an internal stack, it can be restored with
   /// restorePosition() method.
   void storePosition() {
-    mStates.emplace(State(mStart, mEnd, mNext, mToken, mIsIntegral));
+    mStates.emplace(
+      State(mStart, mEnd, mNext, mToken, mIsIntegral, mKeyword));
   }
 
   /// Restores the last stored position. If there is no stored positions do
@@ -610,6 +613,7 @@ public:
     mNext = mStates.top().mNext;
     mToken = mStates.top().mToken;
     mIsIntegral = mStates.top().mIsIntegral;
+    mKeyword = mStates.top().mKeyword;
     mStates.pop();
   }
 
-- 
2.43.0


From 6431c5baf047fcbd92f7c13c5634e3e6f96f2877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 60/69] fix: there is no current token in a new lexer

---
 include/bcl/Json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index b718b82..0e76193 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -674,7 +674,7 @@ private:
   Position mStart = 0;
   Position mEnd = 0;
   Position mNext = 0;
-  Token mToken;
+  Token mToken = Token::INVALID;
   bool mIsIntegral = false;
   Keyword mKeyword = Keyword::NO_VALUE;
   std::stack<State> mStates;
-- 
2.43.0


From 2b0b88b2d2b2f40ede1f009cfe72fec5a84cb1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 61/69] fix: emplace an element of a transparent queue in the
 same queue

---
 include/bcl/transparent_queue.h | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index f498a3c..16dae85 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -152,18 +152,8 @@ public:
 
   /// Pushes new element to the end of the queue.
   template<class... ArgTy> void emplace(ArgTy&&... Args) {
-    if (mIsSingle) {
-      if (mIsEmpty) {
-        mIsEmpty = false;
-        mValue = value_type(std::forward<ArgTy>(Args)...);
-        return;
-      }
-      mIsSingle = false;
-      Ty *Current = mValue;
-      mQueue = new Container();
-      mQueue->push(Current);
-    }
-    mQueue->emplace(Args...);
+    // An argument may refer to an element of this queue.
+    push(value_type(std::forward<ArgTy>(Args)...));
   }
 
   /// \brief Exchanges the contents of the queue with those of other.
-- 
2.43.0


From 9d577467eae9f94b5b59ce7c26fc1d18932c8c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 62/69] fix: a failed allocation does not destroy the element
 of a transparent queue

---
 include/bcl/transparent_queue.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/bcl/transparent_queue.h b/include/bcl/transparent_queue.h
index 16dae85..51d30fe 100644
--- a/include/bcl/transparent_queue.h
+++ b/include/bcl/transparent_queue.h
@@ -28,6 +28,7 @@
 
 #include <assert.h>
 #include <cstring>
+#include <memory>
 #include <queue>
 #include <utility>
 
@@ -105,10 +106,13 @@ public:
         mValue = V;
         return;
       }
+      // The queue must not be changed if there is not enough memory.
+      std::unique_ptr<Container> Queue(new Container());
+      Queue->push(mValue);
+      Queue->push(V);
       mIsSingle = false;
-      auto Current = mValue;
-      mQueue = new Container();
-      mQueue->push(Current);
+      mQueue = Queue.release();
+      return;
     }
     mQueue->push(V);
   }
-- 
2.43.0


From 69c87f7fb769edd9c1b6aeab8a03ae6d0a0af1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 63/69] fix: lack of memory for a message is an internal error
 of diagnostics

---
 include/bcl/Diagnostic.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/bcl/Diagnostic.h b/include/bcl/Diagnostic.h
index 79beb0c..52715b3 100644
--- a/include/bcl/Diagnostic.h
+++ b/include/bcl/Diagnostic.h
@@ -30,6 +30,8 @@
 
 #include <cstring>
 #include <memory>
+#include <new>
+#include <utility>
 #include <vector>
 
 namespace bcl {
@@ -203,14 +205,21 @@ public:
       return false;
     }
     auto Size = PreSize + ErrSize + 1;
-    char *Buf = new char[Size];
-    if (std::snprintf(Buf, PreSize + 1, PrefixFmt, mKind.get(), Code, Pos) < 0 ||
-        std::snprintf(Buf + PreSize, ErrSize + 1, Fmt, A...) < 0) {
-      delete[] Buf;
+    try {
+      std::unique_ptr<char[]> Msg(new char[Size]);
+      auto *Buf = Msg.get();
+      if (std::snprintf(
+            Buf, PreSize + 1, PrefixFmt, mKind.get(), Code, Pos) < 0 ||
+          std::snprintf(Buf + PreSize, ErrSize + 1, Fmt, A...) < 0) {
+        ++mInternalError;
+        return false;
+      }
+      mDiagnostics.push_back(std::move(Msg));
+    }
+    catch (const std::bad_alloc &) {
       ++mInternalError;
       return false;
     }
-    mDiagnostics.emplace_back(std::unique_ptr<const char[]>(Buf));
     return true;
   }
 private:
-- 
2.43.0


From 203b1ed6eb4276a11312985edef5d76f433d71c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 64/69] fix: position in a target file was lost if there was no
 memory for changes

---
 include/bcl/RedirectIO.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/bcl/RedirectIO.h b/include/bcl/RedirectIO.h
index 9fadf28..cf4d6f3 100644
--- a/include/bcl/RedirectIO.h
+++ b/include/bcl/RedirectIO.h
@@ -220,8 +220,16 @@ public:
     }
     char Buf[100];
     std::string Str;
-    while (auto Size = std::fread(Buf, 1, sizeof(Buf), mFile))
-      Str.append(Buf, Size);
+    try {
+      while (auto Size = std::fread(Buf, 1, sizeof(Buf), mFile))
+        Str.append(Buf, Size);
+    }
+    catch (...) {
+      // Further output must not overwrite data which have been written.
+      if (std::fseek(mFile, Pos, SEEK_SET) != 0)
+        storeErrNo("fseek");
+      throw;
+    }
     if (!std::feof(mFile)) {
       storeErrNo("fread");
       if (std::fseek(mFile, Pos, SEEK_SET) != 0)
-- 
2.43.0


From e24ccac80014044441af7ae5ef3812a4fee3ec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 65/69] fix: a connection was lost in memory if a server thread
 cannot be started

---
 include/bcl/IntrusiveConnection.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/bcl/IntrusiveConnection.h b/include/bcl/IntrusiveConnection.h
index 146e2d8..6bdab04 100644
--- a/include/bcl/IntrusiveConnection.h
+++ b/include/bcl/IntrusiveConnection.h
@@ -58,6 +58,7 @@
 
 #include "Socket.h"
 #include <condition_variable>
+#include <memory>
 #include <mutex>
 #include <queue>
 #include <sstream>
@@ -170,11 +171,15 @@ public:
   template<class Function, class... ArgsTy>
   static void connect(const bcl::Socket<std::string> *S,
       char Delimiter, Function &&F, ArgsTy&&... Args) {
-    auto CS = new Status;
+    // If it is not possible to start a thread, all data must be released.
+    std::unique_ptr<Status> StatusOwner(new Status);
+    std::unique_ptr<bool> RejectOwner(new bool(false));
+    auto *CS = StatusOwner.get();
     std::thread Engine(std::forward<Function>(F),
       IntrusiveConnection(CS), std::forward<ArgsTy>(Args)...);
     Engine.detach();
-    auto *Reject = new bool(false);
+    StatusOwner.release();
+    auto *Reject = RejectOwner.release();
     S->closed([Reject, CS](bool) {
       if (!*Reject) {
         {
-- 
2.43.0


From 3c457bff331df2006c8ffdd65faceca020fbf7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:36 +0000
Subject: [PATCH 66/69] fix: a server does not end if there is no thread for a
 connection

---
 lib/Socket/CSocket/CSocket.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/Socket/CSocket/CSocket.cpp b/lib/Socket/CSocket/CSocket.cpp
index 408a4c0..ef9b205 100644
--- a/lib/Socket/CSocket/CSocket.cpp
+++ b/lib/Socket/CSocket/CSocket.cpp
@@ -391,8 +391,15 @@ void bcl::net::startServer(const net::AddressT &Address, net::PortT PortNo,
     // maintains this connection is finished.
     if (EngineItr->second.valid())
       EngineItr->second.wait();
-    EngineItr->second = std::async(std::launch::async,
-      engine, ConnectionFD, std::move(NewConnection));
+    try {
+      EngineItr->second = std::async(std::launch::async,
+        engine, ConnectionFD, std::move(NewConnection));
+    } catch (const std::system_error &) {
+      // There is no thread to maintain this connection.
+      ActiveSockets.erase(EngineItr);
+      on(net::SocketStatus::AcceptError, Connection);
+      closeAndLog(ConnectionFD, Connection);
+    }
   }
   closeAndLog(SocketFD, Connection);
   finalize();
-- 
2.43.0


From c4a63d4e00931dd84499c673fac83fe61354ba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:36 +0000
Subject: [PATCH 67/69] fix: floating-point values lost precision in a JSON
 string

---
 include/bcl/Json.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 0e76193..683690a 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -228,6 +228,8 @@
 #include "Diagnostic.h"
 #include "utility.h"
 #include <cctype>
+#include <charconv>
+#include <iterator>
 #include <limits>
 #include <map>
 #include <memory>
@@ -1238,6 +1240,19 @@ template<> struct Traits<unsigned long long> {
   }
 };
 
+/// Append a floating-point value in such a way that the same value is read back.
+///
+/// A number in a JSON string does not contain exponent, so the shortest fixed
+/// notation is used.
+template<class Ty> void unparseFloatingPoint(String &JSON, Ty Obj) {
+  // Sign, zero, dot and digits of the least (subnormal) value.
+  char Buffer[std::numeric_limits<Ty>::max_digits10 -
+              std::numeric_limits<Ty>::min_exponent10 + 8];
+  auto Result = std::to_chars(std::begin(Buffer), std::end(Buffer), Obj,
+                              std::chars_format::fixed);
+  JSON.append(Buffer, Result.ptr);
+}
+
 template<> struct Traits<float> {
   inline static bool parse(float &Dest, Lexer &Lex) noexcept {
     try {
@@ -1251,7 +1266,7 @@ template<> struct Traits<float> {
     return true;
   }
   inline static void unparse(String &JSON, float Obj) {
-    JSON += std::to_string(Obj);
+    unparseFloatingPoint(JSON, Obj);
   }
 };
 
@@ -1268,7 +1283,7 @@ template<> struct Traits<double> {
     return true;
   }
   inline static void unparse(String &JSON, double Obj) {
-    JSON += std::to_string(Obj);
+    unparseFloatingPoint(JSON, Obj);
   }
 };
 
-- 
2.43.0


From 128ba5a6c1a3be05722bc5f0747f27afa062b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 68/69] fix: a set or a map kept elements which are not in a
 JSON string

---
 include/bcl/Json.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bcl/Json.h b/include/bcl/Json.h
index 683690a..42c90e1 100644
--- a/include/bcl/Json.h
+++ b/include/bcl/Json.h
@@ -1550,6 +1550,7 @@ struct Traits<std::set<KeyTy, Compare, Allocator>> {
   inline static bool parse(SetTy &Dest, Lexer &Lex) {
     if (!Lex.checkSpecial(Token::LEFT_BRACKET))
       return false;
+    Dest.clear();
     return Parser<>::traverse<Traits<SetTy>>(Dest, Lex);
   }
   inline static bool parse(SetTy &Dest, Lexer &Lex,
@@ -1589,6 +1590,7 @@ template<class KeyTy, class Ty, class Compare, class Allocator>
 struct Traits<std::map<KeyTy, Ty, Compare, Allocator>> {
   typedef std::map<KeyTy, Ty, Compare, Allocator> MapTy;
   inline static bool parse(MapTy &Dest, Lexer &Lex) {
+    Dest.clear();
     return Parser<>::traverse<Traits<MapTy>>(Dest, Lex);
   }
   inline static bool parse(MapTy &Dest, Lexer &Lex,
@@ -1644,6 +1646,7 @@ template<class KeyTy, class Ty, class Compare, class Allocator>
 struct Traits<std::multimap<KeyTy, Ty, Compare, Allocator>> {
   typedef std::multimap<KeyTy, Ty, Compare, Allocator> MapTy;
   inline static bool parse(MapTy &Dest, Lexer &Lex) {
+    Dest.clear();
     return Parser<>::traverse<Traits<MapTy>>(Dest, Lex);
   }
   inline static bool parse(MapTy &Dest, Lexer &Lex,
-- 
2.43.0


From 7796d6420e0fb3bb9e78ca6e8cfbb27d598d2102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:49 +0000
Subject: [PATCH 69/69] fix: an equation which could not be added stayed in a
 system

---
 include/bcl/Equation.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/bcl/Equation.h b/include/bcl/Equation.h
index ca3bdc6..7ddb164 100644
--- a/include/bcl/Equation.h
+++ b/include/bcl/Equation.h
@@ -312,8 +312,14 @@ public:
   /// Add new equation to the system.
   void push_back(typename EquationT::Monom LHS, typename EquationT::Monom RHS,
                  ValueT Constant) {
-    mRows.emplace_back(LHS, RHS, Constant);
-    mIdx.push_back(mRows.size() - 1);
+    mIdx.push_back(mRows.size());
+    try {
+      mRows.emplace_back(LHS, RHS, Constant);
+    } catch (...) {
+      // The system must not be changed if there is not enough memory.
+      mIdx.pop_back();
+      throw;
+    }
   }
 
   /// Return the last equation.
-- 
2.43.0

