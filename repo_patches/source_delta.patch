From 4f4688cd788b24cfc4f933438b74c589453f38d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 01/25] fix: moving a ComTree emptied the new tree instead of
 the old one

---
 src/mathic/ComTree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathic/ComTree.h b/src/mathic/ComTree.h
index 8ca8549..2eea009 100755
--- a/src/mathic/ComTree.h
+++ b/src/mathic/ComTree.h
@@ -178,8 +178,8 @@ namespace mathic {
   {
     tree._array = static_cast<E*>(0) - 1;
     tree._arrayKeepAlive = 0;
-    _lastLeaf = Node(0);
-    _capacityEnd = Node(0);
+    tree._lastLeaf = Node(0);
+    tree._capacityEnd = Node(0);
   }
 
   template<class E, bool FI>
-- 
2.43.0


From f054f90450caa1bbf2c995a8717042b11d585473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 02/25] fix: moving a Heap moved from its own uninitialised
 tree

---
 src/mathic/Heap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathic/Heap.h b/src/mathic/Heap.h
index 6dde74f..9018b60 100755
--- a/src/mathic/Heap.h
+++ b/src/mathic/Heap.h
@@ -36,7 +36,7 @@ namespace mathic {
     Heap(const Configuration& configuration): _conf(configuration) {}
     Heap(const Configuration&& configuration):
       _conf(std::move(configuration)) {}
-    Heap(Heap&& heap): _tree(std::move(_tree)), _conf(std::move(heap._conf)) {}
+    Heap(Heap&& heap): _tree(std::move(heap._tree)), _conf(std::move(heap._conf)) {}
 
     Configuration& getConfiguration() {return _conf;}
     const Configuration& getConfiguration() const {return _conf;}
-- 
2.43.0


From a5eed80b09295e6dd368a68d7d80c62227a2e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 03/25] fix: Geobucket::clear left buckets pointing into the
 cleared front

---
 src/mathic/Geobucket.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mathic/Geobucket.h b/src/mathic/Geobucket.h
index 0784608..20062fd 100755
--- a/src/mathic/Geobucket.h
+++ b/src/mathic/Geobucket.h
@@ -437,8 +437,10 @@ namespace mathic {
 	MATHIC_ASSERT(isValid());
     _entryCount = 0;
     _front.clear();
-    for (Bucket* bucket = _bucketBegin; bucket != _bucketEnd; ++bucket)
+    for (Bucket* bucket = _bucketBegin; bucket != _bucketEnd; ++bucket) {
       bucket->clear();
+      bucket->setFrontToken(0);
+    }
 	MATHIC_ASSERT(isValid());
   }
 
-- 
2.43.0


From 2ba8fb72bc13ca347d8f558519c0dee0de75bb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 04/25] fix: pushing an empty range into a Geobucket put an
 empty bucket in the front

---
 src/mathic/Geobucket.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mathic/Geobucket.h b/src/mathic/Geobucket.h
index 20062fd..ea8ff51 100755
--- a/src/mathic/Geobucket.h
+++ b/src/mathic/Geobucket.h
@@ -415,6 +415,8 @@ namespace mathic {
 	  }
 	}
 #endif
+	if (begin == end)
+	  return; // an empty bucket must not enter the front
 	const size_t entryCount = end - begin;
 	const size_t adjCount = entryCount * C::insertFactor;
 	_entryCount += entryCount;
-- 
2.43.0


From 784918a4d9a7795dddc44760b9e0fd26f1ae0342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 05/25] fix: pair data leaked when computing it throws

---
 src/mathic/PairQueue.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index 0340153..8a479a6 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -80,7 +80,12 @@ namespace mathic {
 		MATHIC_ASSERT(memory != 0);
 		MATHIC_ASSERT(col > row);
 		PairData* pd = new (memory) PairData();
-		conf.computePairData(col, row, *pd);
+		try {
+		  conf.computePairData(col, row, *pd);
+		} catch (...) {
+		  pd->~PairData();
+		  throw;
+		}
 	  }
 	};
 	template<class Configuration>
-- 
2.43.0


From f4b21d1615ec6bacb8fe42d71ef15d7dd9d02e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 06/25] fix: running out of memory in TourTree::reallocate left
 dangling pointers

---
 src/mathic/TourTree.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mathic/TourTree.h b/src/mathic/TourTree.h
index 2eeedaa..9a8f854 100755
--- a/src/mathic/TourTree.h
+++ b/src/mathic/TourTree.h
@@ -221,17 +221,21 @@ namespace mathic {
   template<class C>
 	void TourTree<C>::reallocate() {
 	MATHIC_ASSERT(isValid());
-	_tree.increaseCapacity();
-	const size_t newCapacity = _tree.capacity();
+	// _tree only gets its new capacity once _players has room to match it,
+	// so that nothing has changed if memory runs out along the way.
+	Tree newTree(_tree, _tree.capacity());
+	newTree.increaseCapacity();
+	const size_t newCapacity = newTree.capacity();
 	if (_players.empty())
 	  _players.reserve(newCapacity / 2 + 2);
 	else {
 	  Player* oldBegin = &_players.front();
 	  _players.reserve(newCapacity / 2 + 2);
 	  Player* newBegin = &_players.front();
-	  for (Node pos; pos <= _tree.lastLeaf(); ++pos)
-		_tree[pos] = newBegin + (_tree[pos] - oldBegin);
+	  for (Node pos; pos <= newTree.lastLeaf(); ++pos)
+		newTree[pos] = newBegin + (newTree[pos] - oldBegin);
 	}
+	_tree.swap(newTree);
 	MATHIC_ASSERT(isValid());
   }
 
-- 
2.43.0


From 3cebcc49bf668a543abad8dc0deae6c6a732987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 07/25] fix: a throwing comparison in TourTree::push left the
 entry half added

---
 src/mathic/TourTree.h | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/mathic/TourTree.h b/src/mathic/TourTree.h
index 9a8f854..78d08bd 100755
--- a/src/mathic/TourTree.h
+++ b/src/mathic/TourTree.h
@@ -115,8 +115,19 @@ namespace mathic {
 	  MATHIC_SLOW_ASSERT(isValid());
 	  return;
 	}
-	// move leaf down as left child
+	// do all comparisons before changing anything as they might throw
 	Node posParent = _tree.lastLeaf().next().parent();
+	size_t wins = 0; // how many ancestors the new entry will be moved up to
+	for (Node pos = posParent; ; pos = pos.parent()) {
+	  typename C::CompareResult cmp = _conf.compare(_tree[pos]->entry, entry);
+	  if (!_conf.cmpLessThan(cmp))
+		break;
+	  ++wins;
+	  if (pos.isRoot())
+		break;
+	}
+
+	// move leaf down as left child
 	Player* moveDown = _tree[posParent];
 	_tree.pushBackWithCapacity(moveDown);
 	moveDown->leaf = _tree.lastLeaf();
@@ -127,18 +138,11 @@ namespace mathic {
 	_tree.pushBackWithCapacity(&_players.back());
 	MATHIC_ASSERT(_tree.lastLeaf().isRight());
 
-	Node pos = _tree.lastLeaf();
-	do {
+	for (Node pos = _tree.lastLeaf(); wins > 0; --wins) {
 	  MATHIC_ASSERT(!pos.isRoot());
-	  MATHIC_ASSERT(posParent == pos.parent());
-	  typename C::CompareResult cmp = _conf.compare
-		(_tree[posParent]->entry, _tree[pos]->entry);
-	  if (!_conf.cmpLessThan(cmp))
-		break;
-	  _tree[posParent] = _tree[pos];
-	  pos = posParent;
-	  posParent = pos.parent();
-	} while (!pos.isRoot());
+	  pos = pos.parent();
+	  _tree[pos] = &_players.back();
+	}
 	MATHIC_SLOW_ASSERT(isValid());
   }
 
-- 
2.43.0


From bbb14974991ef85770651b81fa5c9fa28d8d6645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:36 +0000
Subject: [PATCH 08/25] fix: KDTree::removeElement left size and divisor cache
 stale, and did not compile for binary trees

---
 src/mathic/BinaryKDTree.h | 10 +++++++---
 src/mathic/KDTree.h       |  4 +++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mathic/BinaryKDTree.h b/src/mathic/BinaryKDTree.h
index 3366ec4..6dfcec4 100755
--- a/src/mathic/BinaryKDTree.h
+++ b/src/mathic/BinaryKDTree.h
@@ -123,7 +123,11 @@ namespace mathic {
       }
 
       Node& getChildFor(const ExtEntry& entry, const C& conf) {
-        if (getExponent() < conf.getExponent(entry.get(), getVar()))
+        return getChildFor(entry.get(), conf);
+      }
+      template<class ME> // ME is MonomialOrEntry
+      Node& getChildFor(const ME& me, const C& conf) {
+        if (getExponent() < conf.getExponent(me, getVar()))
           return getStrictlyGreater();
         else
           return getEqualOrLess();
@@ -292,8 +296,8 @@ namespace mathic {
     Node* node = _root;
 
     while (node->isInterior())
-      node = node->asInterior().getChildFor(monomial, _conf);
-    const bool value = node->asLeaf().removeElement(monomial);
+      node = &node->asInterior().getChildFor(monomial, _conf);
+    const bool value = node->asLeaf().entries().removeElement(monomial, _conf);
     MATHIC_ASSERT(debugIsValid());
     return value;
   }
diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 8290bb2..7cd09eb 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -172,7 +172,9 @@ namespace mathic {
       MATHIC_ASSERT(C::AllowRemovals);
       if (!C::AllowRemovals)
         throw std::logic_error("Removal request while removals disabled.");
-      return _tree.removeElement(monomial);
+      const bool removed = _tree.removeElement(monomial);
+      reportChanges(0, removed);
+      return removed;
     }
 
     /** Returns a pointer to an entry that divides monomial. Returns null if no
-- 
2.43.0


From 7650b60814515564a75d45fb6529df68a4d4f84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:36 +0000
Subject: [PATCH 09/25] fix: KDTree::clear did not compile and kept the old
 size

---
 src/mathic/KDTree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 7cd09eb..76a5c28 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -238,8 +238,9 @@ namespace mathic {
     /** Removes all entries. Does not reset the configuration object. */
     void clear() {
       _tree.clear();
+      _size = 0;
       resetNumberOfChangesTillRebuild();
-      _tree.calc().rebuildDefault(getConfiguration());
+      _divMaskCalculator.rebuildDefault(getConfiguration());
     }
 
     /** Rebuilds the data structure. */
-- 
2.43.0


From 59b86479baf7d8a4b343f84afaf5dc3ac032f6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:36 +0000
Subject: [PATCH 10/25] fix: inserting a range into a KDTree did not compile

---
 src/mathic/KDTree.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 76a5c28..1cebebd 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -154,16 +154,12 @@ namespace mathic {
     void insert(Iter begin, Iter end) {
       if (begin == end)
         return;
-      const size_t inserted = std::distance(begin, end); 
-      if (!empty()) {
-        for (; begin != end; ++begin)
-          _tree.insert(*begin);
-      } else {
-        _tree.insert(begin, end);
-        // insert into empty container is equivalent to rebuild
-        resetNumberOfChangesTillRebuild();
-      }
-      reportChanges(inserted, 0);
+      const bool wasEmpty = empty();
+      for (; begin != end; ++begin)
+        insert(*begin);
+      // insert into empty container is equivalent to rebuild
+      if (wasEmpty)
+        rebuild();
     }
 
     /** Removes an element whose exponents are equal to monomial's. Returns
-- 
2.43.0


From 781a9faf3b5d498a3f157495ee8585a0377a7761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:56 +0000
Subject: [PATCH 11/25] fix: an exception from a query's output left a KDTree's
 node stack non-empty

---
 src/mathic/BinaryKDTree.h | 16 ++++++++--------
 src/mathic/PackedKDTree.h | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/mathic/BinaryKDTree.h b/src/mathic/BinaryKDTree.h
index 6dfcec4..d11d078 100755
--- a/src/mathic/BinaryKDTree.h
+++ b/src/mathic/BinaryKDTree.h
@@ -263,7 +263,7 @@ namespace mathic {
   template<class C>
   template<class MO>
   size_t BinaryKDTree<C>::removeMultiples(const ExtMonoRef& extMonomial, MO& out) {
-    MATHIC_ASSERT(_tmp.empty());
+    _tmp.clear(); // not empty if a previous call was left by an exception
     if (_root == 0)
       return 0;
     size_t removedCount = 0;
@@ -429,7 +429,7 @@ namespace mathic {
     (const ExtMonoRef& extMonomial) {
 
     MATHIC_ASSERT(debugIsValid());
-    MATHIC_ASSERT(_tmp.empty());
+    _tmp.clear(); // not empty if a previous call was left by an exception
     if (_root == 0)
       return 0;
     Node* node = _root;
@@ -469,7 +469,7 @@ namespace mathic {
   template<class C>
   template<class DO>
   void BinaryKDTree<C>::findAllDivisors(const ExtMonoRef& extMonomial, DO& output) {
-    MATHIC_ASSERT(_tmp.empty());
+    _tmp.clear(); // not empty if a previous call was left by an exception
     if (_root == 0)
       return;
     Node* node = _root;
@@ -504,7 +504,7 @@ next:
   template<class C>
   template<class DO>
   void BinaryKDTree<C>::findAllMultiples(const ExtMonoRef& extMonomial, DO& output) {
-    MATHIC_ASSERT(_tmp.empty());
+    _tmp.clear(); // not empty if a previous call was left by an exception
     if (_root == 0)
       return;
     Node* node = _root;
@@ -536,7 +536,7 @@ next:
   template<class C>
   template<class EO>
   void BinaryKDTree<C>::forAll(EO& output) {
-    MATHIC_ASSERT(_tmp.empty());
+    _tmp.clear(); // not empty if a previous call was left by an exception
     if (_root == 0)
       return;
     Node* node = _root;
@@ -562,7 +562,7 @@ next:
 
   template<class C>
   void BinaryKDTree<C>::clear() {
-    MATHIC_ASSERT(_tmp.empty());
+    _tmp.clear(); // not empty if a previous call was left by an exception
     // Call Entry destructors
     if (_root != 0)
       _tmp.push_back(_root);
@@ -590,7 +590,7 @@ next:
   template<class C>
   void BinaryKDTree<C>::print(std::ostream& out) const {
     out << "<<<<<<<< BinaryKDTree >>>>>>>>\n";
-    MATHIC_ASSERT(_tmp.empty());
+    _tmp.clear(); // not empty if a previous call was left by an exception
     if (_root != 0) {
       Node* node = _root;
       while (true) {
@@ -627,7 +627,7 @@ next:
 #ifndef MATHIC_DEBUG
     return true;
 #else
-    MATHIC_ASSERT(_tmp.empty());
+    _tmp.clear(); // not empty if a previous call was left by an exception
     MATHIC_ASSERT(!_conf.getDoAutomaticRebuilds() || _conf.getRebuildRatio() > 0);
 
     if (_root == 0)
diff --git a/src/mathic/PackedKDTree.h b/src/mathic/PackedKDTree.h
index 19dd091..b8f071e 100755
--- a/src/mathic/PackedKDTree.h
+++ b/src/mathic/PackedKDTree.h
@@ -218,7 +218,7 @@ namespace mathic {
     const ExtMonoRef& extMonomial,
     MO& out
   ) {
-    MATHIC_ASSERT(_tmp.empty());
+    _tmp.clear(); // not empty if a previous call was left by an exception
     if (_root == 0)
       return 0;
     size_t removedCount = 0;
@@ -396,7 +396,7 @@ stopped:;
   template<class C>
   typename PackedKDTree<C>::Entry* PackedKDTree<C>::findDivisor
     (const ExtMonoRef& extMonomial) {
-    MATHIC_ASSERT(_tmp.empty());
+    _tmp.clear(); // not empty if a previous call was left by an exception
     if (_root == 0)
       return 0;
     Node* node = _root;
@@ -439,7 +439,7 @@ next:
     const ExtMonoRef& extMonomial,
     DO& output
   ) {
-    MATHIC_ASSERT(_tmp.empty());
+    _tmp.clear(); // not empty if a previous call was left by an exception
     if (_root == 0)
       return;
     Node* node = _root;
@@ -471,7 +471,7 @@ next:
     const ExtMonoRef& extMonomial,
     DO& output
   ) {
-    MATHIC_ASSERT(_tmp.empty());
+    _tmp.clear(); // not empty if a previous call was left by an exception
     if (_root == 0)
       return;
     Node* node = _root;
@@ -498,7 +498,7 @@ next:
   template<class C>
   template<class EO>
   void PackedKDTree<C>::forAll(EO& output) {
-    MATHIC_ASSERT(_tmp.empty());
+    _tmp.clear(); // not empty if a previous call was left by an exception
     if (_root == 0)
       return;
     Node* node = _root;
@@ -520,7 +520,7 @@ next:
 
   template<class C>
   void PackedKDTree<C>::clear() {
-    MATHIC_ASSERT(_tmp.empty());
+    _tmp.clear(); // not empty if a previous call was left by an exception
     // Call Entry destructors
     if (_root != 0)
       _tmp.push_back(_root);
@@ -547,7 +547,7 @@ next:
   template<class C>
   void PackedKDTree<C>::print(std::ostream& out) const {
     out << "<<<<<<<< PackedKDTree >>>>>>>>\n";
-    MATHIC_ASSERT(_tmp.empty());
+    _tmp.clear(); // not empty if a previous call was left by an exception
     if (_root == 0)
       return;
     Node* node = _root;
@@ -579,7 +579,7 @@ next:
     return true;
 #else
     //print(std::cerr); std::cerr << std::flush;
-    MATHIC_ASSERT(_tmp.empty());
+    _tmp.clear(); // not empty if a previous call was left by an exception
     MATHIC_ASSERT(!_conf.getDoAutomaticRebuilds() || _conf.getRebuildRatio() > 0);
     if (_root == 0)
       return true;
-- 
2.43.0


From f3031cd2c22d3c6b85b31771aad69748a34e1ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:57 +0000
Subject: [PATCH 12/25] fix: DivList::removeElement was not counted towards
 automatic rebuilds

---
 src/mathic/DivList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index 03cf87d..e384e6a 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -457,6 +457,7 @@ namespace mathic {
         }
       }
       _list.erase(it);
+      reportChanges(1);
       return true;
     skip:;
     }
-- 
2.43.0


From 989da8287d3525e1af54b88446df12a0f339bf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:39 +0000
Subject: [PATCH 13/25] fix: DivMask::Calculator::rebuildDefault overflowed
 computing an unused exponent

---
 src/mathic/DivMask.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mathic/DivMask.h b/src/mathic/DivMask.h
index 96f4bb9..e56ef71 100644
--- a/src/mathic/DivMask.h
+++ b/src/mathic/DivMask.h
@@ -321,7 +321,8 @@ namespace mathic {
       Exponent exp = 0;
       for (size_t i = 0; i < bitsForVar; ++i) {
         _bits.push_back(std::make_pair(var, exp));
-        exp = (i == 0 ? 1 : exp * 2);
+        if (i + 1 < bitsForVar) // avoid overflow computing an unused exponent
+          exp = (i == 0 ? 1 : exp * 2);
       }
     }
   }
-- 
2.43.0


From 553009e5624441f32998a32f34ad771746b3b3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:17 +0000
Subject: [PATCH 14/25] fix: DivMask::Calculator::rebuild overflowed for
 exponents near the maximum

---
 src/mathic/DivMask.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mathic/DivMask.h b/src/mathic/DivMask.h
index e56ef71..0bb0bcb 100644
--- a/src/mathic/DivMask.h
+++ b/src/mathic/DivMask.h
@@ -5,6 +5,7 @@
 #include <vector>
 #include <utility>
 #include <algorithm>
+#include <limits>
 
 // Value x means do 2^x mask checks before printing stats
 //#define MATHIC_TRACK_DIV_MASK_HIT_RATIO 25
@@ -302,9 +303,13 @@ namespace mathic {
         Exponent increment = (max - min) / static_cast<Exponent>(bitsForVar); // todo: can avoid cast?
         if (increment == 0)
           increment = 1;
-        for (size_t i = 0; i < bitsForVar; ++i)
-          _bits.push_back(std::make_pair(var, min + increment * static_cast<Exponent>(i)));
-           // todo: can avoid cast?
+        Exponent point = min;
+        for (size_t i = 0; i < bitsForVar; ++i) {
+          _bits.push_back(std::make_pair(var, point));
+          // stay at the last point if the next one is not representable
+          if (point <= std::numeric_limits<Exponent>::max() - increment)
+            point += increment;
+        }
       }
     }
   }
-- 
2.43.0


From f5ee67b98be2db94ae463ab78ad2979162c8b1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:37 +0000
Subject: [PATCH 15/25] fix: HashTable::remove did not compile

---
 src/mathic/HashTable.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/mathic/HashTable.h b/src/mathic/HashTable.h
index b0cde83..e733939 100755
--- a/src/mathic/HashTable.h
+++ b/src/mathic/HashTable.h
@@ -238,17 +238,14 @@ namespace mathic {
   void HashTable<C>::remove(Handle *& p) 
   {
     mNodeCount--;
-    size_t const hashval = mConf.hashvalue(p->key) & mHashMask;
-    Handle head;
-    Handle* tmpNode = mHashTable[hashval];
-    head.next = tmpNode;
-    for (Handle* q = &head; q->next != 0; q = q->next) 
+    size_t const hashval = mConf.hash(p->key()) & mHashMask;
+    for (Handle** q = &mHashTable[hashval]; *q != 0; q = &(*q)->next) 
       {
-	if (q->next == p) 
+	if (*q == p) 
 	  {
-	    q->next = p->next;
-	    mHashTable[hashval] = head.next;
-	    if (head.next == 0) mBinCount--;
+	    *q = p->next;
+	    p->next = 0;
+	    if (mHashTable[hashval] == 0) mBinCount--;
 	    //TODO: call destructor for pair, then call 'free' with the mNodePool
 	    return;
 	  }
-- 
2.43.0


From d939d4bf0d6e1f6f6e6fdeb77336a45d089b5957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:37 +0000
Subject: [PATCH 16/25] fix: a rejected argument changed the value of an
 IntegerParameter

---
 src/mathic/IntegerParameter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mathic/IntegerParameter.cpp b/src/mathic/IntegerParameter.cpp
index f17cf32..3a52079 100755
--- a/src/mathic/IntegerParameter.cpp
+++ b/src/mathic/IntegerParameter.cpp
@@ -24,13 +24,15 @@ namespace mathic {
 
   void IntegerParameter::processArgument(const std::string& argument) {
     std::istringstream in(argument);
-    in >> _value;
+    unsigned int newValue = 0;
+    in >> newValue;
     std::ostringstream out;
-    out << _value;
+    out << newValue;
     if (out.str() != argument) {
       reportError("The value given to option -" + name() + " was not "
         "as expected. It must be a non-negative integer in the range "
         "[0, 2^31-1].");
     }
+    _value = newValue;
   }
 }
-- 
2.43.0


From b81bbdcddfa36fc2ca3521999a2cb58e23665a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:37 +0000
Subject: [PATCH 17/25] fix: withSIPrefix and bytesInUnit read past the last
 unit

---
 src/mathic/ColumnPrinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathic/ColumnPrinter.cpp b/src/mathic/ColumnPrinter.cpp
index a20e3ef..053d4ac 100755
--- a/src/mathic/ColumnPrinter.cpp
+++ b/src/mathic/ColumnPrinter.cpp
@@ -242,7 +242,7 @@ namespace mathic {
 	  size_t i = 0;
       // the stop condition is at 999.5 because that value will get
       // rounded to 1000.0.
-	  for (i = 0; i < unitCount && amount >= 999.95; ++i)
+	  for (i = 0; i + 1 < unitCount && amount >= 999.95; ++i)
         amount /= 1000.0;
 	  out << oneDecimal(amount) << units[i];
     }
@@ -260,7 +260,7 @@ namespace mathic {
 	  size_t i = 0;
       // the stop condition is 1023.95 because that value will get
       // rounded to 1024.0.
-	  for (i = 0; i < unitCount && amount >= 1023.95; ++i)
+	  for (i = 0; i + 1 < unitCount && amount >= 1023.95; ++i)
         amount /= 1024.0;
 	  out << oneDecimal(amount) << units[i];
     }
-- 
2.43.0


From 59b0fd5546ed0e4cfbbe323b6fa25ff5fa0970c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:37 +0000
Subject: [PATCH 18/25] fix: percentInteger overflowed for large numerators

---
 src/mathic/ColumnPrinter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mathic/ColumnPrinter.cpp b/src/mathic/ColumnPrinter.cpp
index 053d4ac..c5d8019 100755
--- a/src/mathic/ColumnPrinter.cpp
+++ b/src/mathic/ColumnPrinter.cpp
@@ -174,7 +174,9 @@ namespace mathic {
     const unsigned long long numerator,
     const unsigned long long denominator
   ) {
-    return ratioInteger(numerator * 100, denominator) + '%';
+    if (denominator == 0)
+      return ratioInteger(numerator, denominator) + '%';
+    return oneDecimal(static_cast<double>(numerator) * 100 / denominator) + '%';
   }
 
   std::string ColumnPrinter::percentDouble(
-- 
2.43.0


From 3b25b1db42a148f04144ee109e34b314f067d51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:54 +0000
Subject: [PATCH 19/25] fix: oneDecimal converted negative and huge values to
 an unsigned integer

---
 src/mathic/ColumnPrinter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mathic/ColumnPrinter.cpp b/src/mathic/ColumnPrinter.cpp
index c5d8019..ed00cf6 100755
--- a/src/mathic/ColumnPrinter.cpp
+++ b/src/mathic/ColumnPrinter.cpp
@@ -1,5 +1,7 @@
 #include "ColumnPrinter.h"
 
+#include <iomanip>
+
 namespace mathic {
   namespace {
 	size_t getLineWidth(const std::string& str, size_t pos) {
@@ -227,7 +229,14 @@ namespace mathic {
   }
 
   std::string ColumnPrinter::oneDecimal(const double d) {
+    if (d < 0)
+      return '-' + oneDecimal(-d);
     std::ostringstream out;
+    if (!(d < 1e18)) {
+      // d * 10 might not fit in an integer, or d is not a number at all.
+      out << std::fixed << std::setprecision(1) << d;
+      return out.str();
+    }
     unsigned long long l = static_cast<unsigned long long>(d * 10 + 0.5);
     out << l / 10 << '.' << l % 10;
 	return out.str();
-- 
2.43.0


From 3f35d6b603cd3bcf988e253451d0732d8d58b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:54 +0000
Subject: [PATCH 20/25] fix: CliParser::registerHelpAction was declared but not
 defined

---
 src/mathic/CliParser.cpp | 204 ++++++++++++++++++++-------------------
 1 file changed, 107 insertions(+), 97 deletions(-)

diff --git a/src/mathic/CliParser.cpp b/src/mathic/CliParser.cpp
index e45b457..90f9609 100644
--- a/src/mathic/CliParser.cpp
+++ b/src/mathic/CliParser.cpp
@@ -1,97 +1,107 @@
-#include "CliParser.h"
-
-#include "error.h"
-#include "CliParameter.h"
-
-namespace mathic {
-  namespace {
-    // We are using a NameFactory just for its prefix-finding functionality, so
-    // we set the thing being created to be just void pointers that are null.
-    typedef void* Dummy;
-    typedef NameFactory<Dummy> ParamNames;
-    ParamNames makeParamNames(std::vector<CliParameter*> params) {
-      ParamNames names("option");
-      for (size_t i = 0; i < params.size(); ++i) {
-        const auto makeNull = [](){return std::unique_ptr<Dummy>();};
-        names.registerProduct(params[i]->name(), makeNull);
-      }
-      return names;
-    }
-  }
-
-  void CliParser::pushBackRegisteredActionNames(
-    std::vector<std::string>& names
-  ) const {
-    _actions.namesWithPrefix("", names);
-  }
-
-
-  CliParser::CliParser(): _actions("action") {}
-
-  std::unique_ptr<Action> CliParser::createActionWithPrefix(
-    const std::string& prefix
-  ) {
-    return createWithPrefix(_actions, prefix);
-  }
-
-  std::unique_ptr<Action> CliParser::parse(int argc, char** argv) {
-    std::vector<std::string> commandLine(argv, argv + argc);
-    return parse(commandLine);
-  }
-
-  std::unique_ptr<Action> CliParser::parse
-    (const std::vector<std::string>& commandLine) {
-    if (commandLine.empty())
-      throwError<UnknownNameException>("No action specified.");
-    std::unique_ptr<Action> action = createActionWithPrefix(commandLine[0]);
-
-    std::vector<CliParameter*> params;
-    action->pushBackParameters(params);
-    ParamNames paramNames = makeParamNames(params);
-
-    std::vector<std::string> options;
-    std::vector<std::string> directOptions;
-    bool sawDash = false;
-    for (size_t i = 1; i < commandLine.size(); ++i) {
-      if (commandLine[i].empty())
-        continue;
-      if (commandLine[i][0] == '-')
-        sawDash = true;
-      if (sawDash)
-        options.push_back(commandLine[i]);
-      else
-        directOptions.push_back(commandLine[i]);
-    }
-
-    action->directOptions(directOptions, *this);
-
-    size_t i = 1;
-    for (size_t i = 0; i < options.size(); ++i) {
-      std::string const& token = options[i];
-      if (token[0] != '-')
-        reportError("Expected an option when reading \"" +
-                    token + "\", but options start with a dash (-).\n");
-      std::string noDash(token.begin() + 1, token.end());
-      std::string name = uniqueNameWithPrefix(paramNames, noDash);
-
-      std::string optionArgument;
-      if (i + 1 < options.size() && options[i + 1][0] != '-') {
-        optionArgument = options[i + 1];
-        ++i;
-      }
-
-      for (std::vector<CliParameter*>::iterator it = params.begin();; ++it) {
-        if (it == params.end()) {
-          // shouldn't get here as name was recognized above
-          reportInternalError("Processing non-existent option \""
-            + name + "\".");
-        }
-        if ((*it)->name() == name) {
-          (*it)->processArgument(optionArgument);
-          break;
-        }
-      }
-    }
-    return action;
-  }
-}
+#include "CliParser.h"
+
+#include "error.h"
+#include "CliParameter.h"
+#include "HelpAction.h"
+
+namespace mathic {
+  namespace {
+    // We are using a NameFactory just for its prefix-finding functionality, so
+    // we set the thing being created to be just void pointers that are null.
+    typedef void* Dummy;
+    typedef NameFactory<Dummy> ParamNames;
+    ParamNames makeParamNames(std::vector<CliParameter*> params) {
+      ParamNames names("option");
+      for (size_t i = 0; i < params.size(); ++i) {
+        const auto makeNull = [](){return std::unique_ptr<Dummy>();};
+        names.registerProduct(params[i]->name(), makeNull);
+      }
+      return names;
+    }
+  }
+
+  void CliParser::pushBackRegisteredActionNames(
+    std::vector<std::string>& names
+  ) const {
+    _actions.namesWithPrefix("", names);
+  }
+
+
+  CliParser::CliParser(): _actions("action") {}
+
+  void CliParser::registerHelpAction(
+    const std::string& preMessage,
+    const std::string& postMessage
+  ) {
+    registerAction<HelpAction>();
+    _helpPreMessage = preMessage;
+    _helpPostMessage = postMessage;
+  }
+
+  std::unique_ptr<Action> CliParser::createActionWithPrefix(
+    const std::string& prefix
+  ) {
+    return createWithPrefix(_actions, prefix);
+  }
+
+  std::unique_ptr<Action> CliParser::parse(int argc, char** argv) {
+    std::vector<std::string> commandLine(argv, argv + argc);
+    return parse(commandLine);
+  }
+
+  std::unique_ptr<Action> CliParser::parse
+    (const std::vector<std::string>& commandLine) {
+    if (commandLine.empty())
+      throwError<UnknownNameException>("No action specified.");
+    std::unique_ptr<Action> action = createActionWithPrefix(commandLine[0]);
+
+    std::vector<CliParameter*> params;
+    action->pushBackParameters(params);
+    ParamNames paramNames = makeParamNames(params);
+
+    std::vector<std::string> options;
+    std::vector<std::string> directOptions;
+    bool sawDash = false;
+    for (size_t i = 1; i < commandLine.size(); ++i) {
+      if (commandLine[i].empty())
+        continue;
+      if (commandLine[i][0] == '-')
+        sawDash = true;
+      if (sawDash)
+        options.push_back(commandLine[i]);
+      else
+        directOptions.push_back(commandLine[i]);
+    }
+
+    action->directOptions(directOptions, *this);
+
+    size_t i = 1;
+    for (size_t i = 0; i < options.size(); ++i) {
+      std::string const& token = options[i];
+      if (token[0] != '-')
+        reportError("Expected an option when reading \"" +
+                    token + "\", but options start with a dash (-).\n");
+      std::string noDash(token.begin() + 1, token.end());
+      std::string name = uniqueNameWithPrefix(paramNames, noDash);
+
+      std::string optionArgument;
+      if (i + 1 < options.size() && options[i + 1][0] != '-') {
+        optionArgument = options[i + 1];
+        ++i;
+      }
+
+      for (std::vector<CliParameter*>::iterator it = params.begin();; ++it) {
+        if (it == params.end()) {
+          // shouldn't get here as name was recognized above
+          reportInternalError("Processing non-existent option \""
+            + name + "\".");
+        }
+        if ((*it)->name() == name) {
+          (*it)->processArgument(optionArgument);
+          break;
+        }
+      }
+    }
+    return action;
+  }
+}
-- 
2.43.0


From 383110d8e74c487dfa0007e66c0a90987ad9e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:07 +0000
Subject: [PATCH 21/25] fix: display broke the line before an over-long first
 word of a line

---
 src/mathic/display.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mathic/display.cpp b/src/mathic/display.cpp
index a149a40..b136a0c 100755
--- a/src/mathic/display.cpp
+++ b/src/mathic/display.cpp
@@ -12,7 +12,7 @@ namespace mathic {
     class Printer {
     public:
       Printer(const std::string& msg, const std::string& prepend):
-        _pos(0), _lineSize(0), _msg(msg), _prefix(prepend) {
+        _pos(0), _lineSize(0), _wordOnLine(false), _msg(msg), _prefix(prepend) {
 
 	    std::string wordSpacePrefix;
 
@@ -66,6 +66,7 @@ namespace mathic {
       void newLine() {
         printRaw('\n');
         _lineSize = 0;
+        _wordOnLine = false;
       }
 
       void readIndentation() {
@@ -81,10 +82,10 @@ namespace mathic {
         MATHIC_ASSERT(!word.empty());
 
         // Note that this will print beyond the console width if word is
-        // the first thing we are printing on this line. That is because
+        // the first word we are printing on this line. That is because
         // there then is no way to fit the word on one line.
 	    size_t wordAndPrefixSize = word.size() + wordSpacePrefix.size();
-	    if (_lineSize != 0 && _lineSize + wordAndPrefixSize  > ConsoleWidth) {
+	    if (_wordOnLine && _lineSize + wordAndPrefixSize  > ConsoleWidth) {
 		  // we skip space before word if inserting newline
 		  newLine();
 		  printRaw(_prefix);
@@ -92,6 +93,7 @@ namespace mathic {
 	    } else
 		  printRaw(wordSpacePrefix);
         printRaw(word);
+        _wordOnLine = true;
       }
 
       void printRaw(const std::string& word) {
@@ -106,6 +108,7 @@ namespace mathic {
 
       size_t _pos;
       size_t _lineSize;
+      bool _wordOnLine;
       const std::string& _msg;
       const std::string& _prefix;
       std::string _indentation;
-- 
2.43.0


From 2b4b1a8b7babd22f6c2697f1c6ceaa533bbdf762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:57 +0000
Subject: [PATCH 22/25] fix: count the retirement flags in the memory use of a
 pair queue

---
 src/mathic/PairQueue.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index 8a479a6..22b8e6e 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -165,6 +165,8 @@ namespace mathic {
 		mRetired[index] = true;
 	  }
 
+	  size_t getMemoryUse() const {return mRetired.capacity();}
+
 	  bool retired(size_t index) const {
 		MATHIC_ASSERT(index < mRetired.size());
         // if we just cast to bool here the compiler has to ensure that the
@@ -189,6 +191,8 @@ namespace mathic {
 		MATHIC_ASSERT(false); // this method should not be called.
 	  }
 
+	  size_t getMemoryUse() const {return 0;}
+
 	  bool retired(size_t index) const {
 		return false;
 	  }
@@ -616,7 +620,8 @@ namespace mathic {
 
   template<class C>
   size_t PairQueue<C>::getMemoryUse() const {
-	return mArena.getMemoryUse() + mColumnQueue.getMemoryUse();
+	return mArena.getMemoryUse() + mColumnQueue.getMemoryUse() +
+	  Retirer::getMemoryUse();
   }
 
   template<class C>
-- 
2.43.0


From b598b2a086eb1bd1b6d5d81f8e7014a46b233f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:48 +0000
Subject: [PATCH 23/25] fix: let the memory use of a divisor list be asked for
 when it is a linked list

---
 src/mathic/DivList.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index e384e6a..327a7f1 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -38,10 +38,18 @@ namespace mathic {
     template<class Entry>
       struct ListImpl<false, Entry> {
       typedef std::vector<Entry> Impl;
+      static size_t getMemoryUse(const Impl& list) {
+        return list.capacity() * sizeof(Entry);
+      }
     };
     template<class Entry>
       struct ListImpl<true, Entry> {
       typedef std::list<Entry> Impl;
+      static size_t getMemoryUse(const Impl& list) {
+        // every entry has its own node with pointers to the ones around it
+        struct ListNode {void* next; void* prev; Entry entry;};
+        return list.size() * sizeof(ListNode);
+      }
     };
   }
 
@@ -61,8 +69,8 @@ namespace mathic {
     typedef typename DivMask::Extender<const Monomial&,C::UseDivMask> ExtMonoRef;
     typedef typename DivMask::Calculator<C> DivMaskCalculator;
 
-    typedef typename DivListHelper::ListImpl<C::UseLinkedList, ExtEntry>::Impl
-      List;
+    typedef DivListHelper::ListImpl<C::UseLinkedList, ExtEntry> ListImpl;
+    typedef typename ListImpl::Impl List;
     typedef typename List::iterator ListIter;
     typedef typename List::const_iterator CListIter;
 
@@ -610,7 +618,7 @@ namespace mathic {
 
   template<class C>
   size_t DivList<C>::getMemoryUse() const {
-	return _list.capacity() * sizeof(_list.front());
+	return ListImpl::getMemoryUse(_list);
   }
 }
 
-- 
2.43.0


From 9eaeea5c5b8e1c1bfa2a88f58c49aa37ab11d399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:56 +0000
Subject: [PATCH 24/25] fix: count the mask calculator in the memory use of
 divisor lists and k-d trees

---
 src/mathic/DivList.h | 2 +-
 src/mathic/DivMask.h | 7 +++++++
 src/mathic/KDTree.h  | 4 +++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index 327a7f1..9ee61f7 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -618,7 +618,7 @@ namespace mathic {
 
   template<class C>
   size_t DivList<C>::getMemoryUse() const {
-	return ListImpl::getMemoryUse(_list);
+	return ListImpl::getMemoryUse(_list) + _divMaskCalculator.getMemoryUse();
   }
 }
 
diff --git a/src/mathic/DivMask.h b/src/mathic/DivMask.h
index 0bb0bcb..d6c2806 100644
--- a/src/mathic/DivMask.h
+++ b/src/mathic/DivMask.h
@@ -189,6 +189,12 @@ namespace mathic {
         that the div masks are supposed to work well for. */
     void rebuildDefault(const C& conf);
 
+    /** Returns the number of bytes allocated by this object. Does not
+        include sizeof(*this). */
+    size_t getMemoryUse() const {
+      return _bits.capacity() * sizeof(_bits.front());
+    }
+
     /** Computes a div mask for t. */
     template<class T>
     DivMask::MaskType compute(const T& t, const C& conf) const;
@@ -355,6 +361,7 @@ namespace mathic {
     template<class Iter>
     void rebuild(Iter begin, Iter end, const C& conf) {}
     void rebuildDefault(const C& conf) {}
+    size_t getMemoryUse() const {return 0;}
   };
 
   template<>
diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 1cebebd..20649c1 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -255,7 +255,9 @@ namespace mathic {
 		any memory that an Entry may point to. Does include
 		sizeof(Entry) as well as unused memory that is being kept to
 		avoid frequent allocations. */
-    size_t getMemoryUse() const {return _tree.getMemoryUse();}
+    size_t getMemoryUse() const {
+      return _tree.getMemoryUse() + _divMaskCalculator.getMemoryUse();
+    }
 
   private:
     KDTree(const KDTree<C>&); // unavailable
-- 
2.43.0


From 91124f4537b04d25cf1f62bcd04a950d1ae52611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:39 +0000
Subject: [PATCH 25/25] fix: define HashTable::hardReset, which was declared
 only

---
 src/mathic/HashTable.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mathic/HashTable.h b/src/mathic/HashTable.h
index e733939..e848276 100755
--- a/src/mathic/HashTable.h
+++ b/src/mathic/HashTable.h
@@ -18,6 +18,7 @@
 
 #include <memtailor.h>
 #include <cmath>
+#include <algorithm>
 #include <utility>
 #include <string>
 
@@ -163,6 +164,13 @@ namespace mathic {
     mNodePool.freeAllBuffers();
   }
 
+  template<class C>
+  void HashTable<C>::hardReset() {
+    std::fill(mHashTable.begin(), mHashTable.end(), static_cast<Handle*>(0));
+    mNodeCount = 0;
+    reset();
+  }
+
   template<class C>
   typename HashTable<C>::Handle *HashTable<C>::makeNode(const Key &k, const Value &v)
   {
-- 
2.43.0

