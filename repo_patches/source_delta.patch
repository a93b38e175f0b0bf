From 3efd4bb4a937f42ef4e25f3003856a307fb153e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 01/56] fix: Geobucket keeps its old buckets intact when
 growing fails

addBucket redirected the existing buckets to the new memory area before
the last allocations that can throw. A bad_alloc from one of those then
left the buckets pointing into freed memory. Do everything that can throw
first, then redirect.
---
 src/mathic/Geobucket.h | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/mathic/Geobucket.h b/src/mathic/Geobucket.h
index 0784608..fbd0e89 100755
--- a/src/mathic/Geobucket.h
+++ b/src/mathic/Geobucket.h
@@ -207,8 +207,8 @@ namespace mathic {
 		*pos = entry;
 		++_size;
 	  }
+	  // The entries must already have been copied to buffer.
 	  void setBuffer(Entry* buffer) {
-		std::copy(begin(), end(), buffer);
 		_begin = buffer;
 	  }
 	  void setBufferWithNewEntries(Entry* buffer, size_t size) {
@@ -521,20 +521,16 @@ namespace mathic {
 	if (!C::premerge)
 	  required += newBucketSize; // for _tmpForNoPremerge
 
-	// allocate new memory
+	// Allocate new memory and copy the entries there. Everything that can
+	// throw happens before anything is redirected to the new memory.
 	std::vector<Entry> newMem(required);
-	std::copy(_mem.begin(), _mem.end(), newMem.begin());
-
-	// move to new memory buffer
 	size_t offset = 0;
 	for (Bucket* it = _bucketBegin; it != _bucketEnd; ++it) {
-	  it->setBuffer(&(newMem[offset]));
+	  std::copy(it->begin(), it->end(), newMem.begin() + offset);
 	  offset += C::bucketStorage == GeoStoreSameSizeBuffer ?
 		newBucketSize : it->capacity();
-	  if (C::bucketStorage == GeoStoreDoubleBuffer) {
-		it->setOtherBuffer(&(newMem[offset]));
+	  if (C::bucketStorage == GeoStoreDoubleBuffer)
 		offset += it->capacity();
-	  }
 	}
 	Entry* buffer = &(newMem[offset]);
 	offset += newBucketSize;
@@ -543,13 +539,26 @@ namespace mathic {
 	  otherBuffer = &(newMem[offset]);
 	  offset += newBucketSize;
 	}
-	// redirect pointers in _front to point to new memory for _buckets
+	_front.reserveCapacity(_buckets.size() + 1);
 	Bucket* oldBucketBegin = _bucketBegin;
 	_buckets.push_back(Bucket(newBucketSize, buffer, otherBuffer));
+
+	// redirect pointers in _front to point to new memory for _buckets
 	_bucketBegin = &_buckets.front();
 	_bucketEnd = _bucketBegin + _buckets.size();
 	_front.bucketsInvalidated(oldBucketBegin, _bucketBegin);
-	_front.reserveCapacity(_bucketEnd - _bucketBegin);
+
+	// redirect the old buckets to the new memory buffer
+	size_t bucketOffset = 0;
+	for (Bucket* it = _bucketBegin; it != _bucketEnd - 1; ++it) {
+	  it->setBuffer(&(newMem[bucketOffset]));
+	  bucketOffset += C::bucketStorage == GeoStoreSameSizeBuffer ?
+		newBucketSize : it->capacity();
+	  if (C::bucketStorage == GeoStoreDoubleBuffer) {
+		it->setOtherBuffer(&(newMem[bucketOffset]));
+		bucketOffset += it->capacity();
+	  }
+	}
 
 	_tmp = &(newMem[offset]);
 	offset += newBucketSize;
-- 
2.43.0


From 9a03e24d827d21b206657e31e2389b4115d85360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 02/56] fix: Geobucket counts a pushed entry only once it is
 stored

A push whose growth step ran out of memory left size() one too high, so
that empty() was false for a queue with no entries.
---
 src/mathic/Geobucket.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mathic/Geobucket.h b/src/mathic/Geobucket.h
index fbd0e89..f0290c9 100755
--- a/src/mathic/Geobucket.h
+++ b/src/mathic/Geobucket.h
@@ -342,13 +342,13 @@ namespace mathic {
 
   template<class C>
 	void Geobucket<C>::push(Entry entry) {
-	++_entryCount;
 	Bucket& bucket = *_bucketBegin;
 	if (bucket.size() == bucket.capacity()) {
 	  const Entry* p = &entry;
 	  insert(_bucketBegin, p, p + 1, 1, Premerge<C::premerge>());
 	  return;
 	}
+	++_entryCount;
 	if (bucket.empty()) {
 	  bucket.push_back(entry);
 	  _front.insert(&bucket);
@@ -417,7 +417,6 @@ namespace mathic {
 #endif
 	const size_t entryCount = end - begin;
 	const size_t adjCount = entryCount * C::insertFactor;
-	_entryCount += entryCount;
 	while (adjCount > (_bucketEnd - 1)->capacity())
 	  addBucket();
 	for (Bucket* bucket = _bucketBegin; ; ++bucket) {
@@ -653,11 +652,13 @@ namespace mathic {
 	Bucket& bucket = _buckets[b];
 
 	if (bucket.empty()) {
+	  _entryCount += incomingSize;
 	  bucket.assign(begin, end, incomingSize);
 	  _front.insert(&bucket);
 	  return;
 	}
 	if (bucket.size() + incomingSize <= bucket.capacity()) {
+	  _entryCount += incomingSize;
 	  mergeToNonEmpty(bucket, begin, end);
 	  return;
 	}
@@ -671,6 +672,8 @@ namespace mathic {
 		break;
 	}
 
+	_entryCount += incomingSize; // nothing below allocates memory
+
 	// deal with first step separately as the iterator can have
 	// different type (grrrrr)
 	Bucket& current = _buckets[b];
@@ -730,6 +733,7 @@ namespace mathic {
 		break;
 	  }
 	}
+	_entryCount += size; // nothing below allocates memory
 	// ** perform premerges
 	if (bucket != rbegin) {
 	  if (!rbegin->empty()) {
-- 
2.43.0


From 73441c3bbd4c5a50099cddd01a904c1511a744d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 03/56] fix: moving a Heap moves its entries

The move constructor of Heap moved from its own uninitialized tree, and
the one of ComTree reset the new tree instead of the moved-from one.
---
 src/mathic/ComTree.h | 4 ++--
 src/mathic/Heap.h    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mathic/ComTree.h b/src/mathic/ComTree.h
index 8ca8549..2eea009 100755
--- a/src/mathic/ComTree.h
+++ b/src/mathic/ComTree.h
@@ -178,8 +178,8 @@ namespace mathic {
   {
     tree._array = static_cast<E*>(0) - 1;
     tree._arrayKeepAlive = 0;
-    _lastLeaf = Node(0);
-    _capacityEnd = Node(0);
+    tree._lastLeaf = Node(0);
+    tree._capacityEnd = Node(0);
   }
 
   template<class E, bool FI>
diff --git a/src/mathic/Heap.h b/src/mathic/Heap.h
index 6dde74f..9018b60 100755
--- a/src/mathic/Heap.h
+++ b/src/mathic/Heap.h
@@ -36,7 +36,7 @@ namespace mathic {
     Heap(const Configuration& configuration): _conf(configuration) {}
     Heap(const Configuration&& configuration):
       _conf(std::move(configuration)) {}
-    Heap(Heap&& heap): _tree(std::move(_tree)), _conf(std::move(heap._conf)) {}
+    Heap(Heap&& heap): _tree(std::move(heap._tree)), _conf(std::move(heap._conf)) {}
 
     Configuration& getConfiguration() {return _conf;}
     const Configuration& getConfiguration() const {return _conf;}
-- 
2.43.0


From 4c4695afa1dae497c32afc325f5348c0bde655ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 04/56] fix: Geobucket::clear forgets the positions of buckets
 in the front

With trackFront the buckets kept their old position after clear, and a
later swap of positions then overwrote positions of other buckets.
---
 src/mathic/Geobucket.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mathic/Geobucket.h b/src/mathic/Geobucket.h
index f0290c9..4f83c5b 100755
--- a/src/mathic/Geobucket.h
+++ b/src/mathic/Geobucket.h
@@ -436,8 +436,10 @@ namespace mathic {
 	MATHIC_ASSERT(isValid());
     _entryCount = 0;
     _front.clear();
-    for (Bucket* bucket = _bucketBegin; bucket != _bucketEnd; ++bucket)
+    for (Bucket* bucket = _bucketBegin; bucket != _bucketEnd; ++bucket) {
       bucket->clear();
+      bucket->setFrontToken(0); // no longer has a position in _front
+    }
 	MATHIC_ASSERT(isValid());
   }
 
-- 
2.43.0


From a575b2026e2b68836f24658479b10b3a4f1a8822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 05/56] fix: Geobucket accepts a push of an empty range

An empty range was inserted into the front as a bucket with no entries,
which top and pop then read from.
---
 src/mathic/Geobucket.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mathic/Geobucket.h b/src/mathic/Geobucket.h
index 4f83c5b..5e2ee46 100755
--- a/src/mathic/Geobucket.h
+++ b/src/mathic/Geobucket.h
@@ -415,6 +415,8 @@ namespace mathic {
 	  }
 	}
 #endif
+	if (begin == end)
+	  return;
 	const size_t entryCount = end - begin;
 	const size_t adjCount = entryCount * C::insertFactor;
 	while (adjCount > (_bucketEnd - 1)->capacity())
-- 
2.43.0


From 846235f0cc1b8ff4fd32d4cc9a5759b93dd76b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 06/56] fix: TourTree stays consistent when growing runs out of
 memory

If growing the player storage failed after the tree had grown, a later
push grew the player storage on its own and left the tree pointing into
freed memory.
---
 src/mathic/ComTree.h  | 6 +++++-
 src/mathic/TourTree.h | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mathic/ComTree.h b/src/mathic/ComTree.h
index 2eea009..8f0f140 100755
--- a/src/mathic/ComTree.h
+++ b/src/mathic/ComTree.h
@@ -53,6 +53,10 @@ namespace mathic {
 
     bool hasFreeCapacity(size_t extraCapacity) const;
     void increaseCapacity();
+    // What capacity() will be after the next call to increaseCapacity().
+    size_t capacityAfterIncrease() const {
+      return capacity() == 0 ? 16 : capacity() * 2;
+    }
     void swap(ComTree& tree);
 
     class Node {
@@ -315,7 +319,7 @@ namespace mathic {
   template<class E, bool FI>
   void ComTree<E, FI>::increaseCapacity() {
     MATHIC_ASSERT(isValid());
-    ComTree<E, FI> newTree(capacity() == 0 ? 16 : capacity() * 2);
+    ComTree<E, FI> newTree(capacityAfterIncrease());
     for (Node i; i <= lastLeaf(); i = i.next())
       newTree.pushBack((*this)[i]);
     MATHIC_ASSERT(newTree.isValid());
diff --git a/src/mathic/TourTree.h b/src/mathic/TourTree.h
index 2eeedaa..3620a3e 100755
--- a/src/mathic/TourTree.h
+++ b/src/mathic/TourTree.h
@@ -221,8 +221,9 @@ namespace mathic {
   template<class C>
 	void TourTree<C>::reallocate() {
 	MATHIC_ASSERT(isValid());
-	_tree.increaseCapacity();
-	const size_t newCapacity = _tree.capacity();
+	// Reserve space for the players first so that _tree has no capacity
+	// that _players does not have in case running out of memory here.
+	const size_t newCapacity = _tree.capacityAfterIncrease();
 	if (_players.empty())
 	  _players.reserve(newCapacity / 2 + 2);
 	else {
@@ -232,6 +233,7 @@ namespace mathic {
 	  for (Node pos; pos <= _tree.lastLeaf(); ++pos)
 		_tree[pos] = newBegin + (_tree[pos] - oldBegin);
 	}
+	_tree.increaseCapacity();
 	MATHIC_ASSERT(isValid());
   }
 
-- 
2.43.0


From 575aaa428d8af1a3a83066c30037e1e139d0971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 07/56] fix: Geobucket buckets never share a buffer after a
 failed entry copy

With same-size buffer storage an entry copy that throws while buffers are
exchanged left two owners for one buffer, which clear did not undo.
---
 src/mathic/Geobucket.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/mathic/Geobucket.h b/src/mathic/Geobucket.h
index 5e2ee46..8357be3 100755
--- a/src/mathic/Geobucket.h
+++ b/src/mathic/Geobucket.h
@@ -601,9 +601,11 @@ namespace mathic {
 	  into.switchToOtherBuffer(otherEnd - other);
 	} else if (C::bucketStorage == GeoStoreSameSizeBuffer) {
 	  Entry* tmpEnd = merge(into.begin(), into.end(), begin, end, _tmp);
-	  Entry* previousBufferOfInto = into.begin();
-	  into.setBufferWithNewEntries(_tmp, tmpEnd - _tmp);
-	  _tmp = previousBufferOfInto;
+	  // exchange the buffers before anything that can throw so that no
+	  // buffer ever has two owners.
+	  Entry* const tmpBegin = _tmp;
+	  _tmp = into.begin();
+	  into.setBufferWithNewEntries(tmpBegin, tmpEnd - tmpBegin);
 	} else {
 	  Entry* tmpEnd = std::copy(into.begin(), into.end(), _tmp);
 	  into.merge(*this, begin, end, _tmp, tmpEnd);
@@ -633,9 +635,12 @@ namespace mathic {
 	MATHIC_ASSERT(from.size() <= to.capacity());
 
 	if (C::bucketStorage == GeoStoreSameSizeBuffer) {
-	  Entry* previousBufferOfTo = to.begin();
-	  to.setBufferWithNewEntries(from.begin(), from.size());
-	  from.setBufferWithNewEntries(previousBufferOfTo, 0);
+	  // exchange the buffers before anything that can throw so that no
+	  // buffer ever has two owners.
+	  Entry* const fromBegin = from.begin();
+	  const size_t fromSize = from.size();
+	  from.setBufferWithNewEntries(to.begin(), 0);
+	  to.setBufferWithNewEntries(fromBegin, fromSize);
 	} else {
 	  to.assign(from.begin(), from.end(), from.size());
 	  from.clear();
-- 
2.43.0


From 6f3b1f16c56b197b7daad314d7071d8ac15e1b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 08/56] fix: TourTree::push leaves the queue unchanged if
 compare throws

---
 src/mathic/TourTree.h | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/mathic/TourTree.h b/src/mathic/TourTree.h
index 3620a3e..31e126a 100755
--- a/src/mathic/TourTree.h
+++ b/src/mathic/TourTree.h
@@ -115,30 +115,32 @@ namespace mathic {
 	  MATHIC_SLOW_ASSERT(isValid());
 	  return;
 	}
+	// Find out how far up the tree entry wins before changing anything, so
+	// that nothing has changed if compare or copying entry throws.
+	const Node leftLeaf = _tree.lastLeaf().next();
+	const Node rightLeaf = leftLeaf.next();
+	Node winTop = rightLeaf;
+	do {
+	  typename C::CompareResult cmp = _conf.compare
+		(_tree[winTop.parent()]->entry, entry);
+	  if (!_conf.cmpLessThan(cmp))
+		break;
+	  winTop = winTop.parent();
+	} while (!winTop.isRoot());
+	_players.push_back(Player(entry, rightLeaf));
+
 	// move leaf down as left child
-	Node posParent = _tree.lastLeaf().next().parent();
-	Player* moveDown = _tree[posParent];
+	Player* moveDown = _tree[leftLeaf.parent()];
 	_tree.pushBackWithCapacity(moveDown);
 	moveDown->leaf = _tree.lastLeaf();
 	MATHIC_ASSERT(_tree.lastLeaf().isLeft());
 
 	// insert entry as right child
-	_players.push_back(Player(entry, _tree.lastLeaf().next()));
 	_tree.pushBackWithCapacity(&_players.back());
 	MATHIC_ASSERT(_tree.lastLeaf().isRight());
 
-	Node pos = _tree.lastLeaf();
-	do {
-	  MATHIC_ASSERT(!pos.isRoot());
-	  MATHIC_ASSERT(posParent == pos.parent());
-	  typename C::CompareResult cmp = _conf.compare
-		(_tree[posParent]->entry, _tree[pos]->entry);
-	  if (!_conf.cmpLessThan(cmp))
-		break;
-	  _tree[posParent] = _tree[pos];
-	  pos = posParent;
-	  posParent = pos.parent();
-	} while (!pos.isRoot());
+	for (Node pos = rightLeaf; pos != winTop; pos = pos.parent())
+	  _tree[pos.parent()] = &_players.back();
 	MATHIC_SLOW_ASSERT(isValid());
   }
 
-- 
2.43.0


From 6ed0477ab4351d5fac3514942e3b015b07b331f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 09/56] fix: PairQueue destructs pair data whose computation
 failed

---
 src/mathic/PairQueue.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index 0340153..8a479a6 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -80,7 +80,12 @@ namespace mathic {
 		MATHIC_ASSERT(memory != 0);
 		MATHIC_ASSERT(col > row);
 		PairData* pd = new (memory) PairData();
-		conf.computePairData(col, row, *pd);
+		try {
+		  conf.computePairData(col, row, *pd);
+		} catch (...) {
+		  pd->~PairData();
+		  throw;
+		}
 	  }
 	};
 	template<class Configuration>
-- 
2.43.0


From 47b445088728eefed5e2b07e93d6544e4829e35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 10/56] fix: PairQueue columns keep track of the row their pair
 data is for

---
 src/mathic/PairQueue.h | 50 +++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index 8a479a6..7be913b 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -311,6 +311,10 @@ namespace mathic {
 	  // destruct(conf).
 	  ~Column(); // not available
 
+	  template<class RowIndex>
+	  void incrementRowIndex
+	  (RowIndex*& begin, RowIndex* const end, PairQueue<C>& pq);
+
 	  void destruct(Index row, C& conf) {
 		PairQueueNamespace::
 		  destructPairData(&mPairData, columnIndex(), row, conf);
@@ -472,28 +476,34 @@ namespace mathic {
   template<class C>
   void PairQueue<C>::Column::incrementRowIndex(PairQueue<C>& pq) {
 	MATHIC_ASSERT(!empty());
-	if (big()) {
-	  do {
-		++bigBegin;
-		if (bigBegin == bigEnd) {
-		  MATHIC_ASSERT(empty());
-		  destruct(*(bigBegin - 1), pq.configuration());
-		  return;
-		}
-	  } while (PairQueue::SupportRetirement && pq.retired(*bigBegin));
-	} else {
-	  do {
-		++smallBegin;
-		if (smallBegin == smallEnd) {
-		  MATHIC_ASSERT(empty());
-		  destruct(*(smallBegin - 1), pq.configuration());
-		  return;
-		}
-	  } while (PairQueue::SupportRetirement && pq.retired(*smallBegin));
-	}
+	if (big())
+	  incrementRowIndex(bigBegin, bigEnd, pq);
+	else
+	  incrementRowIndex(smallBegin, smallEnd, pq);
+  }
+
+  template<class C>
+  template<class RowIndex>
+  void PairQueue<C>::Column::incrementRowIndex
+  (RowIndex*& begin, RowIndex* const end, PairQueue<C>& pq) {
+	// mPairData holds the data of this row until it has been recomputed.
+	RowIndex* const oldBegin = begin;
+	do {
+	  ++begin;
+	  if (begin == end) {
+		MATHIC_ASSERT(empty());
+		destruct(*oldBegin, pq.configuration());
+		return;
+	  }
+	} while (PairQueue::SupportRetirement && pq.retired(*begin));
 	MATHIC_ASSERT(!empty());
 	MATHIC_ASSERT(!pq.retired(rowIndex()));
-	pq.configuration().computePairData(columnIndex(), rowIndex(), mPairData);
+	try {
+	  pq.configuration().computePairData(columnIndex(), rowIndex(), mPairData);
+	} catch (...) {
+	  begin = oldBegin;
+	  throw;
+	}
   }
 
   template<class C>
-- 
2.43.0


From 7f5b5023819aa26ca8d16678e756e1c782675a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 11/56] fix: KDTree::clear and KDTree::insert of a range
 compile and work

---
 src/mathic/KDTree.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 8290bb2..a706776 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -154,16 +154,16 @@ namespace mathic {
     void insert(Iter begin, Iter end) {
       if (begin == end)
         return;
-      const size_t inserted = std::distance(begin, end); 
       if (!empty()) {
         for (; begin != end; ++begin)
-          _tree.insert(*begin);
-      } else {
-        _tree.insert(begin, end);
-        // insert into empty container is equivalent to rebuild
-        resetNumberOfChangesTillRebuild();
+          insert(*begin);
+        return;
       }
-      reportChanges(inserted, 0);
+      // insert into empty container is equivalent to rebuild
+      _divMaskCalculator.rebuild(begin, end, getConfiguration());
+      _tree.reset(begin, end, _divMaskCalculator);
+      _size = std::distance(begin, end);
+      resetNumberOfChangesTillRebuild();
     }
 
     /** Removes an element whose exponents are equal to monomial's. Returns
@@ -236,8 +236,9 @@ namespace mathic {
     /** Removes all entries. Does not reset the configuration object. */
     void clear() {
       _tree.clear();
+      _size = 0;
       resetNumberOfChangesTillRebuild();
-      _tree.calc().rebuildDefault(getConfiguration());
+      _divMaskCalculator.rebuildDefault(getConfiguration());
     }
 
     /** Rebuilds the data structure. */
-- 
2.43.0


From 769acddb91e23a36b420da95b5ac85d84a2d4521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:25 +0000
Subject: [PATCH 12/56] fix: BinaryKDTree::removeElement compiles

---
 src/mathic/BinaryKDTree.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mathic/BinaryKDTree.h b/src/mathic/BinaryKDTree.h
index 3366ec4..53f1728 100755
--- a/src/mathic/BinaryKDTree.h
+++ b/src/mathic/BinaryKDTree.h
@@ -123,7 +123,12 @@ namespace mathic {
       }
 
       Node& getChildFor(const ExtEntry& entry, const C& conf) {
-        if (getExponent() < conf.getExponent(entry.get(), getVar()))
+        return getChildFor(entry.get(), conf);
+      }
+
+      template<class ME> // ME is MonomialOrEntry
+      Node& getChildFor(const ME& me, const C& conf) {
+        if (getExponent() < conf.getExponent(me, getVar()))
           return getStrictlyGreater();
         else
           return getEqualOrLess();
@@ -288,12 +293,12 @@ namespace mathic {
   bool BinaryKDTree<C>::removeElement(const Monomial& monomial) {
     MATHIC_ASSERT(_tmp.empty());
     if (_root == 0)
-      return 0;
+      return false;
     Node* node = _root;
 
     while (node->isInterior())
-      node = node->asInterior().getChildFor(monomial, _conf);
-    const bool value = node->asLeaf().removeElement(monomial);
+      node = &node->asInterior().getChildFor(monomial, _conf);
+    const bool value = node->asLeaf().entries().removeElement(monomial, _conf);
     MATHIC_ASSERT(debugIsValid());
     return value;
   }
-- 
2.43.0


From ca9b16d3b1b087b6933e8884674318dc02bc59d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:21 +0000
Subject: [PATCH 13/56] fix: KDTree::removeElement updates the size and drops
 the divisor cache

---
 src/mathic/KDTree.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index a706776..90ad569 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -172,7 +172,10 @@ namespace mathic {
       MATHIC_ASSERT(C::AllowRemovals);
       if (!C::AllowRemovals)
         throw std::logic_error("Removal request while removals disabled.");
-      return _tree.removeElement(monomial);
+      const bool removed = _tree.removeElement(monomial);
+      if (removed)
+        reportChanges(0, 1);
+      return removed;
     }
 
     /** Returns a pointer to an entry that divides monomial. Returns null if no
-- 
2.43.0


From 7f9ac04066e781b5f8cf652721e53d0d6b147fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:49 +0000
Subject: [PATCH 14/56] fix: DivMask::Calculator keeps its parameters if
 rebuilding them fails

---
 src/mathic/DivMask.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mathic/DivMask.h b/src/mathic/DivMask.h
index 96f4bb9..2b35f53 100644
--- a/src/mathic/DivMask.h
+++ b/src/mathic/DivMask.h
@@ -211,7 +211,8 @@ namespace mathic {
       return;
     }
 
-    _bits.clear();
+    // _bits must stay as it is if there is an exception.
+    BitContainer bits;
     const size_t varCount = conf.getVarCount();
     const size_t TotalBits = sizeof(MaskType) * BitsPerByte;
 
@@ -251,7 +252,7 @@ namespace mathic {
         ++bitsForVars[var];
     }
 
-    // calculate the meaning of each bit and put it in _bits
+    // calculate the meaning of each bit and put it in bits
     for (size_t var = 0; var < varCount; ++var) {
       const size_t bitsForVar = bitsForVars[var];
       if (bitsForVar == 0)
@@ -278,7 +279,7 @@ namespace mathic {
             if (j == size)
               break;
           }
-          _bits.push_back(
+          bits.push_back(
             std::make_pair(var, conf.getExponent(begin[j], var)));
           lastJ = j;
           lastExp = conf.getExponent(begin[j], var);
@@ -303,16 +304,17 @@ namespace mathic {
         if (increment == 0)
           increment = 1;
         for (size_t i = 0; i < bitsForVar; ++i)
-          _bits.push_back(std::make_pair(var, min + increment * static_cast<Exponent>(i)));
+          bits.push_back(std::make_pair(var, min + increment * static_cast<Exponent>(i)));
            // todo: can avoid cast?
       }
     }
+    _bits.swap(bits);
   }
 
   template<class C>
     void DivMask::Calculator<C, true>::
     rebuildDefault(const C& conf) {
-    _bits.clear();
+    BitContainer bits;
     const size_t varCount = conf.getVarCount();
     const size_t TotalBits = sizeof(MaskType) * BitsPerByte;
     for (size_t var = 0; var < varCount; ++var) {
@@ -320,10 +322,11 @@ namespace mathic {
         TotalBits / varCount + (var < TotalBits % varCount);
       Exponent exp = 0;
       for (size_t i = 0; i < bitsForVar; ++i) {
-        _bits.push_back(std::make_pair(var, exp));
+        bits.push_back(std::make_pair(var, exp));
         exp = (i == 0 ? 1 : exp * 2);
       }
     }
+    _bits.swap(bits);
   }
 
   template<class C>
-- 
2.43.0


From cc97233bc603d0461763a06a93d0f91e712300cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:55 +0000
Subject: [PATCH 15/56] fix: DivList::rebuild changes nothing if it fails

---
 src/mathic/DivList.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index 03cf87d..3e23fc9 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -578,10 +578,24 @@ namespace mathic {
     typedef memt::ArenaVector<Entry, true> TmpContainer;
     TmpContainer tmpCopy(memt::Arena::getArena(), totalSize);
     std::copy(begin(), end(), std::back_inserter<TmpContainer>(tmpCopy));
-    _divMaskCalculator.rebuild(tmpCopy.begin(), tmpCopy.end(), _conf);
-    ListIter listEnd = _list.end();
+
+    // Do not change anything until everything has been computed, as the
+    // div masks of the list must match _divMaskCalculator even if there
+    // is an exception.
+    DivMaskCalculator calculator(_divMaskCalculator);
+    calculator.rebuild(tmpCopy.begin(), tmpCopy.end(), _conf);
+    typedef DivMask::HasDivMask<C::UseDivMask> Mask;
+    typedef DivMask::Extender<const Entry&, C::UseDivMask> ExtEntryRef;
+    typedef memt::ArenaVector<Mask, true> MaskContainer;
+    MaskContainer masks(memt::Arena::getArena(), totalSize);
+    const ListIter listEnd = _list.end();
     for (ListIter it = _list.begin(); it != listEnd; ++it)
-      it->recalculateDivMask(_divMaskCalculator, _conf);
+      masks.push_back(ExtEntryRef(it->get(), calculator, _conf));
+
+    std::swap(_divMaskCalculator, calculator);
+    Mask* mask = masks.begin();
+    for (ListIter it = _list.begin(); it != listEnd; ++it, ++mask)
+      static_cast<Mask&>(*it) = *mask;
     resetNumberOfChangesTillRebuild();
   }
 
-- 
2.43.0


From e8cae9ffb4586a9a0c1bbe98e9e92693985f5891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:55 +0000
Subject: [PATCH 16/56] fix: DivList range insert does not leave an unsorted
 list on exceptions

---
 src/mathic/DivList.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index 3e23fc9..c2ca5c3 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -419,10 +419,12 @@ namespace mathic {
       return;
 
     _divMaskCalculator.rebuild(rangeBegin, rangeEnd, _conf);
+    List list; // so that an exception cannot leave an unsorted list
     for (; rangeBegin != rangeEnd; ++rangeBegin)
-      _list.push_back(ExtEntry(*rangeBegin, _divMaskCalculator, _conf));
+      list.push_back(ExtEntry(*rangeBegin, _divMaskCalculator, _conf));
     if (_conf.getSortOnInsert())
-      DivListHelper::sortAll(_conf, _list);
+      DivListHelper::sortAll(_conf, list);
+    _list.swap(list);
     resetNumberOfChangesTillRebuild();
   }
 
-- 
2.43.0


From 248e7ae057965f5f9a670ed2b6c37b11086a43ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:55 +0000
Subject: [PATCH 17/56] fix: DivList::removeMultiples on an array loses and
 repeats no entry on exceptions

---
 src/mathic/DivList.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index c2ca5c3..4918cc8 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -236,12 +236,18 @@ namespace mathic {
       if (it == oldEnd)
         return 0;
       iterator newEnd = it;
-      for (++it; it != oldEnd; ++it) {
-        if (!monomial.divides(*it, conf)) {
-          *newEnd = *it;
-          ++newEnd;
-        } else
-          out.push_back(it->get());
+      try {
+        for (++it; it != oldEnd; ++it) {
+          if (!monomial.divides(*it, conf)) {
+            *newEnd = *it;
+            ++newEnd;
+          } else
+            out.push_back(it->get());
+        }
+      } catch (...) {
+        // keep exactly those entries that have not been given to out
+        list.erase(std::copy(it, oldEnd, newEnd), oldEnd);
+        throw;
       }
       const size_t origSize = list.size();
       const size_t newSize = std::distance(list.begin(), newEnd);
-- 
2.43.0


From 20b1931596e31fcd40be797b9942ebb5d9fb9ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:01 +0000
Subject: [PATCH 18/56] fix: an exception out of a KD tree traversal leaves
 nothing behind for the next

---
 src/mathic/BinaryKDTree.h | 17 +++++++++++++++++
 src/mathic/PackedKDTree.h | 17 +++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/src/mathic/BinaryKDTree.h b/src/mathic/BinaryKDTree.h
index 53f1728..f11c081 100755
--- a/src/mathic/BinaryKDTree.h
+++ b/src/mathic/BinaryKDTree.h
@@ -243,6 +243,17 @@ namespace mathic {
       Interior* parent;
     };
 
+    /// Makes sure that _tmp is left empty even if there is an exception.
+    class TmpClearer {
+    public:
+      TmpClearer(std::vector<Node*>& tmp): _tmp(tmp) {}
+      ~TmpClearer() {_tmp.clear();}
+    private:
+      TmpClearer(const TmpClearer&); // unavailable
+      void operator=(const TmpClearer&); // unavailable
+      std::vector<Node*>& _tmp;
+    };
+
     memt::Arena _arena; // Everything permanent allocated from here.
     C _conf; // User supplied configuration.
     mutable std::vector<Node*> _tmp; // For navigating the tree.
@@ -269,6 +280,7 @@ namespace mathic {
       return 0;
     size_t removedCount = 0;
     Node* node = _root;
+    TmpClearer tmpClearer(_tmp);
     while (true) {
       while (node->isInterior()) {
         Interior& interior = node->asInterior();
@@ -434,6 +446,7 @@ namespace mathic {
     if (_root == 0)
       return 0;
     Node* node = _root;
+    TmpClearer tmpClearer(_tmp);
     while (true) {
       while (node->isInterior()) {
         Interior& interior = node->asInterior();
@@ -474,6 +487,7 @@ namespace mathic {
     if (_root == 0)
       return;
     Node* node = _root;
+    TmpClearer tmpClearer(_tmp);
     while (true) {
       while (node->isInterior()) {
         Interior& interior = node->asInterior();
@@ -509,6 +523,7 @@ next:
     if (_root == 0)
       return;
     Node* node = _root;
+    TmpClearer tmpClearer(_tmp);
     while (true) {
       while (node->isInterior()) {
         Interior& interior = node->asInterior();
@@ -541,6 +556,7 @@ next:
     if (_root == 0)
       return;
     Node* node = _root;
+    TmpClearer tmpClearer(_tmp);
     while (true) {
       while (node->isInterior()) {
         Interior& interior = node->asInterior();
@@ -594,6 +610,7 @@ next:
     MATHIC_ASSERT(_tmp.empty());
     if (_root != 0) {
       Node* node = _root;
+      TmpClearer tmpClearer(_tmp);
       while (true) {
         if (node->isInterior()) {
           Interior& interior = node->asInterior();
diff --git a/src/mathic/PackedKDTree.h b/src/mathic/PackedKDTree.h
index 19dd091..45c5a5b 100755
--- a/src/mathic/PackedKDTree.h
+++ b/src/mathic/PackedKDTree.h
@@ -163,6 +163,17 @@ namespace mathic {
       typename Node::Child* fromParent;
     };
 
+    /// Makes sure that _tmp is left empty even if there is an exception.
+    class TmpClearer {
+    public:
+      TmpClearer(std::vector<Node*>& tmp): _tmp(tmp) {}
+      ~TmpClearer() {_tmp.clear();}
+    private:
+      TmpClearer(const TmpClearer&); // unavailable
+      void operator=(const TmpClearer&); // unavailable
+      std::vector<Node*>& _tmp;
+    };
+
     memt::Arena _arena; // Everything permanent allocated from here.
     C _conf; // User supplied configuration.
     mutable std::vector<Node*> _tmp; // For navigating the tree.
@@ -223,6 +234,7 @@ namespace mathic {
       return 0;
     size_t removedCount = 0;
     Node* node = _root;
+    TmpClearer tmpClearer(_tmp);
     while (true) {
       for (typename Node::const_iterator it = node->childBegin();
         it != node->childEnd(); ++it) {
@@ -400,6 +412,7 @@ stopped:;
     if (_root == 0)
       return 0;
     Node* node = _root;
+    TmpClearer tmpClearer(_tmp);
     while (true) {
       // record relevant children for later processing
       for (typename Node::const_iterator it = node->childBegin();
@@ -443,6 +456,7 @@ next:
     if (_root == 0)
       return;
     Node* node = _root;
+    TmpClearer tmpClearer(_tmp);
     while (true) {
       for (typename Node::const_iterator it = node->childBegin();
         it != node->childEnd(); ++it) {
@@ -475,6 +489,7 @@ next:
     if (_root == 0)
       return;
     Node* node = _root;
+    TmpClearer tmpClearer(_tmp);
     while (true) {
       for (typename Node::const_iterator it = node->childBegin();
         it != node->childEnd(); ++it) {
@@ -502,6 +517,7 @@ next:
     if (_root == 0)
       return;
     Node* node = _root;
+    TmpClearer tmpClearer(_tmp);
     while (true) {
       if (!node->entries().forAll(output)) {
         _tmp.clear();
@@ -551,6 +567,7 @@ next:
     if (_root == 0)
       return;
     Node* node = _root;
+    TmpClearer tmpClearer(_tmp);
     while (true) {
       out << "**** Node " << node << "\nchildren:\n";
       for (typename Node::iterator it = node->childBegin();
-- 
2.43.0


From 7e25294a71193d2c4690a07a0e5d8191cdcb5c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:01 +0000
Subject: [PATCH 19/56] fix: KDEntryArray destructs its entries if its
 constructor fails

---
 src/mathic/KDEntryArray.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/mathic/KDEntryArray.h b/src/mathic/KDEntryArray.h
index c54eee3..ca2c8b9 100755
--- a/src/mathic/KDEntryArray.h
+++ b/src/mathic/KDEntryArray.h
@@ -207,10 +207,15 @@ namespace mathic {
                   C::LeafSize);
     _end = this->begin();
     // cannot directly copy as memory is not constructed.
-    for (; begin != end; ++begin)
-      push_back(EE(*begin, calc, conf));
-    if (conf.getSortOnInsert())
-      std::sort(this->begin(), this->end(), Comparer<C>(conf));
+    try {
+      for (; begin != end; ++begin)
+        push_back(EE(*begin, calc, conf));
+      if (conf.getSortOnInsert())
+        std::sort(this->begin(), this->end(), Comparer<C>(conf));
+    } catch (...) {
+      clear(); // there is going to be no destructor call
+      throw;
+    }
   }
 
   template<class C, class EE>
@@ -228,10 +233,15 @@ namespace mathic {
                   C::LeafSize);
     _end = this->begin();
     // cannot directly copy as memory is not constructed.
-    for (; begin != end; ++begin)
-      push_back(*begin);
-    if (conf.getSortOnInsert())
-      std::sort(this->begin(), this->end(), Comparer<C>(conf));
+    try {
+      for (; begin != end; ++begin)
+        push_back(*begin);
+      if (conf.getSortOnInsert())
+        std::sort(this->begin(), this->end(), Comparer<C>(conf));
+    } catch (...) {
+      clear(); // there is going to be no destructor call
+      throw;
+    }
   }
 
   template<class C, class EE>
-- 
2.43.0


From f1ea8fb054d699ec1028cb5addbe2c0fae34d686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:01 +0000
Subject: [PATCH 20/56] fix: an aborted KDTree::removeMultiples loses, repeats
 and miscounts no entry

---
 src/mathic/BinaryKDTree.h | 18 ++++++++++-----
 src/mathic/KDEntryArray.h | 47 ++++++++++++++++++++++-----------------
 src/mathic/KDTree.h       | 13 ++++++++++-
 src/mathic/PackedKDTree.h | 17 ++++++++------
 4 files changed, 61 insertions(+), 34 deletions(-)

diff --git a/src/mathic/BinaryKDTree.h b/src/mathic/BinaryKDTree.h
index f11c081..9befc15 100755
--- a/src/mathic/BinaryKDTree.h
+++ b/src/mathic/BinaryKDTree.h
@@ -198,8 +198,11 @@ namespace mathic {
     BinaryKDTree(const C& configuration);
     ~BinaryKDTree();
 
+    /** Adds the number of removed entries to removedCount, also if there
+        is an exception. */
     template<class MultipleOutput>
-    size_t removeMultiples(const ExtMonoRef& monomial, MultipleOutput& out);
+    void removeMultiples(const ExtMonoRef& monomial, MultipleOutput& out,
+      size_t& removedCount);
 
     bool removeElement(const Monomial& monomial);
 
@@ -274,11 +277,14 @@ namespace mathic {
 
   template<class C>
   template<class MO>
-  size_t BinaryKDTree<C>::removeMultiples(const ExtMonoRef& extMonomial, MO& out) {
+  void BinaryKDTree<C>::removeMultiples(
+    const ExtMonoRef& extMonomial,
+    MO& out,
+    size_t& removedCount
+  ) {
     MATHIC_ASSERT(_tmp.empty());
     if (_root == 0)
-      return 0;
-    size_t removedCount = 0;
+      return;
     Node* node = _root;
     TmpClearer tmpClearer(_tmp);
     while (true) {
@@ -290,7 +296,8 @@ namespace mathic {
         node = &interior.getStrictlyGreater();
       }
       MATHIC_ASSERT(node->isLeaf());
-      removedCount += node->asLeaf().entries().removeMultiples(extMonomial, out, _conf);
+      node->asLeaf().entries().
+        removeMultiples(extMonomial, out, removedCount, _conf);
       if (_tmp.empty())
         break;
       node = _tmp.back();
@@ -298,7 +305,6 @@ namespace mathic {
     }
     MATHIC_ASSERT(_tmp.empty());
     MATHIC_ASSERT(debugIsValid());
-    return removedCount;
   }
 
   template<class C>
diff --git a/src/mathic/KDEntryArray.h b/src/mathic/KDEntryArray.h
index ca2c8b9..068c4ea 100755
--- a/src/mathic/KDEntryArray.h
+++ b/src/mathic/KDEntryArray.h
@@ -58,9 +58,12 @@ namespace mathic {
     void insert(iterator it, const EE& entry);
     void insert(const EE& entry, const C& conf);
 
-    /** Returns how many were removed. */
+    /** Adds the number of removed entries to removedCount. If there is
+     an exception, then the entries given to out have been removed and
+     removedCount accounts for those. */
     template<class EM, class MO>
-    size_t removeMultiples(const EM& monomial, MO& out, const C& conf);
+    void removeMultiples
+      (const EM& monomial, MO& out, size_t& removedCount, const C& conf);
 
     template<class M>
     bool removeElement(const M& monomial, const C& conf);
@@ -293,15 +296,16 @@ namespace mathic {
 
   template<class C, class EE>
   template<class EM, class MO>
-  size_t KDEntryArray<C, EE>::removeMultiples
-    (const EM& monomial, MO& out, const C& conf) {
+  void KDEntryArray<C, EE>::removeMultiples
+    (const EM& monomial, MO& out, size_t& removedCount, const C& conf) {
     MATHIC_ASSERT(C::AllowRemovals);
     if (C::LeafSize == 1) { // special case for performance
       if (empty() || !monomial.divides(*begin(), conf))
-        return 0;
+        return;
       out.push_back(begin()->get());
       pop_back();
-      return 1;
+      ++removedCount;
+      return;
     }
 
     iterator it = begin();
@@ -313,25 +317,28 @@ namespace mathic {
       }
     }
     if (it == oldEnd)
-      return 0;
+      return;
     iterator newEnd = it;
-    for (++it; it != oldEnd; ++it) {
-      if (!monomial.divides(*it, conf)) {
-        *newEnd = *it;
-        ++newEnd;
-      } else
-        out.push_back(it->get());
+    try {
+      for (++it; it != oldEnd; ++it) {
+        if (!monomial.divides(*it, conf)) {
+          *newEnd = *it;
+          ++newEnd;
+        } else
+          out.push_back(it->get());
+      }
+    } catch (...) {
+      // keep exactly those entries that have not been given to out
+      newEnd = std::copy(it, oldEnd, newEnd);
+      for (; newEnd != _end; ++removedCount)
+        pop_back();
+      throw;
     }
     // cannot just set _end directly as the superfluous
     // entries at the end need to be destructed.
-    const size_t newSize = std::distance(begin(), newEnd);
-    const size_t removedCount = size() - newSize;
-    MATHIC_ASSERT(newSize < size());
-    do {
+    MATHIC_ASSERT(newEnd != _end);
+    for (; newEnd != _end; ++removedCount)
       pop_back();
-    } while (newSize < size());
-    MATHIC_ASSERT(size() == newSize);
-    return removedCount;
   }
 
   template<class C, class EE>
diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 90ad569..dcfa0b8 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -111,7 +111,18 @@ namespace mathic {
       if (!C::AllowRemovals)
         throw std::logic_error("Removal request while removals disabled.");
       ExtMonoRef extMonomial(monomial, _divMaskCalculator, getConfiguration());
-      size_t removedCount = _tree.removeMultiples(extMonomial, out);
+      size_t removedCount = 0;
+      try {
+        _tree.removeMultiples(extMonomial, out, removedCount);
+      } catch (...) {
+        // account for what has already been removed, but do not rebuild
+        if (removedCount != 0) {
+          if (getConfiguration().getUseDivisorCache())
+            _divisorCache = 0;
+          reportChangesRebuild(0, removedCount);
+        }
+        throw;
+      }
       reportChanges(0, removedCount);
       return removedCount > 0;
     }
diff --git a/src/mathic/PackedKDTree.h b/src/mathic/PackedKDTree.h
index 45c5a5b..a0212aa 100755
--- a/src/mathic/PackedKDTree.h
+++ b/src/mathic/PackedKDTree.h
@@ -117,8 +117,11 @@ namespace mathic {
     PackedKDTree(const C& configuration);
     ~PackedKDTree();
 
+    /** Adds the number of removed entries to removedCount, also if there
+        is an exception. */
     template<class MultipleOutput>
-    size_t removeMultiples(const ExtMonoRef& monomial, MultipleOutput& out);
+    void removeMultiples(const ExtMonoRef& monomial, MultipleOutput& out,
+      size_t& removedCount);
 
     bool removeElement(const Monomial& monomial);
 
@@ -225,14 +228,14 @@ namespace mathic {
 
   template<class C>
   template<class MO>
-  size_t PackedKDTree<C>::removeMultiples(
+  void PackedKDTree<C>::removeMultiples(
     const ExtMonoRef& extMonomial,
-    MO& out
+    MO& out,
+    size_t& removedCount
   ) {
     MATHIC_ASSERT(_tmp.empty());
     if (_root == 0)
-      return 0;
-    size_t removedCount = 0;
+      return;
     Node* node = _root;
     TmpClearer tmpClearer(_tmp);
     while (true) {
@@ -242,7 +245,8 @@ namespace mathic {
         if (node->inChild(it, extMonomial.get(), _conf))
           goto stopped;
       }
-      removedCount += node->entries().removeMultiples(extMonomial, out, _conf);
+      node->entries().
+        removeMultiples(extMonomial, out, removedCount, _conf);
 stopped:;
       if (_tmp.empty())
         break;
@@ -251,7 +255,6 @@ stopped:;
     }
     MATHIC_ASSERT(_tmp.empty());
     MATHIC_ASSERT(debugIsValid());
-    return removedCount;
   }
 
   template<class C>
-- 
2.43.0


From 5ffb86fb3322fe26fe96ac9e1328baf58a4f7696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:36 +0000
Subject: [PATCH 21/56] fix: splitting a KD tree node changes nothing if out of
 memory and leaks no entry

---
 src/mathic/BinaryKDTree.h | 62 +++++++++++++++++++++++----------------
 src/mathic/PackedKDTree.h | 36 +++++++++++------------
 2 files changed, 54 insertions(+), 44 deletions(-)

diff --git a/src/mathic/BinaryKDTree.h b/src/mathic/BinaryKDTree.h
index 9befc15..0944a8c 100755
--- a/src/mathic/BinaryKDTree.h
+++ b/src/mathic/BinaryKDTree.h
@@ -182,9 +182,11 @@ namespace mathic {
       const KDEntryArray<C, ExtEntry>& entries() const {return _entries;}
 
       /** When this node is full, call this to insert an element. It
-       splits the elements in this noe into two leaves and returns
-       a new interior node that is the parent of them. */
-      Interior& splitInsert(const ExtEntry& entry, Interior* parent,
+       splits the elements in this noe into two leaves and makes
+       a new interior node that is the parent of them. That new node takes
+       the place of this node below parent. If parent is null then it
+       becomes the root. */
+      void splitInsert(const ExtEntry& entry, Interior* parent, Node*& root,
         memt::Arena& arena, const C& conf);
 
     private:
@@ -337,11 +339,8 @@ namespace mathic {
 
     MATHIC_ASSERT(leaf->entries().size() <= C::LeafSize);
     if (leaf->entries().size() == C::LeafSize) {
-      Interior& interior = leaf->splitInsert(extEntry, parent, _arena, _conf);
-      if (parent == 0) {
-        MATHIC_ASSERT(leaf == _root);
-        _root = &interior;
-      }
+      MATHIC_ASSERT(parent != 0 || leaf == _root);
+      leaf->splitInsert(extEntry, parent, _root, _arena, _conf);
     } else {
       MATHIC_ASSERT(leaf->entries().size() < C::LeafSize);
       leaf->entries().insert(extEntry, _conf);
@@ -766,43 +765,54 @@ next:
   };
 
   template<class C>
-  typename BinaryKDTree<C>::KDTreeInterior&
-  BinaryKDTree<C>::KDTreeLeaf::splitInsert(const ExtEntry& extEntry, Interior* parent, memt::Arena& arena, const C& conf) {
+  void BinaryKDTree<C>::KDTreeLeaf::splitInsert(
+    const ExtEntry& extEntry,
+    Interior* parent,
+    Node*& root,
+    memt::Arena& arena,
+    const C& conf
+  ) {
     MATHIC_ASSERT(conf.getVarCount() > 0);
     MATHIC_ASSERT(entries().size() > 0);
     size_t var = (parent == 0 ? static_cast<size_t>(-1) : parent->getVar());
     typename C::Exponent exp;
 
+    // Allocate before rearranging the entries so that nothing has changed
+    // if there is not enough memory.
+    Leaf* const otherMemory = arena.allocObjectNoCon<Leaf>();
+    Interior* const interiorMemory = arena.allocObjectNoCon<Interior>();
+
     iterator middle = KDEntryArray<C, ExtEntry>::split
       (entries().begin(), entries().end(), var, exp, conf, &extEntry);
-    Leaf& other = *new (arena.allocObjectNoCon<Leaf>()) Leaf(middle, entries().end(), arena, conf);
+    Leaf& other =
+      *new (otherMemory) Leaf(middle, entries().end(), arena, conf);
+
+    // The new nodes are part of the tree before anything else can throw an
+    // exception. Otherwise the entries of other would never be destructed.
+    Interior& interior = *new (interiorMemory) Interior(*this, other, var, exp);
+    if (parent == 0)
+      root = &interior;
+    else if (&parent->getEqualOrLess() == this)
+      parent->setEqualOrLess(&interior);
+    else {
+      MATHIC_ASSERT(&parent->getStrictlyGreater() == this);
+      parent->setStrictlyGreater(&interior);
+    }
+
     while (middle != entries().end())
       entries().pop_back();
-    if (conf.getSortOnInsert())
-      std::sort(entries().begin(), entries().end(), Comparer<C>(conf));
-
-    Interior& interior = *new (arena.allocObjectNoCon<Interior>())
-      Interior(*this, other, var, exp);
     if (C::UseTreeDivMask) {
       entries().recalculateTreeDivMask();
       interior.updateToLowerBound(entries());
       interior.updateToLowerBound(other.entries());
     }
-    if (parent != 0) {
-      if (&parent->getEqualOrLess() == this)
-        parent->setEqualOrLess(&interior);
-      else {
-        MATHIC_ASSERT(&parent->getStrictlyGreater() == this);
-        parent->setStrictlyGreater(&interior);
-      }
-    }
+    if (conf.getSortOnInsert())
+      std::sort(entries().begin(), entries().end(), Comparer<C>(conf));
 
     interior.updateToLowerBound(extEntry);
     Leaf* insertLeaf = &interior.getChildFor(extEntry, conf).asLeaf();
     MATHIC_ASSERT(insertLeaf->entries().size() < C::LeafSize);
     insertLeaf->entries().insert(extEntry, conf);
-
-    return interior;
   }
 }
 
diff --git a/src/mathic/PackedKDTree.h b/src/mathic/PackedKDTree.h
index a0212aa..9793c6c 100755
--- a/src/mathic/PackedKDTree.h
+++ b/src/mathic/PackedKDTree.h
@@ -39,13 +39,6 @@ namespace mathic {
           Node(arena, conf);
       }
 
-      template<class Iter>
-      static Node* makeNode(Iter begin, Iter end, memt::Arena& arena,
-        const C& conf, size_t childCount) {
-        return new (arena.alloc(sizeOf(childCount)))
-          Node(begin, end, arena, conf, childCount);
-      }
-
       template<class Iter>
       static Node* makeNode(Iter begin, Iter end, memt::Arena& arena,
         const DivMaskCalculator& calc, const C& conf, size_t childCount) {
@@ -80,9 +73,13 @@ namespace mathic {
       mathic::KDEntryArray<C, ExtEntry>& entries() {return _entries;}
       const KDEntryArray<C, ExtEntry>& entries() const {return _entries;}
 
-      Node* splitInsert(
+      /** When this node is full, call this to insert an element. A new
+       node takes the place of this node below childFromParent, or as the
+       root if childFromParent is null. */
+      void splitInsert(
         const ExtEntry& extEntry,
         Child* childFromParent,
+        Node*& root,
         memt::Arena& arena,
         const C& conf);
 
@@ -292,9 +289,8 @@ stopped:;
         if (node->entries().size() < C::LeafSize)
           node->entries().insert(extEntry, _conf);
         else { // split full node
-          node = node->splitInsert(extEntry, parentChild, _arena, _conf);
-          if (parentChild == 0)
-            _root = node;
+          MATHIC_ASSERT(parentChild != 0 || node == _root);
+          node->splitInsert(extEntry, parentChild, _root, _arena, _conf);
         }
         break;
       }
@@ -689,9 +685,10 @@ next:
   };
 
   template<class C>
-  typename PackedKDTree<C>::Node* PackedKDTree<C>::Node::splitInsert(
+  void PackedKDTree<C>::Node::splitInsert(
     const ExtEntry& extEntry,
     Child* childFromParent,
+    Node*& root,
     memt::Arena& arena,
     const C& conf
   ) {
@@ -709,15 +706,18 @@ next:
     // there is not room to add another child, so make a
     // new Node with more space and put the Node we are splitting
     // off into the vacated space. It will fit as it has no
-    // children at all.
+    // children at all. Allocate before rearranging the entries so that
+    // nothing has changed if there is not enough memory.
+    const size_t childCount = std::distance(childBegin(), childEnd()) + 1;
+    void* const memory = arena.alloc(sizeOf(childCount));
 
     typename KDEntryArray<C, ExtEntry>::iterator middle =
       KDEntryArray<C, ExtEntry>::split
       (entries().begin(), entries().end(), var, exp, conf, &extEntry);
 
     // ** copy relevant part of *this into new space
-    Node* copied = makeNode(entries().begin(), middle, arena, conf,
-      std::distance(childBegin(), childEnd()) + 1);
+    Node* copied = new (memory)
+      Node(entries().begin(), middle, arena, conf, childCount);
     std::copy(childBegin(), childEnd(), copied->childBegin());
     Child& newChild = *(copied->childEnd() - 1);
     newChild.var = var;
@@ -725,6 +725,9 @@ next:
     newChild.node = this;
     if (childFromParent != 0)
       childFromParent->node = copied;
+    else
+      root = copied;
+    _childrenEnd = childBegin();
     if (C::UseTreeDivMask) {
       newChild.resetDivMask();
       newChild.updateToLowerBound(entries());
@@ -741,7 +744,6 @@ next:
       std::sort(entries().begin(), entries().end(), Comparer<C>(conf));
     if (C::UseTreeDivMask)
       entries().recalculateTreeDivMask();
-    _childrenEnd = childBegin();
 
     if (copied->inChild(copied->childEnd() - 1, extEntry.get(), conf))
       entries().insert(extEntry, conf);
@@ -750,8 +752,6 @@ next:
 
     MATHIC_ASSERT(debugIsValid());
     MATHIC_ASSERT(copied->debugIsValid());
-
-    return copied;
   }
 
   template<class C>
-- 
2.43.0


From b2e5f786163121ce85c0e4a7346d5b4f02db2cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:34 +0000
Subject: [PATCH 22/56] fix: KDTree rebuild, range insert and clear lose
 nothing if they fail; clearing needs no memory

---
 src/mathic/BinaryKDTree.h | 122 +++++++++++++++++++++++++++++++-------
 src/mathic/KDTree.h       |  19 ++++--
 src/mathic/PackedKDTree.h | 112 ++++++++++++++++++++++++++++------
 3 files changed, 209 insertions(+), 44 deletions(-)

diff --git a/src/mathic/BinaryKDTree.h b/src/mathic/BinaryKDTree.h
index 0944a8c..1e25dc2 100755
--- a/src/mathic/BinaryKDTree.h
+++ b/src/mathic/BinaryKDTree.h
@@ -5,7 +5,10 @@
 #include "DivMask.h"
 #include "KDEntryArray.h"
 #include <memtailor.h>
+#include <algorithm>
+#include <memory>
 #include <ostream>
+#include <vector>
 
 namespace mathic {
   template<class C>
@@ -210,6 +213,8 @@ namespace mathic {
 
     void insert(const ExtEntry& entry);
 
+    /** Replaces the content with the entries in [begin, end), which may be
+        rearranged. The content does not change if there is an exception. */
     template<class Iter>
     void reset(Iter begin, Iter end, const DivMaskCalculator& calc);
 
@@ -241,6 +246,39 @@ namespace mathic {
     BinaryKDTree(const BinaryKDTree<C>&); // unavailable
     void operator=(const BinaryKDTree<C>&); // unavailable
   
+    /** Makes a tree of the entries in [begin, end), which must not be
+        empty, and returns the root of it. All memory for the tree is
+        taken from arena. Sets leafCount to the number of leaves. */
+    template<class Iter>
+    Node* makeTree(Iter begin, Iter end, const DivMaskCalculator& calc,
+      memt::Arena& arena, size_t& leafCount) const;
+
+    /** Makes sure that navigating a tree with leafCount leaves requires
+        no memory allocation. _tmp only ever contains nodes where no node is
+        an ancestor of another one. Clearing, and so also destruction, relies
+        on this to always succeed. */
+    void reserveTmp(size_t leafCount) const;
+
+    /// Destructs the entries of leaves that do not become part of a tree.
+    class LeafClearer {
+    public:
+      LeafClearer() {}
+      ~LeafClearer() {
+        for (size_t i = 0; i < _leaves.size(); ++i)
+          if (_leaves[i] != 0)
+            _leaves[i]->entries().clear();
+      }
+      /// Where to store a new leaf.
+      Leaf*& add() {_leaves.push_back(0); return _leaves.back();}
+      size_t size() const {return _leaves.size();}
+      void release() {_leaves.clear();}
+
+    private:
+      LeafClearer(const LeafClearer&); // unavailable
+      void operator=(const LeafClearer&); // unavailable
+      std::vector<Leaf*> _leaves;
+    };
+
     template<class Iter>
     struct InsertTodo {
       Iter begin;
@@ -259,15 +297,17 @@ namespace mathic {
       std::vector<Node*>& _tmp;
     };
 
-    memt::Arena _arena; // Everything permanent allocated from here.
+    // Everything permanent allocated from here.
+    std::unique_ptr<memt::Arena> _arena;
     C _conf; // User supplied configuration.
     mutable std::vector<Node*> _tmp; // For navigating the tree.
     Node* _root; // Root of the tree. Can be null!
+    size_t _leafCount; // At least the number of leaves in the tree.
   };
 
   template<class C>
   BinaryKDTree<C>::BinaryKDTree(const C& configuration):
-  _conf(configuration), _root(0) {
+  _arena(new memt::Arena()), _conf(configuration), _root(0), _leafCount(0) {
     MATHIC_ASSERT(C::LeafSize > 0);
     MATHIC_ASSERT(debugIsValid());
   }
@@ -326,8 +366,11 @@ namespace mathic {
   template<class C>
   void BinaryKDTree<C>::insert(const ExtEntry& extEntry) {
     Interior* parent = 0;
-    if (_root == 0)
-      _root = new (_arena.allocObjectNoCon<Leaf>()) Leaf(_arena, _conf);
+    if (_root == 0) {
+      reserveTmp(1);
+      _root = new (_arena->allocObjectNoCon<Leaf>()) Leaf(*_arena, _conf);
+      _leafCount = 1;
+    }
     Node* node = _root;
     while (node->isInterior()) {
       parent = &node->asInterior();
@@ -340,7 +383,9 @@ namespace mathic {
     MATHIC_ASSERT(leaf->entries().size() <= C::LeafSize);
     if (leaf->entries().size() == C::LeafSize) {
       MATHIC_ASSERT(parent != 0 || leaf == _root);
-      leaf->splitInsert(extEntry, parent, _root, _arena, _conf);
+      reserveTmp(_leafCount + 1);
+      ++_leafCount; // no problem if this ends up too high
+      leaf->splitInsert(extEntry, parent, _root, *_arena, _conf);
     } else {
       MATHIC_ASSERT(leaf->entries().size() < C::LeafSize);
       leaf->entries().insert(extEntry, _conf);
@@ -350,10 +395,33 @@ namespace mathic {
 
   template<class C>
   template<class Iter>
-  void BinaryKDTree<C>::reset(Iter insertBegin, Iter insertEnd, const DivMaskCalculator& calc) {
-    clear();
-    if (insertBegin == insertEnd)
+  void BinaryKDTree<C>::reset(Iter begin, Iter end, const DivMaskCalculator& calc) {
+    if (begin == end) {
+      clear();
       return;
+    }
+    std::unique_ptr<memt::Arena> arena(new memt::Arena());
+    size_t leafCount;
+    Node* const root = makeTree(begin, end, calc, *arena, leafCount);
+    clear();
+    _arena.swap(arena);
+    _root = root;
+    _leafCount = leafCount;
+    MATHIC_ASSERT(debugIsValid());
+  }
+
+  template<class C>
+  template<class Iter>
+  typename BinaryKDTree<C>::KDTreeNode* BinaryKDTree<C>::makeTree(
+    Iter insertBegin,
+    Iter insertEnd,
+    const DivMaskCalculator& calc,
+    memt::Arena& arena,
+    size_t& leafCount
+  ) const {
+    MATHIC_ASSERT(insertBegin != insertEnd);
+    LeafClearer leafClearer; // in case of an exception
+    Node* root = 0;
 
     typedef InsertTodo<Iter> Task;
     typedef std::vector<Task> TaskCont;
@@ -365,17 +433,19 @@ namespace mathic {
       Node* node = 0;
       const size_t insertCount = std::distance(insertBegin, insertEnd);
       const bool isLeaf = (insertCount <= C::LeafSize);
-      if (isLeaf)
-        node = new (_arena.allocObjectNoCon<Leaf>())
-          Leaf(insertBegin, insertEnd, _arena, calc, _conf);
-      else {
+      if (isLeaf) {
+        Leaf*& leaf = leafClearer.add();
+        leaf = new (arena.allocObjectNoCon<Leaf>())
+          Leaf(insertBegin, insertEnd, arena, calc, _conf);
+        node = leaf;
+      } else {
         size_t var =
           (parent == 0 ? static_cast<size_t>(-1) : parent->getVar());
 
         Exponent exp;
         Iter middle = KDEntryArray<C, ExtEntry>::
           split(insertBegin, insertEnd, var, exp, _conf);
-        Interior* interior = new (_arena.allocObjectNoCon<Interior>())
+        Interior* interior = new (arena.allocObjectNoCon<Interior>())
           Interior(var, exp);
 
         MATHIC_ASSERT(middle != insertBegin && middle != insertEnd);
@@ -391,8 +461,8 @@ namespace mathic {
       }
 
       if (parent == 0) {
-        MATHIC_ASSERT(_root == 0);
-        _root = node;
+        MATHIC_ASSERT(root == 0);
+        root = node;
       } else if (isEqualOrLessChild)
         parent->setEqualOrLess(node);
       else
@@ -415,14 +485,14 @@ namespace mathic {
         // continue with equal-or-less as next item      
       }
     }
-    MATHIC_ASSERT(_root != 0);
+    MATHIC_ASSERT(root != 0);
 
     if (C::UseTreeDivMask) {
       // record nodes in tree using breadth first search
       typedef std::vector<Interior*> NodeCont;
       NodeCont nodes;
-      if (_root->isInterior())
-        nodes.push_back(&_root->asInterior());
+      if (root->isInterior())
+        nodes.push_back(&root->asInterior());
       for (size_t i = 0; i < nodes.size(); ++i) {
         Interior* node = nodes[i];
         if (node->getEqualOrLess().isInterior())
@@ -439,7 +509,16 @@ namespace mathic {
         node->updateToLowerBound(node->getStrictlyGreater());
       }
     }
-    MATHIC_ASSERT(debugIsValid());
+    leafCount = leafClearer.size();
+    reserveTmp(leafCount);
+    leafClearer.release();
+    return root;
+  }
+
+  template<class C>
+  void BinaryKDTree<C>::reserveTmp(const size_t leafCount) const {
+    if (_tmp.capacity() < leafCount)
+      _tmp.reserve(std::max(leafCount, 2 * _tmp.capacity()));
   }
 
   template<class C>
@@ -598,13 +677,14 @@ next:
       MATHIC_ASSERT(node->isLeaf());
       node->asLeaf().entries().clear();
     }
-    _arena.freeAllAllocs();
+    _arena->freeAllAllocs();
     _root = 0;
+    _leafCount = 0;
   }
 
   template<class C>
   size_t BinaryKDTree<C>::getMemoryUse() const {
-	size_t sum = _arena.getMemoryUse();
+	size_t sum = sizeof(*_arena) + _arena->getMemoryUse();
 	sum += _tmp.capacity() * sizeof(_tmp.front());
 	return sum;
   }
diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index dcfa0b8..a1f1e79 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -171,8 +171,7 @@ namespace mathic {
         return;
       }
       // insert into empty container is equivalent to rebuild
-      _divMaskCalculator.rebuild(begin, end, getConfiguration());
-      _tree.reset(begin, end, _divMaskCalculator);
+      reset(begin, end);
       _size = std::distance(begin, end);
       resetNumberOfChangesTillRebuild();
     }
@@ -249,19 +248,17 @@ namespace mathic {
 
     /** Removes all entries. Does not reset the configuration object. */
     void clear() {
+      _divMaskCalculator.rebuildDefault(getConfiguration());
       _tree.clear();
       _size = 0;
       resetNumberOfChangesTillRebuild();
-      _divMaskCalculator.rebuildDefault(getConfiguration());
     }
 
     /** Rebuilds the data structure. */
     void rebuild() {
       EntryRecorder recorder(memt::Arena::getArena(), size());
       _tree.forAll(recorder);
-      _divMaskCalculator.rebuild
-        (recorder.begin(), recorder.end(), getConfiguration());
-      _tree.reset(recorder.begin(), recorder.end(), _divMaskCalculator);
+      reset(recorder.begin(), recorder.end());
       resetNumberOfChangesTillRebuild();
     }
 
@@ -309,6 +306,16 @@ namespace mathic {
       void push_back(Entry& e) {}
     };
 
+    /// Replaces the tree and the way to calculate div masks. Changes
+    /// neither if there is an exception, as the two have to match.
+    template<class Iter>
+    void reset(Iter begin, Iter end) {
+      typename Tree::DivMaskCalculator calculator(_divMaskCalculator);
+      calculator.rebuild(begin, end, getConfiguration());
+      _tree.reset(begin, end, calculator);
+      std::swap(_divMaskCalculator, calculator);
+    }
+
     void reportChanges(size_t additions, size_t removals);
     void resetNumberOfChangesTillRebuild();
     bool reportChangesRebuild(size_t additions, size_t removals);
diff --git a/src/mathic/PackedKDTree.h b/src/mathic/PackedKDTree.h
index 9793c6c..7496f78 100755
--- a/src/mathic/PackedKDTree.h
+++ b/src/mathic/PackedKDTree.h
@@ -5,7 +5,10 @@
 #include "DivMask.h"
 #include "KDEntryArray.h"
 #include <memtailor.h>
+#include <algorithm>
+#include <memory>
 #include <ostream>
+#include <vector>
 
 namespace mathic {
   template<class C>
@@ -124,6 +127,8 @@ namespace mathic {
 
     void insert(const ExtEntry& entry);
 
+    /** Replaces the content with the entries in [begin, end), which may be
+        rearranged. The content does not change if there is an exception. */
     template<class Iter>
     void reset(Iter begin, Iter end, const DivMaskCalculator& calc);
 
@@ -154,6 +159,39 @@ namespace mathic {
     PackedKDTree(const PackedKDTree<C>&); // unavailable
     void operator=(const PackedKDTree<C>&); // unavailable
   
+    /** Makes a tree of the entries in [begin, end), which must not be
+        empty, and returns the root of it. All memory for the tree is
+        taken from arena. Sets nodeCount to the number of nodes. */
+    template<class Iter>
+    Node* makeTree(Iter begin, Iter end, const DivMaskCalculator& calc,
+      memt::Arena& arena, size_t& nodeCount) const;
+
+    /** Makes sure that navigating a tree with nodeCount nodes requires
+        no memory allocation. _tmp only ever contains nodes where no node is
+        an ancestor of another one. Clearing, and so also destruction, relies
+        on this to always succeed. */
+    void reserveTmp(size_t nodeCount) const;
+
+    /// Destructs the entries of nodes that do not become part of a tree.
+    class NodeClearer {
+    public:
+      NodeClearer() {}
+      ~NodeClearer() {
+        for (size_t i = 0; i < _nodes.size(); ++i)
+          if (_nodes[i] != 0)
+            _nodes[i]->entries().clear();
+      }
+      /// Where to store a new node.
+      Node*& add() {_nodes.push_back(0); return _nodes.back();}
+      size_t size() const {return _nodes.size();}
+      void release() {_nodes.clear();}
+
+    private:
+      NodeClearer(const NodeClearer&); // unavailable
+      void operator=(const NodeClearer&); // unavailable
+      std::vector<Node*> _nodes;
+    };
+
     template<class Iter>
     struct InsertTodo {
       Iter begin;
@@ -174,15 +212,17 @@ namespace mathic {
       std::vector<Node*>& _tmp;
     };
 
-    memt::Arena _arena; // Everything permanent allocated from here.
+    // Everything permanent allocated from here.
+    std::unique_ptr<memt::Arena> _arena;
     C _conf; // User supplied configuration.
     mutable std::vector<Node*> _tmp; // For navigating the tree.
     Node* _root; // Root of the tree. Can be null!
+    size_t _nodeCount; // At least the number of nodes in the tree.
   };
 
   template<class C>
   PackedKDTree<C>::PackedKDTree(const C& configuration):
-  _conf(configuration), _root(0) {
+  _arena(new memt::Arena()), _conf(configuration), _root(0), _nodeCount(0) {
     MATHIC_ASSERT(C::LeafSize > 0);
     MATHIC_ASSERT(debugIsValid());
   }
@@ -279,8 +319,11 @@ stopped:;
     MATHIC_ASSERT(debugIsValid());
     // find node in which to insert extEntry
     typename Node::Child* parentChild = 0;
-    if (_root == 0)
-      _root = Node::makeNode(_arena, _conf);
+    if (_root == 0) {
+      reserveTmp(1);
+      _root = Node::makeNode(*_arena, _conf);
+      _nodeCount = 1;
+    }
     Node* node = _root;
     typename Node::iterator child = node->childBegin();
     while (true) {
@@ -290,7 +333,9 @@ stopped:;
           node->entries().insert(extEntry, _conf);
         else { // split full node
           MATHIC_ASSERT(parentChild != 0 || node == _root);
-          node->splitInsert(extEntry, parentChild, _root, _arena, _conf);
+          reserveTmp(_nodeCount + 1);
+          ++_nodeCount; // no problem if this ends up too high
+          node->splitInsert(extEntry, parentChild, _root, *_arena, _conf);
         }
         break;
       }
@@ -308,10 +353,33 @@ stopped:;
 
   template<class C>
   template<class Iter>
-  void PackedKDTree<C>::reset(Iter insertBegin, Iter insertEnd, const DivMaskCalculator& calc) {
-    clear();
-    if (insertBegin == insertEnd)
+  void PackedKDTree<C>::reset(Iter begin, Iter end, const DivMaskCalculator& calc) {
+    if (begin == end) {
+      clear();
       return;
+    }
+    std::unique_ptr<memt::Arena> arena(new memt::Arena());
+    size_t nodeCount;
+    Node* const root = makeTree(begin, end, calc, *arena, nodeCount);
+    clear();
+    _arena.swap(arena);
+    _root = root;
+    _nodeCount = nodeCount;
+    MATHIC_ASSERT(debugIsValid());
+  }
+
+  template<class C>
+  template<class Iter>
+  typename PackedKDTree<C>::Node* PackedKDTree<C>::makeTree(
+    Iter insertBegin,
+    Iter insertEnd,
+    const DivMaskCalculator& calc,
+    memt::Arena& arena,
+    size_t& nodeCount
+  ) const {
+    MATHIC_ASSERT(insertBegin != insertEnd);
+    NodeClearer nodeClearer; // in case of an exception
+    Node* root = 0;
 
     typedef InsertTodo<Iter> Task;
     typedef std::vector<Task> TaskCont;
@@ -351,10 +419,10 @@ stopped:;
         // now operate on the equal-or-less part of the range
         end = middle;
       }
-      Node* node = Node::makeNode
-        (begin, end, _arena, calc, _conf, children.size());
-      if (_root == 0)
-        _root = node;
+      Node*& node = nodeClearer.add();
+      node = Node::makeNode(begin, end, arena, calc, _conf, children.size());
+      if (root == 0)
+        root = node;
       if (fromParent != 0)
         fromParent->node = node;
       for (size_t child = 0; child < children.size(); ++child) {
@@ -363,13 +431,13 @@ stopped:;
       }
       children.clear();
     }
-    MATHIC_ASSERT(_root != 0);
+    MATHIC_ASSERT(root != 0);
 
     if (C::UseTreeDivMask) {
       // record nodes in tree using breadth first search
       typedef std::vector<Node*> NodeCont;
       NodeCont nodes;
-      nodes.push_back(_root);
+      nodes.push_back(root);
       for (size_t i = 0; i < nodes.size(); ++i) {
         Node* node = nodes[i];
         for (typename Node::iterator child = node->childBegin();
@@ -401,7 +469,16 @@ stopped:;
         MATHIC_ASSERT(node->debugIsValid());
       }
     }
-    MATHIC_ASSERT(debugIsValid());
+    nodeCount = nodeClearer.size();
+    reserveTmp(nodeCount);
+    nodeClearer.release();
+    return root;
+  }
+
+  template<class C>
+  void PackedKDTree<C>::reserveTmp(const size_t nodeCount) const {
+    if (_tmp.capacity() < nodeCount)
+      _tmp.reserve(std::max(nodeCount, 2 * _tmp.capacity()));
   }
 
   template<class C>
@@ -547,14 +624,15 @@ next:
         it != node->childEnd(); ++it)
         _tmp.push_back(it->node);
     }
-    _arena.freeAllAllocs();
+    _arena->freeAllAllocs();
     _root = 0;
+    _nodeCount = 0;
   }
 
   template<class C>
   size_t PackedKDTree<C>::getMemoryUse() const {
     // todo: not accurate
-	size_t sum = _arena.getMemoryUse();
+	size_t sum = sizeof(*_arena) + _arena->getMemoryUse();
 	sum += _tmp.capacity() * sizeof(_tmp.front());
 	return sum;
   }
-- 
2.43.0


From fa43bd670898bf3131a00050df059890fc8088ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:21 +0000
Subject: [PATCH 23/56] fix: a failing HashTable::insert has no effect, also if
 it fails while growing

---
 src/mathic/HashTable.h | 90 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 81 insertions(+), 9 deletions(-)

diff --git a/src/mathic/HashTable.h b/src/mathic/HashTable.h
index b0cde83..729606b 100755
--- a/src/mathic/HashTable.h
+++ b/src/mathic/HashTable.h
@@ -113,6 +113,12 @@ namespace mathic {
   private:
     Handle* makeNode(const Key &k, const Value &v);
 
+    // Destructs a node that is not in the table any more and reclaims its memory.
+    void destroyNode(Handle *p);
+
+    // Takes p out of bin number hashval. Returns false if it is not there.
+    bool unlink(Handle *p, size_t hashval);
+
     void grow(unsigned int nbits);
 
     // Used for consistency checking.  Returns the number of nodes in the table.
@@ -166,12 +172,43 @@ namespace mathic {
   template<class C>
   typename HashTable<C>::Handle *HashTable<C>::makeNode(const Key &k, const Value &v)
   {
-    mNodeCount++;
     void *buf = mNodePool.alloc();
-    Handle* result = new (buf) Handle(k,v);
+    Handle* result;
+    try
+      {
+	result = new (buf) Handle(k,v);
+      }
+    catch (...)
+      {
+	mNodePool.free(buf);
+	throw;
+      }
+    mNodeCount++;
     return result;
   }
 
+  template<class C>
+  void HashTable<C>::destroyNode(Handle *p)
+  {
+    p->~Handle();
+    mNodePool.free(p);
+    mNodeCount--;
+  }
+
+  template<class C>
+  bool HashTable<C>::unlink(Handle *p, size_t hashval)
+  {
+    for (Handle **q = &mHashTable[hashval]; *q != 0; q = &(*q)->next)
+      {
+	if (*q == p)
+	  {
+	    *q = p->next;
+	    return true;
+	  }
+      }
+    return false;
+  }
+
   template<class C>
   std::pair<bool, typename HashTable<C>::Handle *> HashTable<C>::insert(const Key &k, const Value &v) 
   {
@@ -214,7 +251,19 @@ namespace mathic {
       }
     
     if (mNodeCount > mMaxCountBeforeRebuild)
-      grow(static_cast<unsigned int>(mLogTableSize + 2));  // increase by a factor of 4??
+      {
+	try
+	  {
+	    grow(static_cast<unsigned int>(mLogTableSize + 2));  // increase by a factor of 4??
+	  }
+	catch (...)
+	  {
+	    // the table is as before the call to grow, so take the node out again
+	    unlink(result, hashval);
+	    destroyNode(result);
+	    throw;
+	  }
+      }
     
     MATHIC_ASSERT(computeNodeCount() == mNodeCount);
     return std::pair<bool, Handle *>(true,result);
@@ -265,23 +314,25 @@ namespace mathic {
   {
     MATHIC_ASSERT(computeNodeCount() == mNodeCount);
     size_t const old_table_size = mTableSize;
+    size_t const old_log_table_size = mLogTableSize;
+    std::vector<Handle *> old_table(static_cast<size_t>(1) << new_nbits);
     mTableSize = static_cast<size_t>(1) << new_nbits;
     mLogTableSize = new_nbits;
     mHashMask = mTableSize-1;
-    std::vector<Handle *> old_table(mTableSize);
     std::swap(old_table, mHashTable);
 
     mBinCount = 0;
+    try
+      {
     for (size_t i = 0; i < old_table_size; ++i)
       {
-	Handle *p = old_table[i];
-	while (p != 0)
+	while (old_table[i] != 0)
 	  {
-	    Handle *q = p;
-	    p = p->next;
-	    q->next = 0;
+	    Handle *q = old_table[i];
 	    // Reinsert node.  We know that it is unique
 	    size_t hashval = mConf.hash(q->key()) & mHashMask;
+	    old_table[i] = q->next;
+	    q->next = 0;
 	    Handle *r = mHashTable[hashval];
 	    if (r == 0) mBinCount++;
 	    if (r == 0 || !mAlwaysInsertAtEnd) 
@@ -297,6 +348,27 @@ namespace mathic {
 	      }
 	  }
       }
+      }
+    catch (...)
+      {
+	// hash() failed, so put the nodes moved so far back where they were
+	for (size_t i = 0; i < mTableSize; ++i)
+	  {
+	    while (mHashTable[i] != 0)
+	      {
+		Handle *q = mHashTable[i];
+		mHashTable[i] = q->next;
+		q->next = old_table[i & (old_table_size - 1)];
+		old_table[i & (old_table_size - 1)] = q;
+	      }
+	  }
+	std::swap(old_table, mHashTable);
+	mTableSize = old_table_size;
+	mLogTableSize = old_log_table_size;
+	mHashMask = mTableSize-1;
+	mBinCount = computeBinCount();
+	throw;
+      }
     
     mMaxCountBeforeRebuild =
       static_cast<size_t>(std::floor(mTableSize * mRebuildThreshold));
-- 
2.43.0


From b692ac71ac4bd025e3319a5374c24f866d8be012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:21 +0000
Subject: [PATCH 24/56] fix: HashTable::remove compiles and reclaims the node

---
 src/mathic/HashTable.h | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/mathic/HashTable.h b/src/mathic/HashTable.h
index 729606b..671b143 100755
--- a/src/mathic/HashTable.h
+++ b/src/mathic/HashTable.h
@@ -286,21 +286,13 @@ namespace mathic {
   template<class C>
   void HashTable<C>::remove(Handle *& p) 
   {
-    mNodeCount--;
-    size_t const hashval = mConf.hashvalue(p->key) & mHashMask;
-    Handle head;
-    Handle* tmpNode = mHashTable[hashval];
-    head.next = tmpNode;
-    for (Handle* q = &head; q->next != 0; q = q->next) 
+    size_t const hashval = mConf.hash(p->key()) & mHashMask;
+    if (unlink(p, hashval))
       {
-	if (q->next == p) 
-	  {
-	    q->next = p->next;
-	    mHashTable[hashval] = head.next;
-	    if (head.next == 0) mBinCount--;
-	    //TODO: call destructor for pair, then call 'free' with the mNodePool
-	    return;
-	  }
+	if (mHashTable[hashval] == 0) mBinCount--;
+	destroyNode(p);
+	p = 0;
+	return;
       }
     // If we get here, then the node is not at its supposed hash value.
     // That probably means either that the node has been deleted twice
-- 
2.43.0


From 894f523cf8d7227e1fd6f4fc3c58baa5e7fbbbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:38 +0000
Subject: [PATCH 25/56] fix: HashTable destructs its keys and values and
 hardReset exists

---
 src/mathic/HashTable.h | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/mathic/HashTable.h b/src/mathic/HashTable.h
index 671b143..6f9c838 100755
--- a/src/mathic/HashTable.h
+++ b/src/mathic/HashTable.h
@@ -77,7 +77,7 @@ namespace mathic {
     // Create a hash table
     HashTable(const Configuration &conf, unsigned int nbits = 10);
 
-    ~HashTable() {}
+    ~HashTable() {destroyAllNodes();}
 
     // Returns the stored configuration.
     Configuration& configuration() {return mConf;}
@@ -94,8 +94,8 @@ namespace mathic {
     // If not, then NULL is returned.
     Handle* lookup(const Key &k);
 
-    // remove 'p' from the hash table.  'p' itself is also removed.
-    // what about the entries in 'p'?  Are the destructors called?
+    // remove 'p' from the hash table.  'p' itself is also removed: its key and
+    // value are destructed and 'p' is set to NULL.
     void remove(Handle* & p);
 
     void reset(); // Major assumption: all nodes have been removed from the table already
@@ -116,6 +116,9 @@ namespace mathic {
     // Destructs a node that is not in the table any more and reclaims its memory.
     void destroyNode(Handle *p);
 
+    // Takes all nodes out of the table and destructs them.
+    void destroyAllNodes();
+
     // Takes p out of bin number hashval. Returns false if it is not there.
     bool unlink(Handle *p, size_t hashval);
 
@@ -169,6 +172,12 @@ namespace mathic {
     mNodePool.freeAllBuffers();
   }
 
+  template<class C>
+  void HashTable<C>::hardReset() {
+    destroyAllNodes();
+    mNodePool.freeAllBuffers();
+  }
+
   template<class C>
   typename HashTable<C>::Handle *HashTable<C>::makeNode(const Key &k, const Value &v)
   {
@@ -195,6 +204,21 @@ namespace mathic {
     mNodeCount--;
   }
 
+  template<class C>
+  void HashTable<C>::destroyAllNodes()
+  {
+    for (size_t i = 0; i < mTableSize; ++i)
+      {
+	while (mHashTable[i] != 0)
+	  {
+	    Handle *p = mHashTable[i];
+	    mHashTable[i] = p->next;
+	    destroyNode(p);
+	  }
+      }
+    mBinCount = 0;
+  }
+
   template<class C>
   bool HashTable<C>::unlink(Handle *p, size_t hashval)
   {
-- 
2.43.0


From fefca6075992c71882fd2ddbf4a2be1642e018e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:32 +0000
Subject: [PATCH 26/56] fix: BitTriangle::addColumn adds no column if it runs
 out of memory

---
 src/mathic/BitTriangle.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mathic/BitTriangle.h b/src/mathic/BitTriangle.h
index c29a4dc..730a482 100755
--- a/src/mathic/BitTriangle.h
+++ b/src/mathic/BitTriangle.h
@@ -33,7 +33,12 @@ namespace mathic {
 	void addColumn() {
 	  size_t const oldSize = mColumns.size();
 	  mColumns.resize(oldSize + 1);
-	  mColumns[oldSize].resize(oldSize);
+	  try {
+		mColumns[oldSize].resize(oldSize);
+	  } catch (...) {
+		mColumns.pop_back();
+		throw;
+	  }
 	}
 
 	// Returns the bit in the given column and row. As this is a triangle it
-- 
2.43.0


From bb8e2fb218198ed4aca6665942888bfac921ae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:21 +0000
Subject: [PATCH 27/56] fix: IntegerParameter keeps its value if it rejects an
 argument

---
 src/mathic/IntegerParameter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mathic/IntegerParameter.cpp b/src/mathic/IntegerParameter.cpp
index f17cf32..3a52079 100755
--- a/src/mathic/IntegerParameter.cpp
+++ b/src/mathic/IntegerParameter.cpp
@@ -24,13 +24,15 @@ namespace mathic {
 
   void IntegerParameter::processArgument(const std::string& argument) {
     std::istringstream in(argument);
-    in >> _value;
+    unsigned int newValue = 0;
+    in >> newValue;
     std::ostringstream out;
-    out << _value;
+    out << newValue;
     if (out.str() != argument) {
       reportError("The value given to option -" + name() + " was not "
         "as expected. It must be a non-negative integer in the range "
         "[0, 2^31-1].");
     }
+    _value = newValue;
   }
 }
-- 
2.43.0


From 974becc03a25d262d6f3341cfa6f26a87810693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:21 +0000
Subject: [PATCH 28/56] fix: define CliParser::registerHelpAction

---
 src/mathic/CliParser.cpp | 206 +++++++++++++++++++++------------------
 1 file changed, 109 insertions(+), 97 deletions(-)

diff --git a/src/mathic/CliParser.cpp b/src/mathic/CliParser.cpp
index e45b457..03a4678 100644
--- a/src/mathic/CliParser.cpp
+++ b/src/mathic/CliParser.cpp
@@ -1,97 +1,109 @@
-#include "CliParser.h"
-
-#include "error.h"
-#include "CliParameter.h"
-
-namespace mathic {
-  namespace {
-    // We are using a NameFactory just for its prefix-finding functionality, so
-    // we set the thing being created to be just void pointers that are null.
-    typedef void* Dummy;
-    typedef NameFactory<Dummy> ParamNames;
-    ParamNames makeParamNames(std::vector<CliParameter*> params) {
-      ParamNames names("option");
-      for (size_t i = 0; i < params.size(); ++i) {
-        const auto makeNull = [](){return std::unique_ptr<Dummy>();};
-        names.registerProduct(params[i]->name(), makeNull);
-      }
-      return names;
-    }
-  }
-
-  void CliParser::pushBackRegisteredActionNames(
-    std::vector<std::string>& names
-  ) const {
-    _actions.namesWithPrefix("", names);
-  }
-
-
-  CliParser::CliParser(): _actions("action") {}
-
-  std::unique_ptr<Action> CliParser::createActionWithPrefix(
-    const std::string& prefix
-  ) {
-    return createWithPrefix(_actions, prefix);
-  }
-
-  std::unique_ptr<Action> CliParser::parse(int argc, char** argv) {
-    std::vector<std::string> commandLine(argv, argv + argc);
-    return parse(commandLine);
-  }
-
-  std::unique_ptr<Action> CliParser::parse
-    (const std::vector<std::string>& commandLine) {
-    if (commandLine.empty())
-      throwError<UnknownNameException>("No action specified.");
-    std::unique_ptr<Action> action = createActionWithPrefix(commandLine[0]);
-
-    std::vector<CliParameter*> params;
-    action->pushBackParameters(params);
-    ParamNames paramNames = makeParamNames(params);
-
-    std::vector<std::string> options;
-    std::vector<std::string> directOptions;
-    bool sawDash = false;
-    for (size_t i = 1; i < commandLine.size(); ++i) {
-      if (commandLine[i].empty())
-        continue;
-      if (commandLine[i][0] == '-')
-        sawDash = true;
-      if (sawDash)
-        options.push_back(commandLine[i]);
-      else
-        directOptions.push_back(commandLine[i]);
-    }
-
-    action->directOptions(directOptions, *this);
-
-    size_t i = 1;
-    for (size_t i = 0; i < options.size(); ++i) {
-      std::string const& token = options[i];
-      if (token[0] != '-')
-        reportError("Expected an option when reading \"" +
-                    token + "\", but options start with a dash (-).\n");
-      std::string noDash(token.begin() + 1, token.end());
-      std::string name = uniqueNameWithPrefix(paramNames, noDash);
-
-      std::string optionArgument;
-      if (i + 1 < options.size() && options[i + 1][0] != '-') {
-        optionArgument = options[i + 1];
-        ++i;
-      }
-
-      for (std::vector<CliParameter*>::iterator it = params.begin();; ++it) {
-        if (it == params.end()) {
-          // shouldn't get here as name was recognized above
-          reportInternalError("Processing non-existent option \""
-            + name + "\".");
-        }
-        if ((*it)->name() == name) {
-          (*it)->processArgument(optionArgument);
-          break;
-        }
-      }
-    }
-    return action;
-  }
-}
+#include "CliParser.h"
+
+#include "error.h"
+#include "CliParameter.h"
+#include "HelpAction.h"
+
+namespace mathic {
+  namespace {
+    // We are using a NameFactory just for its prefix-finding functionality, so
+    // we set the thing being created to be just void pointers that are null.
+    typedef void* Dummy;
+    typedef NameFactory<Dummy> ParamNames;
+    ParamNames makeParamNames(std::vector<CliParameter*> params) {
+      ParamNames names("option");
+      for (size_t i = 0; i < params.size(); ++i) {
+        const auto makeNull = [](){return std::unique_ptr<Dummy>();};
+        names.registerProduct(params[i]->name(), makeNull);
+      }
+      return names;
+    }
+  }
+
+  void CliParser::pushBackRegisteredActionNames(
+    std::vector<std::string>& names
+  ) const {
+    _actions.namesWithPrefix("", names);
+  }
+
+
+  CliParser::CliParser(): _actions("action") {}
+
+  void CliParser::registerHelpAction(
+    const std::string& preMessage,
+    const std::string& postMessage
+  ) {
+    std::string pre(preMessage);
+    std::string post(postMessage);
+    registerAction<HelpAction>();
+    _helpPreMessage.swap(pre);
+    _helpPostMessage.swap(post);
+  }
+
+  std::unique_ptr<Action> CliParser::createActionWithPrefix(
+    const std::string& prefix
+  ) {
+    return createWithPrefix(_actions, prefix);
+  }
+
+  std::unique_ptr<Action> CliParser::parse(int argc, char** argv) {
+    std::vector<std::string> commandLine(argv, argv + argc);
+    return parse(commandLine);
+  }
+
+  std::unique_ptr<Action> CliParser::parse
+    (const std::vector<std::string>& commandLine) {
+    if (commandLine.empty())
+      throwError<UnknownNameException>("No action specified.");
+    std::unique_ptr<Action> action = createActionWithPrefix(commandLine[0]);
+
+    std::vector<CliParameter*> params;
+    action->pushBackParameters(params);
+    ParamNames paramNames = makeParamNames(params);
+
+    std::vector<std::string> options;
+    std::vector<std::string> directOptions;
+    bool sawDash = false;
+    for (size_t i = 1; i < commandLine.size(); ++i) {
+      if (commandLine[i].empty())
+        continue;
+      if (commandLine[i][0] == '-')
+        sawDash = true;
+      if (sawDash)
+        options.push_back(commandLine[i]);
+      else
+        directOptions.push_back(commandLine[i]);
+    }
+
+    action->directOptions(directOptions, *this);
+
+    size_t i = 1;
+    for (size_t i = 0; i < options.size(); ++i) {
+      std::string const& token = options[i];
+      if (token[0] != '-')
+        reportError("Expected an option when reading \"" +
+                    token + "\", but options start with a dash (-).\n");
+      std::string noDash(token.begin() + 1, token.end());
+      std::string name = uniqueNameWithPrefix(paramNames, noDash);
+
+      std::string optionArgument;
+      if (i + 1 < options.size() && options[i + 1][0] != '-') {
+        optionArgument = options[i + 1];
+        ++i;
+      }
+
+      for (std::vector<CliParameter*>::iterator it = params.begin();; ++it) {
+        if (it == params.end()) {
+          // shouldn't get here as name was recognized above
+          reportInternalError("Processing non-existent option \""
+            + name + "\".");
+        }
+        if ((*it)->name() == name) {
+          (*it)->processArgument(optionArgument);
+          break;
+        }
+      }
+    }
+    return action;
+  }
+}
-- 
2.43.0


From f71dcd5f38e8f524b2ead2bb051fb3abafb5628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:12 +0000
Subject: [PATCH 29/56] fix: restore the CRLF line endings of CliParser.cpp

---
 src/mathic/CliParser.cpp | 218 +++++++++++++++++++--------------------
 1 file changed, 109 insertions(+), 109 deletions(-)

diff --git a/src/mathic/CliParser.cpp b/src/mathic/CliParser.cpp
index 03a4678..d17d80b 100644
--- a/src/mathic/CliParser.cpp
+++ b/src/mathic/CliParser.cpp
@@ -1,109 +1,109 @@
-#include "CliParser.h"
-
-#include "error.h"
-#include "CliParameter.h"
-#include "HelpAction.h"
-
-namespace mathic {
-  namespace {
-    // We are using a NameFactory just for its prefix-finding functionality, so
-    // we set the thing being created to be just void pointers that are null.
-    typedef void* Dummy;
-    typedef NameFactory<Dummy> ParamNames;
-    ParamNames makeParamNames(std::vector<CliParameter*> params) {
-      ParamNames names("option");
-      for (size_t i = 0; i < params.size(); ++i) {
-        const auto makeNull = [](){return std::unique_ptr<Dummy>();};
-        names.registerProduct(params[i]->name(), makeNull);
-      }
-      return names;
-    }
-  }
-
-  void CliParser::pushBackRegisteredActionNames(
-    std::vector<std::string>& names
-  ) const {
-    _actions.namesWithPrefix("", names);
-  }
-
-
-  CliParser::CliParser(): _actions("action") {}
-
-  void CliParser::registerHelpAction(
-    const std::string& preMessage,
-    const std::string& postMessage
-  ) {
-    std::string pre(preMessage);
-    std::string post(postMessage);
-    registerAction<HelpAction>();
-    _helpPreMessage.swap(pre);
-    _helpPostMessage.swap(post);
-  }
-
-  std::unique_ptr<Action> CliParser::createActionWithPrefix(
-    const std::string& prefix
-  ) {
-    return createWithPrefix(_actions, prefix);
-  }
-
-  std::unique_ptr<Action> CliParser::parse(int argc, char** argv) {
-    std::vector<std::string> commandLine(argv, argv + argc);
-    return parse(commandLine);
-  }
-
-  std::unique_ptr<Action> CliParser::parse
-    (const std::vector<std::string>& commandLine) {
-    if (commandLine.empty())
-      throwError<UnknownNameException>("No action specified.");
-    std::unique_ptr<Action> action = createActionWithPrefix(commandLine[0]);
-
-    std::vector<CliParameter*> params;
-    action->pushBackParameters(params);
-    ParamNames paramNames = makeParamNames(params);
-
-    std::vector<std::string> options;
-    std::vector<std::string> directOptions;
-    bool sawDash = false;
-    for (size_t i = 1; i < commandLine.size(); ++i) {
-      if (commandLine[i].empty())
-        continue;
-      if (commandLine[i][0] == '-')
-        sawDash = true;
-      if (sawDash)
-        options.push_back(commandLine[i]);
-      else
-        directOptions.push_back(commandLine[i]);
-    }
-
-    action->directOptions(directOptions, *this);
-
-    size_t i = 1;
-    for (size_t i = 0; i < options.size(); ++i) {
-      std::string const& token = options[i];
-      if (token[0] != '-')
-        reportError("Expected an option when reading \"" +
-                    token + "\", but options start with a dash (-).\n");
-      std::string noDash(token.begin() + 1, token.end());
-      std::string name = uniqueNameWithPrefix(paramNames, noDash);
-
-      std::string optionArgument;
-      if (i + 1 < options.size() && options[i + 1][0] != '-') {
-        optionArgument = options[i + 1];
-        ++i;
-      }
-
-      for (std::vector<CliParameter*>::iterator it = params.begin();; ++it) {
-        if (it == params.end()) {
-          // shouldn't get here as name was recognized above
-          reportInternalError("Processing non-existent option \""
-            + name + "\".");
-        }
-        if ((*it)->name() == name) {
-          (*it)->processArgument(optionArgument);
-          break;
-        }
-      }
-    }
-    return action;
-  }
-}
+#include "CliParser.h"
+
+#include "error.h"
+#include "CliParameter.h"
+#include "HelpAction.h"
+
+namespace mathic {
+  namespace {
+    // We are using a NameFactory just for its prefix-finding functionality, so
+    // we set the thing being created to be just void pointers that are null.
+    typedef void* Dummy;
+    typedef NameFactory<Dummy> ParamNames;
+    ParamNames makeParamNames(std::vector<CliParameter*> params) {
+      ParamNames names("option");
+      for (size_t i = 0; i < params.size(); ++i) {
+        const auto makeNull = [](){return std::unique_ptr<Dummy>();};
+        names.registerProduct(params[i]->name(), makeNull);
+      }
+      return names;
+    }
+  }
+
+  void CliParser::pushBackRegisteredActionNames(
+    std::vector<std::string>& names
+  ) const {
+    _actions.namesWithPrefix("", names);
+  }
+
+
+  CliParser::CliParser(): _actions("action") {}
+
+  void CliParser::registerHelpAction(
+    const std::string& preMessage,
+    const std::string& postMessage
+  ) {
+    std::string pre(preMessage);
+    std::string post(postMessage);
+    registerAction<HelpAction>();
+    _helpPreMessage.swap(pre);
+    _helpPostMessage.swap(post);
+  }
+
+  std::unique_ptr<Action> CliParser::createActionWithPrefix(
+    const std::string& prefix
+  ) {
+    return createWithPrefix(_actions, prefix);
+  }
+
+  std::unique_ptr<Action> CliParser::parse(int argc, char** argv) {
+    std::vector<std::string> commandLine(argv, argv + argc);
+    return parse(commandLine);
+  }
+
+  std::unique_ptr<Action> CliParser::parse
+    (const std::vector<std::string>& commandLine) {
+    if (commandLine.empty())
+      throwError<UnknownNameException>("No action specified.");
+    std::unique_ptr<Action> action = createActionWithPrefix(commandLine[0]);
+
+    std::vector<CliParameter*> params;
+    action->pushBackParameters(params);
+    ParamNames paramNames = makeParamNames(params);
+
+    std::vector<std::string> options;
+    std::vector<std::string> directOptions;
+    bool sawDash = false;
+    for (size_t i = 1; i < commandLine.size(); ++i) {
+      if (commandLine[i].empty())
+        continue;
+      if (commandLine[i][0] == '-')
+        sawDash = true;
+      if (sawDash)
+        options.push_back(commandLine[i]);
+      else
+        directOptions.push_back(commandLine[i]);
+    }
+
+    action->directOptions(directOptions, *this);
+
+    size_t i = 1;
+    for (size_t i = 0; i < options.size(); ++i) {
+      std::string const& token = options[i];
+      if (token[0] != '-')
+        reportError("Expected an option when reading \"" +
+                    token + "\", but options start with a dash (-).\n");
+      std::string noDash(token.begin() + 1, token.end());
+      std::string name = uniqueNameWithPrefix(paramNames, noDash);
+
+      std::string optionArgument;
+      if (i + 1 < options.size() && options[i + 1][0] != '-') {
+        optionArgument = options[i + 1];
+        ++i;
+      }
+
+      for (std::vector<CliParameter*>::iterator it = params.begin();; ++it) {
+        if (it == params.end()) {
+          // shouldn't get here as name was recognized above
+          reportInternalError("Processing non-existent option \""
+            + name + "\".");
+        }
+        if ((*it)->name() == name) {
+          (*it)->processArgument(optionArgument);
+          break;
+        }
+      }
+    }
+    return action;
+  }
+}
-- 
2.43.0


From 46ed83e5c1800f2d82ebaed44f8fa2175037abc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:26 +0000
Subject: [PATCH 30/56] fix: copying a TourTree left the copy pointing into the
 original's entries

---
 src/mathic/TourTree.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/mathic/TourTree.h b/src/mathic/TourTree.h
index 31e126a..832d67b 100755
--- a/src/mathic/TourTree.h
+++ b/src/mathic/TourTree.h
@@ -4,6 +4,7 @@
 #include "stdinc.h"
 #include "ComTree.h"
 #include <string>
+#include <utility>
 #include <vector>
 
 namespace mathic {
@@ -19,6 +20,12 @@ namespace mathic {
 	typedef typename Configuration::Entry Entry;
 
 	TourTree(const Configuration& configuration);
+	TourTree(const TourTree& tree);
+	TourTree(TourTree&& tree):
+	  _tree(std::move(tree._tree)),
+	  _players(std::move(tree._players)),
+	  _conf(std::move(tree._conf)) {}
+
 	Configuration& getConfiguration() {return _conf;}
 	const Configuration& getConfiguration() const {return _conf;}
 
@@ -97,6 +104,18 @@ namespace mathic {
 	reallocate();
   }
 
+  template<class C>
+  TourTree<C>::TourTree(const TourTree& tree):
+	_tree(tree._tree, tree._tree.capacity()), _conf(tree._conf) {
+	_players.reserve(tree._players.capacity());
+	_players.insert
+	  (_players.end(), tree._players.begin(), tree._players.end());
+	// _tree has been copied with pointers into tree._players
+	for (Node pos; pos <= _tree.lastLeaf(); ++pos)
+	  _tree[pos] = &_players.front() + (tree._tree[pos] - &tree._players.front());
+	MATHIC_SLOW_ASSERT(isValid());
+  }
+
   template<class C>
 	std::string TourTree<C>::getName() const {
 	return std::string("t-tree (") +
-- 
2.43.0


From 7359652aa0b21d56c1a529524d2c40d74f260986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:26 +0000
Subject: [PATCH 31/56] fix: a copied or assigned StlSet kept using the other
 set's configuration

---
 src/mathic/StlSet.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mathic/StlSet.h b/src/mathic/StlSet.h
index 9f1609f..170c794 100755
--- a/src/mathic/StlSet.h
+++ b/src/mathic/StlSet.h
@@ -15,6 +15,17 @@ namespace mathic {
 
   StlSet(const Configuration& configuration):
     _conf(configuration), _set(Cmp(&_conf)) {}
+  // The entries must be compared using this object's own configuration.
+  StlSet(const StlSet& set):
+    _conf(set._conf), _set(set._set.begin(), set._set.end(), Cmp(&_conf)) {}
+	StlSet& operator=(const StlSet& set) {
+	  if (this != &set) {
+		_set.clear();
+		_conf = set._conf;
+		_set.insert(set._set.begin(), set._set.end());
+	  }
+	  return *this;
+	}
 	Configuration& getConfiguration() {return _conf;}
 	const Configuration& getConfiguration() const {return _conf;}
 
-- 
2.43.0


From 604010b699a47ce1d7193b1cd97659f763ddc43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:26 +0000
Subject: [PATCH 32/56] fix: ComTree counted an entry whose assignment threw as
 pushed

---
 src/mathic/ComTree.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mathic/ComTree.h b/src/mathic/ComTree.h
index 8f0f140..974914b 100755
--- a/src/mathic/ComTree.h
+++ b/src/mathic/ComTree.h
@@ -206,15 +206,17 @@ namespace mathic {
   void ComTree<E, FI>::pushBack(const E& value) {
     if (_lastLeaf == _capacityEnd)
       increaseCapacity();
+    // Assign before counting the entry in case the assignment throws.
+    (*this)[_lastLeaf.next()] = value;
     _lastLeaf = _lastLeaf.next();
-    (*this)[lastLeaf()] = value;
   }
 
   template<class E, bool FI>
   void ComTree<E, FI>::pushBackWithCapacity(const E& value) {
     MATHIC_ASSERT(_lastLeaf != _capacityEnd);
+    // Assign before counting the entry in case the assignment throws.
+    (*this)[_lastLeaf.next()] = value;
     _lastLeaf = _lastLeaf.next();
-    (*this)[lastLeaf()] = value;
   }
 
   template<class E, bool FI>
-- 
2.43.0


From 78eee853796b7ca7dc82f0fa829e38af9bf7416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:27 +0000
Subject: [PATCH 33/56] fix: copying a ComTree leaked memory when copying an
 entry threw

---
 src/mathic/ComTree.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mathic/ComTree.h b/src/mathic/ComTree.h
index 974914b..002ca5c 100755
--- a/src/mathic/ComTree.h
+++ b/src/mathic/ComTree.h
@@ -166,8 +166,13 @@ namespace mathic {
     if (minCapacity != 0) {
       _arrayKeepAlive = new E[minCapacity];
       _array = _arrayKeepAlive - 1;
-      for (Node i; i <= tree.lastLeaf(); ++i)
-        (*this)[i] = tree[i];
+      try {
+        for (Node i; i <= tree.lastLeaf(); ++i)
+          (*this)[i] = tree[i];
+      } catch (...) {
+        delete[] _arrayKeepAlive; // as there will be no destructor call
+        throw;
+      }
     }
     
     MATHIC_ASSERT(isValid());
-- 
2.43.0


From 1a6cc493d79e3c768a5993c8f4240eeace4ac597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:18 +0000
Subject: [PATCH 34/56] fix: withSIPrefix and bytesInUnit looked for a unit
 beyond tera

---
 src/mathic/ColumnPrinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathic/ColumnPrinter.cpp b/src/mathic/ColumnPrinter.cpp
index a20e3ef..053d4ac 100755
--- a/src/mathic/ColumnPrinter.cpp
+++ b/src/mathic/ColumnPrinter.cpp
@@ -242,7 +242,7 @@ namespace mathic {
 	  size_t i = 0;
       // the stop condition is at 999.5 because that value will get
       // rounded to 1000.0.
-	  for (i = 0; i < unitCount && amount >= 999.95; ++i)
+	  for (i = 0; i + 1 < unitCount && amount >= 999.95; ++i)
         amount /= 1000.0;
 	  out << oneDecimal(amount) << units[i];
     }
@@ -260,7 +260,7 @@ namespace mathic {
 	  size_t i = 0;
       // the stop condition is 1023.95 because that value will get
       // rounded to 1024.0.
-	  for (i = 0; i < unitCount && amount >= 1023.95; ++i)
+	  for (i = 0; i + 1 < unitCount && amount >= 1023.95; ++i)
         amount /= 1024.0;
 	  out << oneDecimal(amount) << units[i];
     }
-- 
2.43.0


From 971d9a9fe0a7805b5ff0f0026f8765c5e8362b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:18 +0000
Subject: [PATCH 35/56] fix: percentInteger overflowed for large numerators

---
 src/mathic/ColumnPrinter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mathic/ColumnPrinter.cpp b/src/mathic/ColumnPrinter.cpp
index 053d4ac..3f1c332 100755
--- a/src/mathic/ColumnPrinter.cpp
+++ b/src/mathic/ColumnPrinter.cpp
@@ -174,7 +174,10 @@ namespace mathic {
     const unsigned long long numerator,
     const unsigned long long denominator
   ) {
-    return ratioInteger(numerator * 100, denominator) + '%';
+    if (denominator == 0)
+      return ratioInteger(numerator, denominator) + '%';
+    // converted to double first as numerator * 100 can overflow
+    return oneDecimal(static_cast<double>(numerator) * 100 / denominator) + '%';
   }
 
   std::string ColumnPrinter::percentDouble(
-- 
2.43.0


From 0145e5e3b351a6d5f93cad029cc2fd718f3c5375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:18 +0000
Subject: [PATCH 36/56] fix: number formatting returned truncated text when out
 of memory

---
 src/mathic/ColumnPrinter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mathic/ColumnPrinter.cpp b/src/mathic/ColumnPrinter.cpp
index 3f1c332..6135829 100755
--- a/src/mathic/ColumnPrinter.cpp
+++ b/src/mathic/ColumnPrinter.cpp
@@ -159,6 +159,7 @@ namespace mathic {
 
   std::string ColumnPrinter::commafy(const unsigned long long l) {
     std::stringstream out;
+    out.exceptions(std::ios_base::badbit); // out of memory is an error
     out << l;
     const auto uncomma = out.str();
     std::string str;
@@ -229,6 +230,7 @@ namespace mathic {
 
   std::string ColumnPrinter::oneDecimal(const double d) {
     std::ostringstream out;
+    out.exceptions(std::ios_base::badbit); // out of memory is an error
     unsigned long long l = static_cast<unsigned long long>(d * 10 + 0.5);
     out << l / 10 << '.' << l % 10;
 	return out.str();
@@ -236,6 +238,7 @@ namespace mathic {
 
   std::string ColumnPrinter::withSIPrefix(unsigned long long l) {
 	std::ostringstream out;
+	out.exceptions(std::ios_base::badbit); // out of memory is an error
 	if (l < 1000)
       out << l;
     else {
@@ -254,6 +257,7 @@ namespace mathic {
 
   std::string ColumnPrinter::bytesInUnit(const unsigned long long bytes) {
 	std::ostringstream out;
+	out.exceptions(std::ios_base::badbit); // out of memory is an error
 	if (bytes < 1024)
 	  out << bytes << 'B';
     else {
-- 
2.43.0


From daec00ffa315c0f8b2894f43d37d169be21df81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:11 +0000
Subject: [PATCH 37/56] fix: help was truncated and integers rejected or shown
 as empty when out of memory

---
 src/mathic/HelpAction.cpp       | 4 ++++
 src/mathic/IntegerParameter.cpp | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/mathic/HelpAction.cpp b/src/mathic/HelpAction.cpp
index 2f3492d..57eef0d 100755
--- a/src/mathic/HelpAction.cpp
+++ b/src/mathic/HelpAction.cpp
@@ -52,6 +52,7 @@ namespace mathic {
 
   void HelpAction::displayActionHelp(Action& action) {
     std::ostringstream out;
+    out.exceptions(std::ios_base::badbit); // out of memory is an error
     out << "Displaying information on action: " << action.name() << "\n\n";
     out << action.description() << "\n";
 
@@ -84,12 +85,15 @@ namespace mathic {
     }
 
     std::ostringstream out;
+    out.exceptions(std::ios_base::badbit); // out of memory is an error
 
     out << _parser->helpPreMessage() << '\n';
 
     ColumnPrinter printer;
     printer.addColumn(false, " ");
     printer.addColumn(true, " - ");
+    printer[0].exceptions(std::ios_base::badbit);
+    printer[1].exceptions(std::ios_base::badbit);
 
     std::vector<std::string> names;
     _parser->pushBackRegisteredActionNames(names);
diff --git a/src/mathic/IntegerParameter.cpp b/src/mathic/IntegerParameter.cpp
index 3a52079..2cbda0c 100755
--- a/src/mathic/IntegerParameter.cpp
+++ b/src/mathic/IntegerParameter.cpp
@@ -18,6 +18,7 @@ namespace mathic {
 
   std::string IntegerParameter::valueAsString() const {
     std::ostringstream out;
+    out.exceptions(std::ios_base::badbit); // out of memory is an error
     out << value();
     return out.str();
   }
@@ -27,6 +28,7 @@ namespace mathic {
     unsigned int newValue = 0;
     in >> newValue;
     std::ostringstream out;
+    out.exceptions(std::ios_base::badbit); // out of memory is an error
     out << newValue;
     if (out.str() != argument) {
       reportError("The value given to option -" + name() + " was not "
-- 
2.43.0


From b91bdd4487f641d467059981759971f7aed0969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:17 +0000
Subject: [PATCH 38/56] fix: internal error reports were truncated when out of
 memory

---
 src/mathic/error.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mathic/error.cpp b/src/mathic/error.cpp
index 3f388a8..b8bfb95 100755
--- a/src/mathic/error.cpp
+++ b/src/mathic/error.cpp
@@ -14,6 +14,7 @@ namespace mathic {
   (const std::string& errorMsg, const char* file, unsigned int lineNumber) {
 
     std::ostringstream err;
+    err.exceptions(std::ios_base::badbit); // out of memory is an error
     err << errorMsg << '\n'
         << "The internal error occured in file " << file
         << " on line " << lineNumber << '.';
-- 
2.43.0


From f2dd3534535bfc32483df06ee51fefb9141f3d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:36 +0000
Subject: [PATCH 39/56] fix: HashTable reset and hardReset made the table hold
 ever more memory

---
 src/mathic/HashTable.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mathic/HashTable.h b/src/mathic/HashTable.h
index 6f9c838..cc96384 100755
--- a/src/mathic/HashTable.h
+++ b/src/mathic/HashTable.h
@@ -169,13 +169,15 @@ namespace mathic {
   
   template<class C>
   void HashTable<C>::reset() {
-    mNodePool.freeAllBuffers();
+    // freeAllBuffers would not do: it does not let the current block of the
+    // pool be used again, so the pool would get ever larger.
+    mNodePool.freeAllBuffersAndBackingMemory();
   }
 
   template<class C>
   void HashTable<C>::hardReset() {
     destroyAllNodes();
-    mNodePool.freeAllBuffers();
+    mNodePool.freeAllBuffersAndBackingMemory();
   }
 
   template<class C>
-- 
2.43.0


From f2fe5e525186fdec45b9ee704917734b0248e4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:12 +0000
Subject: [PATCH 40/56] fix: ComTree::pushBack of an entry of the tree itself
 read freed memory when growing

---
 src/mathic/ComTree.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mathic/ComTree.h b/src/mathic/ComTree.h
index 002ca5c..61c8a54 100755
--- a/src/mathic/ComTree.h
+++ b/src/mathic/ComTree.h
@@ -209,11 +209,12 @@ namespace mathic {
 
   template<class E, bool FI>
   void ComTree<E, FI>::pushBack(const E& value) {
-    if (_lastLeaf == _capacityEnd)
+    if (_lastLeaf == _capacityEnd) {
+      const E copy(value); // value could be an entry of this tree
       increaseCapacity();
-    // Assign before counting the entry in case the assignment throws.
-    (*this)[_lastLeaf.next()] = value;
-    _lastLeaf = _lastLeaf.next();
+      pushBackWithCapacity(copy);
+    } else
+      pushBackWithCapacity(value);
   }
 
   template<class E, bool FI>
-- 
2.43.0


From 811b639d3440810b2bdb37f063b43392057813d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 41/56] fix: pqsim divided by zero for spans of length 1

---
 src/pqsim/Simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pqsim/Simulator.cpp b/src/pqsim/Simulator.cpp
index 8ff8c10..5497312 100755
--- a/src/pqsim/Simulator.cpp
+++ b/src/pqsim/Simulator.cpp
@@ -159,7 +159,7 @@ void Simulator::dupSpans
 
     if (doPush) {
       const size_t size =
-        avgSpan - spanDeviation + rand() % (2 * spanDeviation);
+        avgSpan - spanDeviation + rand() % (2 * spanDeviation + 1);
       sim.beginPush();
       for (size_t i = 0; i < size; ++i) {
         if (!sim.noLive() &&
-- 
2.43.0


From 68ebef33678cf28bdb88d1fcc8e980a5c345f1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 42/56] fix: pqsim kept pushing after the requested number of
 elements

---
 src/pqsim/Simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pqsim/Simulator.cpp b/src/pqsim/Simulator.cpp
index 5497312..4916e8b 100755
--- a/src/pqsim/Simulator.cpp
+++ b/src/pqsim/Simulator.cpp
@@ -152,7 +152,7 @@ void Simulator::dupSpans
 
   while (sim.getPushSum() < pushSumGoal || !sim.noLive()) {
     bool doPush = (sim.getAvgLiveCount() < avgLiveGoal);
-    if (sim.getPushSum() == pushSumGoal)
+    if (sim.getPushSum() >= pushSumGoal)
       doPush = false;
     else if (sim.noLive())
       doPush = true;
-- 
2.43.0


From 9404822a4d0e69bf77a31becd9704fb9767ba81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 43/56] fix: pqsim made duplicates when 0 percent were asked
 for

---
 src/pqsim/Simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pqsim/Simulator.cpp b/src/pqsim/Simulator.cpp
index 4916e8b..7768031 100755
--- a/src/pqsim/Simulator.cpp
+++ b/src/pqsim/Simulator.cpp
@@ -163,7 +163,7 @@ void Simulator::dupSpans
       sim.beginPush();
       for (size_t i = 0; i < size; ++i) {
         if (!sim.noLive() &&
-          static_cast<size_t>(rand() % 100) <= dupPercentage) {
+          static_cast<size_t>(rand() % 100) < dupPercentage) {
           Value v;
           size_t tries = 0;
           // if there are only fewer elements to duplicate than there
-- 
2.43.0


From 24c25a6ff8c41b68813a99f616cdc8d492629e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 44/56] fix: randomSpans expected duplicates to be popped one
 at a time

---
 src/pqsim/Simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pqsim/Simulator.cpp b/src/pqsim/Simulator.cpp
index 7768031..4940fe5 100755
--- a/src/pqsim/Simulator.cpp
+++ b/src/pqsim/Simulator.cpp
@@ -223,7 +223,7 @@ void Simulator::orderSpans
 }
 
 void Simulator::randomSpans(size_t spanCount, size_t spanSize, size_t initialSize) {
-  SimBuilder sim(false, _mem, _events);
+  SimBuilder sim(true, _mem, _events); // as models pop all duplicates at once
   while (sim.getLiveCount() || sim.getPushCount() < spanCount) {
     bool doPop = rand() % (spanSize + 1) != 0;
     if (sim.getLiveCount() == 0)
-- 
2.43.0


From 70df00896e88b69c1fa8b83d74190391e8d38dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:03 +0000
Subject: [PATCH 45/56] fix: names of containers were cut short when memory ran
 out

---
 src/mathic/DivList.h   | 1 +
 src/mathic/Geobucket.h | 1 +
 src/mathic/KDTree.h    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index 4918cc8..c911369 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -564,6 +564,7 @@ namespace mathic {
   template<class C>
   std::string DivList<C>::getName() const {
     std::ostringstream out;
+    out.exceptions(std::ios_base::badbit); // out of memory is an error
     out <<"DivList"
         << (UseLinkedList ? " linked" : " array");
     if (UseDivMask && _conf.getDoAutomaticRebuilds()) {
diff --git a/src/mathic/Geobucket.h b/src/mathic/Geobucket.h
index 8357be3..af9c052 100755
--- a/src/mathic/Geobucket.h
+++ b/src/mathic/Geobucket.h
@@ -325,6 +325,7 @@ namespace mathic {
   template<class C>
 	std::string Geobucket<C>::getName() const {
 	std::ostringstream out;
+	out.exceptions(std::ios_base::badbit); // out of memory is an error
 	out << "Geobucket("
 		<< 'b' << _conf.geoBase
 		<< 'm' << _conf.minBucketSize
diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index a1f1e79..2a9748f 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -332,6 +332,7 @@ namespace mathic {
   template<class C>
   std::string KDTree<C>::getName() const {
     std::stringstream out;
+    out.exceptions(std::ios_base::badbit); // out of memory is an error
     const C& conf = getConfiguration();
     out << "KDTree(" << (C::PackedTree ? "packed" : "binary") << ')';
     out << " leaf:" << C::LeafSize;
-- 
2.43.0


From f9fea636d5a7bd4e41963421b5d118b61821aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:52 +0000
Subject: [PATCH 46/56] fix: divsim made one insertion too many and one query
 too few

---
 src/divsim/Simulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/divsim/Simulation.cpp b/src/divsim/Simulation.cpp
index 49ca2f9..0373a19 100755
--- a/src/divsim/Simulation.cpp
+++ b/src/divsim/Simulation.cpp
@@ -27,7 +27,7 @@ void Simulation::makeStandard
     Event event;
     event._monomial.resize(varCount);
     makeRandom(event._monomial);
-    event._type = (i <= inserts ? InsertUnknown : QueryUnknown);
+    event._type = (i < inserts ? InsertUnknown : QueryUnknown);
     _events.push_back(event);
   }
 }
-- 
2.43.0


From 177c30c51bb1e229983d25f211b66c52719139d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:59 +0000
Subject: [PATCH 47/56] fix: DivList::getMemoryUse did not compile for linked
 lists

---
 src/mathic/DivList.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index c911369..27382ae 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -328,6 +328,16 @@ namespace mathic {
       std::sort(list.begin(), list.end(), Comparer<C>(conf));
     }
 
+    template<class E>
+    size_t getMemoryUse(const std::vector<E>& list) {
+      return list.capacity() * sizeof(E);
+    }
+
+    template<class E>
+    size_t getMemoryUse(const std::list<E>& list) {
+      return list.size() * (sizeof(E) + 2 * sizeof(void*));
+    }
+
     template<class C, class E, class M>
       typename std::vector<E>::iterator
       findDivisorSorted(C& conf, std::vector<E>& list, const M& monomial) {
@@ -632,7 +642,7 @@ namespace mathic {
 
   template<class C>
   size_t DivList<C>::getMemoryUse() const {
-	return _list.capacity() * sizeof(_list.front());
+	return DivListHelper::getMemoryUse(_list);
   }
 }
 
-- 
2.43.0


From 49aca4209c59de586f81f4f3c68cc1cd2eb46667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:58 +0000
Subject: [PATCH 48/56] fix: PairQueue debug check destructs pair data as the
 pair it was made for

---
 src/mathic/PairQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index 7be913b..fd0beef 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -422,7 +422,7 @@ namespace mathic {
 		  (!conf.cmpLessThan(conf.compare(col, *prevIt, *prevPd,
 										  col, *it, *currentPd)));
 		PairQueueNamespace::
-		  destructPairData(currentPd.get(), col, *prevIt, conf);
+		  destructPairData(currentPd.get(), col, *it, conf);
 		PairQueueNamespace::destructPairData(prevPd.get(), col, *prevIt, conf);
 	  }
 	}
-- 
2.43.0


From 7631ea8087b1ffdaebfeab36df4d95f2c9308cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:27 +0000
Subject: [PATCH 49/56] fix: clearing a queue after an exception does not fail
 its own assertions

---
 src/mathic/Geobucket.h | 1 -
 src/mathic/Heap.h      | 1 -
 src/mathic/TourTree.h  | 1 -
 3 files changed, 3 deletions(-)

diff --git a/src/mathic/Geobucket.h b/src/mathic/Geobucket.h
index af9c052..1f142d9 100755
--- a/src/mathic/Geobucket.h
+++ b/src/mathic/Geobucket.h
@@ -436,7 +436,6 @@ namespace mathic {
 
   template<class C>
   void Geobucket<C>::clear() {
-	MATHIC_ASSERT(isValid());
     _entryCount = 0;
     _front.clear();
     for (Bucket* bucket = _bucketBegin; bucket != _bucketEnd; ++bucket) {
diff --git a/src/mathic/Heap.h b/src/mathic/Heap.h
index 9018b60..ade9a28 100755
--- a/src/mathic/Heap.h
+++ b/src/mathic/Heap.h
@@ -116,7 +116,6 @@ namespace mathic {
 
   template<class C>
   void Heap<C>::clear() {
-	MATHIC_ASSERT(isValid());
     _tree.clear();
 	MATHIC_ASSERT(isValid());
   }
diff --git a/src/mathic/TourTree.h b/src/mathic/TourTree.h
index 832d67b..b266535 100755
--- a/src/mathic/TourTree.h
+++ b/src/mathic/TourTree.h
@@ -87,7 +87,6 @@ namespace mathic {
 
   template<class C>
   void TourTree<C>::clear() {
-	MATHIC_ASSERT(isValid());
     _tree.clear();
     _players.clear();
 	MATHIC_ASSERT(isValid());
-- 
2.43.0


From 8137fba2476093780f05d1ba3a512c06637ca2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:31 +0000
Subject: [PATCH 50/56] fix: DivList::removeElement counts as a change that can
 lead to an automatic rebuild

---
 src/mathic/DivList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index 27382ae..6053622 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -475,6 +475,7 @@ namespace mathic {
         }
       }
       _list.erase(it);
+      reportChanges(1);
       return true;
     skip:;
     }
-- 
2.43.0


From eb2a08153b9e3d41e36fd6f5a7acbe951ede2e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:38 +0000
Subject: [PATCH 51/56] fix: the div mask bits of a variable do not depend on
 the exponents of the first variable

---
 src/mathic/DivMask.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathic/DivMask.h b/src/mathic/DivMask.h
index 2b35f53..8049ff2 100644
--- a/src/mathic/DivMask.h
+++ b/src/mathic/DivMask.h
@@ -219,7 +219,7 @@ namespace mathic {
     // ** Determine information about each variable
     std::vector<VarData> datas;
     for (size_t var = 0; var < varCount; ++var) {
-      Exponent min = conf.getExponent(*begin, 0);
+      Exponent min = conf.getExponent(*begin, var);
       Exponent max = min;
       for (Iter it = begin; it != end; ++it) {
         Exponent exp = conf.getExponent(*it, var);
@@ -287,7 +287,7 @@ namespace mathic {
             break;
         }
       } else {
-        Exponent min = conf.getExponent(*begin, 0);
+        Exponent min = conf.getExponent(*begin, var);
         Exponent max = min;
         for (Iter it = begin; it != end; ++it) {
           Exponent exp = conf.getExponent(*it, var);
-- 
2.43.0


From c4fa243b86796fab2f1247361ae7ddf9bd1ce3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:37 +0000
Subject: [PATCH 52/56] fix: PairQueue::getMemoryUse counts the flags of
 retired indexes

---
 src/mathic/PairQueue.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index fd0beef..eb333af 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -173,6 +173,10 @@ namespace mathic {
 		return reinterpret_cast<const bool&>(mRetired[index]);
 	  }
 
+	  size_t getMemoryUse() const {
+		return mRetired.capacity() * sizeof(mRetired.front());
+	  }
+
 	private:
       // using char in place of bool to avoid the slow specialization
       // for std::vector<bool>
@@ -192,6 +196,8 @@ namespace mathic {
 	  bool retired(size_t index) const {
 		return false;
 	  }
+
+	  size_t getMemoryUse() const {return 0;}
 	};
   }
 
@@ -626,7 +632,8 @@ namespace mathic {
 
   template<class C>
   size_t PairQueue<C>::getMemoryUse() const {
-	return mArena.getMemoryUse() + mColumnQueue.getMemoryUse();
+	return mArena.getMemoryUse() + mColumnQueue.getMemoryUse() +
+	  Retirer::getMemoryUse();
   }
 
   template<class C>
-- 
2.43.0


From 7526acecd5aa29617ecdde42be6a788426dd83a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:06 +0000
Subject: [PATCH 53/56] fix: align the memory that KDEntryArray constructs
 entries in

---
 src/mathic/KDEntryArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathic/KDEntryArray.h b/src/mathic/KDEntryArray.h
index 068c4ea..f682dfd 100755
--- a/src/mathic/KDEntryArray.h
+++ b/src/mathic/KDEntryArray.h
@@ -120,7 +120,7 @@ namespace mathic {
 
     /** This is the memory for the entries. It is kept as a raw char*
      to avoid constructing all the entries right away. */
-    char _beginMemory[C::LeafSize * sizeof(ExtEntry)];
+    alignas(ExtEntry) char _beginMemory[C::LeafSize * sizeof(ExtEntry)];
     iterator _end; // points into _beginMemory
 #ifdef MATHIC_DEBUG
     const bool _sortOnInsertDebug;
-- 
2.43.0


From e9b41303b4b7e7232044c7102d8e3c8478d97465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:06 +0000
Subject: [PATCH 54/56] fix: do not overflow exponents when choosing the bits
 of a div mask

---
 src/mathic/DivMask.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/mathic/DivMask.h b/src/mathic/DivMask.h
index 8049ff2..4e2590a 100644
--- a/src/mathic/DivMask.h
+++ b/src/mathic/DivMask.h
@@ -5,6 +5,7 @@
 #include <vector>
 #include <utility>
 #include <algorithm>
+#include <limits>
 
 // Value x means do 2^x mask checks before printing stats
 //#define MATHIC_TRACK_DIV_MASK_HIT_RATIO 25
@@ -303,9 +304,14 @@ namespace mathic {
         Exponent increment = (max - min) / static_cast<Exponent>(bitsForVar); // todo: can avoid cast?
         if (increment == 0)
           increment = 1;
-        for (size_t i = 0; i < bitsForVar; ++i)
-          bits.push_back(std::make_pair(var, min + increment * static_cast<Exponent>(i)));
-           // todo: can avoid cast?
+        Exponent point = min;
+        for (size_t i = 0; i < bitsForVar; ++i) {
+          bits.push_back(std::make_pair(var, point));
+          // stay at the last point that an Exponent can represent
+          if (!std::numeric_limits<Exponent>::is_specialized ||
+            point <= std::numeric_limits<Exponent>::max() - increment)
+            point = point + increment;
+        }
       }
     }
     _bits.swap(bits);
@@ -323,7 +329,8 @@ namespace mathic {
       Exponent exp = 0;
       for (size_t i = 0; i < bitsForVar; ++i) {
         bits.push_back(std::make_pair(var, exp));
-        exp = (i == 0 ? 1 : exp * 2);
+        if (i + 1 < bitsForVar) // one more doubling could overflow
+          exp = (i == 0 ? 1 : exp * 2);
       }
     }
     _bits.swap(bits);
-- 
2.43.0


From f4634dd0cbfd1688c8aa7294a9aadd6bae77e653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:06 +0000
Subject: [PATCH 55/56] fix: a rebuild ratio too large for a number of changes
 means never rebuilding

---
 src/mathic/DivList.h | 7 ++++++-
 src/mathic/KDTree.h  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index 6053622..1acc173 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -4,6 +4,7 @@
 #include "stdinc.h"
 #include "DivMask.h"
 #include "Comparer.h"
+#include <limits>
 #include <memtailor.h>
 #include <vector>
 #include <string>
@@ -624,8 +625,12 @@ namespace mathic {
     if (!_conf.getDoAutomaticRebuilds())
       return;
     MATHIC_ASSERT(_conf.getRebuildRatio() > 0);
+    // a number of changes that is too large for size_t is as good as never
+    const size_t never = std::numeric_limits<size_t>::max();
+    const double changes = size() * _conf.getRebuildRatio();
     _changesTillRebuild = std::max
-      (static_cast<size_t>(size() * _conf.getRebuildRatio()),
+      (changes < static_cast<double>(never) ?
+        static_cast<size_t>(changes) : never,
        _conf.getRebuildMin());
   }
 
diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 2a9748f..f5136e4 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -5,6 +5,7 @@
 #include "DivMask.h"
 #include "BinaryKDTree.h"
 #include "PackedKDTree.h"
+#include <limits>
 #include <memtailor.h>
 #include <list>
 #include <string>
@@ -356,8 +357,12 @@ namespace mathic {
     if (!conf.getDoAutomaticRebuilds())
       return;
     MATHIC_ASSERT(conf.getRebuildRatio() > 0);
+    // a number of changes that is too large for size_t is as good as never
+    const size_t never = std::numeric_limits<size_t>::max();
+    const double changes = size() * conf.getRebuildRatio();
     _changesTillRebuild = std::max
-      (static_cast<size_t>(size() * conf.getRebuildRatio()),
+      (changes < static_cast<double>(never) ?
+        static_cast<size_t>(changes) : never,
        conf.getRebuildMin());
   }
 
-- 
2.43.0


From b4de3c8a09810d886ff232f18831cbe953731836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:53 +0000
Subject: [PATCH 56/56] fix: the statistics of div masks compile again
 (MATHIC_TRACK_DIV_MASK_HIT_RATIO)

---
 src/mathic/DivMask.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mathic/DivMask.h b/src/mathic/DivMask.h
index 4e2590a..7700973 100644
--- a/src/mathic/DivMask.h
+++ b/src/mathic/DivMask.h
@@ -72,7 +72,7 @@ namespace mathic {
         pr.addColumn(true, " ");
         pr[0] << "masks computed:\n";
         pr[1] << ColumnPrinter::commafy(DivMaskStats::maskComputes) << '\n';
-        pr[2] << ColumnPrinter::percent
+        pr[2] << ColumnPrinter::percentInteger
           (DivMaskStats::maskComputes, DivMaskStats::maskChecks) << '\n';
         pr[3] << "of mask checks\n";
 
@@ -83,27 +83,27 @@ namespace mathic {
 
         pr[0] << "mask hits:\n";
         pr[1] << ColumnPrinter::commafy(DivMaskStats::maskHits) << '\n';
-        pr[2] << ColumnPrinter::percent
+        pr[2] << ColumnPrinter::percentInteger
           (DivMaskStats::maskHits, DivMaskStats::maskChecks) << '\n';
         pr[3] << "of mask checks\n";
 
         pr[0] << "mask div checks:\n";
         pr[1] << ColumnPrinter::commafy(DivMaskStats::divChecks) << '\n';
-        pr[2] << ColumnPrinter::percent
+        pr[2] << ColumnPrinter::percentInteger
           (DivMaskStats::divChecks, DivMaskStats::maskChecks) << '\n';
         pr[3] << "of mask checks\n";
 
         pr[0] << "actually divide:\n";
         pr[1] << ColumnPrinter::commafy(DivMaskStats::divDivides) << '\n';
-        pr[2] << ColumnPrinter::percent
+        pr[2] << ColumnPrinter::percentInteger
           (DivMaskStats::divDivides, DivMaskStats::divChecks) << '\n';
         pr[3] << "of div checks\n";
 
         pr[0] << "mask div hits:\n";
         pr[1] << ColumnPrinter::commafy(DivMaskStats::divHits) << '\n';
-        pr[2] << ColumnPrinter::percent
+        pr[2] << ColumnPrinter::percentInteger
           (DivMaskStats::divHits, DivMaskStats::divChecks) << '\n';
-        pr[3] << "of div checks, " << ColumnPrinter::percent
+        pr[3] << "of div checks, " << ColumnPrinter::percentInteger
           (DivMaskStats::divHits,
            DivMaskStats::divChecks - DivMaskStats::divDivides)
            << " adjusted.\n";          
-- 
2.43.0

