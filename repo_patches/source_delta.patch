From bd4ee03d307585e039939d90d52ca766f6b3903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 01/15] fix: FlexIntStack initialised with capacity 0 writes
 out of bounds on the first push

---
 src/intDataStructures/FlexIntStack.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/intDataStructures/FlexIntStack.cpp b/src/intDataStructures/FlexIntStack.cpp
index bef1ebe..1fc9ff8 100644
--- a/src/intDataStructures/FlexIntStack.cpp
+++ b/src/intDataStructures/FlexIntStack.cpp
@@ -31,9 +31,10 @@ int FlexIntStack::getSize() {
 
 void FlexIntStack::push(int i) {
 	if (currentSize == containerSize) {
-		int* newContainer = new int[containerSize * 2];
+		int newSize = (containerSize > 0) ? containerSize * 2 : 1;
+		int* newContainer = new int[newSize];
 		memcpy(newContainer, intContainer, sizeof(int) * containerSize);
-		containerSize = containerSize * 2;
+		containerSize = newSize;
 		delete[] intContainer;
 		intContainer = newContainer;
 	}
-- 
2.43.0


From 7f012bff56b6eb190a41e60d76becfb026defa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 02/15] fix: noDelIntSet::setIntersection only looked at
 elements outside of the other set's range (always empty, or out of bounds)

---
 src/intDataStructures/noDelIntSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/intDataStructures/noDelIntSet.cpp b/src/intDataStructures/noDelIntSet.cpp
index f4255a2..116cf4c 100644
--- a/src/intDataStructures/noDelIntSet.cpp
+++ b/src/intDataStructures/noDelIntSet.cpp
@@ -94,7 +94,7 @@ noDelIntSet* noDelIntSet::setIntersection(noDelIntSet* second) {
 
 	for (int i = lessElements->getFirst(); i >= 0; i =
 			lessElements->getNext()) {
-		if ((moreElements->containerSize <= i) && (moreElements->get(i)))
+		if ((moreElements->containerSize > i) && (moreElements->get(i)))
 			that->insert(i);
 	}
 	return that;
@@ -117,7 +117,7 @@ void noDelIntSet::setIntersection(noDelIntSet* result, noDelIntSet* second) {
 
 	for (int i = lessElements->getFirst(); i >= 0; i =
 			lessElements->getNext()) {
-		if ((moreElements->containerSize <= i) && (moreElements->get(i)))
+		if ((moreElements->containerSize > i) && (moreElements->get(i)))
 			result->insert(i);
 	}
 }
-- 
2.43.0


From dbe8ef9951ab81399c121c245975e3881a33730f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 03/15] fix: bIntSet::erase uses binary search on an unsorted
 array after append and writes out of bounds

---
 src/intDataStructures/bIntSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/intDataStructures/bIntSet.cpp b/src/intDataStructures/bIntSet.cpp
index e482d4b..80be832 100644
--- a/src/intDataStructures/bIntSet.cpp
+++ b/src/intDataStructures/bIntSet.cpp
@@ -51,6 +51,7 @@ void bIntSet::append(int i) {
 void bIntSet::erase(int i) {
 	if (boolContainer[i] == true) {
 		boolContainer[i] = false;
+		sortSet(); // elements may have been appended
 		int indexOfI = find(intContainer, 0, currentSize - 1, i);
 		intContainer[indexOfI] = INT_MAX;
 		sort(intContainer, 0, currentSize - 1);
-- 
2.43.0


From 11f5388d28c32134b0277e225d61e0fa8ecc733a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 04/15] fix: delIterIntSet linked new elements in the wrong
 direction and lost its iterator when the first or last element was deleted

---
 src/intDataStructures/delIterIntSet.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/intDataStructures/delIterIntSet.cpp b/src/intDataStructures/delIterIntSet.cpp
index 06e0afa..ea09357 100644
--- a/src/intDataStructures/delIterIntSet.cpp
+++ b/src/intDataStructures/delIterIntSet.cpp
@@ -41,14 +41,14 @@ void delIterIntSet::insert(int i) {
 		elem->value = i;
 		if (currentSize == 0) {
 			elem->isFirst = true;
-			elem->isLast = true;
 			this->first = elem;
-			this->last = elem;
 		} else {
-			elem->next = this->last;
-			last->prev = elem;
-			this->last = elem;
+			elem->prev = this->last;
+			this->last->next = elem;
+			this->last->isLast = false;
 		}
+		elem->isLast = true;
+		this->last = elem;
 		currentSize++;
 	}
 }
@@ -96,19 +96,22 @@ int delIterIntSet::delCurrentGetNext() {
 		if (currentSize > 1) {
 			this->currentIterElem->next->isFirst = true;
 			this->first = this->currentIterElem->next;
+			this->currentIterElem = this->first;
 		} else {
 			this->first = nullptr;
 			this->last = nullptr;
+			this->currentIterElem = nullptr;
 		}
 		delete elem;
 		currentSize--;
-		return -1;
+		return (this->currentIterElem == nullptr) ? -1 : this->currentIterElem->value;
 	} else if (this->currentIterElem->isLast) {
 		boolContainer[this->currentIterElem->value] = false;
 		assert(currentSize > 1); // otherwise the last case would be true
 		llInt* elem = this->currentIterElem;
 		this->currentIterElem->prev->isLast = true;
 		this->last = this->currentIterElem->prev;
+		this->currentIterElem = nullptr;
 		delete elem;
 		currentSize--;
 		return -1;
-- 
2.43.0


From 3c900f089bedfb7b44103b1d19cfe41b100fccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 05/15] fix: IntPairHeap constructed with size 0 wrote its
 sentinel out of bounds and could not grow

---
 src/intDataStructures/IntPairHeap.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/intDataStructures/IntPairHeap.h b/src/intDataStructures/IntPairHeap.h
index 1f3fa92..2381b8c 100644
--- a/src/intDataStructures/IntPairHeap.h
+++ b/src/intDataStructures/IntPairHeap.h
@@ -24,6 +24,7 @@ namespace progression {
         int arraySize;
     public:
         IntPairHeap(int size) {
+            if (size < 1) size = 1; // index 0 holds the sentinel
             this->nextIndex = 1;
             this->arraySize = size;
             this->keys = new T[size];
-- 
2.43.0


From 283bc4c90da51a8a4e646a2a5cf05d844ec939d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 06/15] fix: IntPairHeap sentinel is the smallest positive
 value for floating point keys, smaller keys were moved to index 0 and lost

---
 src/intDataStructures/IntPairHeap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intDataStructures/IntPairHeap.h b/src/intDataStructures/IntPairHeap.h
index 2381b8c..75ac594 100644
--- a/src/intDataStructures/IntPairHeap.h
+++ b/src/intDataStructures/IntPairHeap.h
@@ -29,7 +29,7 @@ namespace progression {
             this->arraySize = size;
             this->keys = new T[size];
             this->vals = new int[size];
-            this->keys[0] = std::numeric_limits<T>::min();
+            this->keys[0] = std::numeric_limits<T>::lowest();
             this->vals[0] = std::numeric_limits<int>::min();
         }
 
-- 
2.43.0


From 5f6caa0fa5494aa6395b224767853fe95aa8e0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 07/15] fix: fringe assertion fails for an empty fringe at a
 container boundary

---
 src/search/UnsortedFringe.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/search/UnsortedFringe.cpp b/src/search/UnsortedFringe.cpp
index 3df71ff..e00e0c9 100644
--- a/src/search/UnsortedFringe.cpp
+++ b/src/search/UnsortedFringe.cpp
@@ -65,7 +65,12 @@ bool UnsortedFringe::empty() {
 					|| ((firstContainer->containerID
 							== lastContainer->containerID)
 							&& (lastContainer->leftIndex
-									== lastContainer->rightIndex -1)));
+									== lastContainer->rightIndex -1))
+					|| ((firstContainer->nextContainer
+							== lastContainer) // empty at a container boundary
+							&& (firstContainer->leftIndex
+									== firstContainer->containerSize - 1)
+							&& (lastContainer->rightIndex == 0)));
 	return (sizeCounter == 0);
 }
 
-- 
2.43.0


From 48e99eb5cd1e998171d02fa762e2c3f08e90e873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 08/15] fix: compressed trie splits at bit 64 when a sequence
 ends on a block boundary inside a longer one, losing keys

---
 src/intDataStructures/CompressedSequenceSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/intDataStructures/CompressedSequenceSet.cpp b/src/intDataStructures/CompressedSequenceSet.cpp
index ed93d09..4f9a072 100644
--- a/src/intDataStructures/CompressedSequenceSet.cpp
+++ b/src/intDataStructures/CompressedSequenceSet.cpp
@@ -242,6 +242,8 @@ void compressed_sequence_trie::insert(const vector<uint64_t> & sequence, int pad
 			DEBUG(cout << "\tNew sequence ends within." << endl);
 			block_with_first_difference = sequence.size() - myFirstBlock - 1;
 			splitBit = 64 - paddingBits;
+			// the sequence ends at the end of a block, so the split is before the first bit of the next one
+			if (splitBit == 64) { block_with_first_difference++; splitBit = 0; }
 			// split
 			split_me_at(block_with_first_difference,splitBit);
 			p = &payload;
-- 
2.43.0


From edff4df800836a2f1907073f23bec2361ecd811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 09/15] fix: trie node split before its first bit keeps its old
 value and is not found again

---
 src/intDataStructures/SequenceSet.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/intDataStructures/SequenceSet.cpp b/src/intDataStructures/SequenceSet.cpp
index 5ace070..e7787d1 100644
--- a/src/intDataStructures/SequenceSet.cpp
+++ b/src/intDataStructures/SequenceSet.cpp
@@ -148,11 +148,8 @@ void sequence_trie::split_me_at(int bit){
 
 	// curb myself
 	ignoreBitsLast = 64 - bit;
-	if (ignoreBitsLast != 64){
-		value = value & bitmask_ignore_last(ignoreBitsLast);
-	} else {
-		// I might end up with no bits at all (edge cases ...)
-	}
+	// I might end up with no bits at all (edge cases ...), then the mask is empty
+	value = value & bitmask_ignore_last(ignoreBitsLast);
 	
 	//print_tree(0);
 	TEST(check_integrity());
-- 
2.43.0


From 9686d6485ccfbe2bc073229f1419292c56ad0df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 10/15] fix: problems whose initial method has a fork or a join
 were reported as parallel sequences

---
 src/Model.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 0782e92..c82f08c 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -1946,6 +1946,13 @@ newlyReachedMLMs = new noDelIntSet();
 		}
 
 
+		// a partially ordered method of the initial task is only at the top of the hierarchy if the initial task is no subtask
+		if (!isTotallyOrdered)
+			for (int i = 0; i < numMethods; i++)
+				for (int j = 0; j < numSubTasks[i]; j++)
+					if (subTasks[i][j] == initialTask)
+						isUniquePaths = isParallelSequences = false;
+
 		// Mapping from task to methods where it is a subtasks
 		stToMethodNum = new int[this->numTasks];
 		for (int i = 0; i < this->numTasks; i++)
@@ -3066,11 +3073,10 @@ newlyReachedMLMs = new noDelIntSet();
 
 			if (notOneSuccessor > 1 || notOnePredecessor > 1) {
 				isTotallyOrdered = false;
-				if (notZeroOrOneSuccessor || decomposedTask[i] != initialTask) {
+				if (notZeroOrOneSuccessor || decomposedTask[i] != initialTask)
 					isUniquePaths = false;
-					if (notZeroOrOnePredecessor || decomposedTask[i] != initialTask)
-						isParallelSequences = false;
-				}
+				if (notZeroOrOneSuccessor || notZeroOrOnePredecessor || decomposedTask[i] != initialTask)
+					isParallelSequences = false;
 			}
 		}
 
-- 
2.43.0


From ef6ef3945260e7cb8725050d3344eb92d980db65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:28 +0000
Subject: [PATCH 11/15] fix: matching of task networks dropped the mapping of
 deeper tasks, so non-isomorphic networks were taken for equal

---
 src/VisitedList.cpp | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/VisitedList.cpp b/src/VisitedList.cpp
index 8c22c10..febf4bb 100644
--- a/src/VisitedList.cpp
+++ b/src/VisitedList.cpp
@@ -156,7 +156,8 @@ void to_dfs(planStep *s, vector<int> &seq) {
 
 
 bool matchingDFS(searchNode *one, searchNode *other, planStep *oneStep, planStep *otherStep,
-                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping);
+                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping,
+                 vector<pair<planStep *, planStep *>> pending);
 
 
 void getSortedTasks(planStep **network, int size, int *succ);
@@ -166,14 +167,20 @@ bool matchingGenerate(
         map<planStep *, planStep *> &mapping, map<planStep *, planStep *> &backmapping,
         map<int, set<planStep *>> oneNextTasks,
         map<int, set<planStep *>> otherNextTasks,
-        unordered_set<int> tasks
+        unordered_set<int> tasks,
+        vector<pair<planStep *, planStep *>> pending // matched pairs whose successors still have to be matched
 ) {
-    if (tasks.size() == 0)
-        return true; // done, all children
+    if (tasks.size() == 0) {
+        // done, all children
+        if (pending.empty()) return true;
+        auto [nextOne, nextOther] = pending.back();
+        pending.pop_back();
+        return matchingDFS(one, other, nextOne, nextOther, mapping, backmapping, pending);
+    }
 
     if (oneNextTasks[*tasks.begin()].size() == 0) {
         tasks.erase(*tasks.begin());
-        return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks);
+        return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks, pending);
     }
 
     int task = *tasks.begin();
@@ -192,37 +199,33 @@ bool matchingGenerate(
         if (backmapping.count(psOther) && backmapping[psOther] != psOne) continue;
 		DEBUG(cout << "\tOK" << endl);
 
-        bool subRes = true;
         map<planStep *, planStep *> subMapping = mapping;
         map<planStep *, planStep *> subBackmapping = backmapping;
+        vector<pair<planStep *, planStep *>> subPending = pending;
 
         if (!mapping.count(psOne)) { // don't check again if we already did it
             subMapping[psOne] = psOther;
             subBackmapping[psOther] = psOne;
 
-            // run the DFS below this pair
-            subRes = matchingDFS(one, other, psOne, psOther, subMapping, subBackmapping);
+            // the successors of this pair have to be matched under the same mapping
+            subPending.push_back({psOne, psOther});
         }
 
+        map<int, set<planStep *>> subOtherNextTasks = otherNextTasks;
+        subOtherNextTasks[task].erase(psOther);
 
-        if (subRes) {
-            map<int, set<planStep *>> subOtherNextTasks = otherNextTasks;
-            subOtherNextTasks[task].erase(psOther);
-
-            // continue the extraction with the next task
-            if (matchingGenerate(one, other, subMapping, subBackmapping, oneNextTasks, subOtherNextTasks, tasks))
-                return true;
-        }
+        // continue the extraction with the next task
+        if (matchingGenerate(one, other, subMapping, subBackmapping, oneNextTasks, subOtherNextTasks, tasks, subPending))
+            return true;
     }
 
     return false; // did not find any valid matching
 }
 
 bool matchingDFS(searchNode *one, searchNode *other, planStep *oneStep, planStep *otherStep,
-                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping) {
+                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping,
+                 vector<pair<planStep *, planStep *>> pending) {
 	if (oneStep->numSuccessors != otherStep->numSuccessors) return false; // is not possible
-    if (oneStep->numSuccessors == 0) return true; // no successors, matching OK
-
 
     // groups the successors into buckets according to their task labels
     map<int, set<planStep *>> oneNextTasks;
@@ -246,7 +249,7 @@ bool matchingDFS(searchNode *one, searchNode *other, planStep *oneStep, planStep
 
     for (int t : tasks) if (oneNextTasks[t].size() != otherNextTasks[t].size()) return false;
 
-    return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks);
+    return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks, pending);
 }
 
 
@@ -270,7 +273,7 @@ bool matching(searchNode *one, searchNode *other) {
     mapping[oneHead] = otherHead;
     backmapping[otherHead] = oneHead;
 
-    bool result = matchingDFS(one, other, oneHead, otherHead, mapping, backmapping);
+    bool result = matchingDFS(one, other, oneHead, otherHead, mapping, backmapping, {});
 
     //delete oneHead;
     //delete otherHead;
-- 
2.43.0


From bbb54aa67d949dd3f0d0aaa75e45c25960267488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:57 +0000
Subject: [PATCH 12/15] fix: planning graph must not queue a fact twice nor add
 up action costs

An action without preconditions overwrote the value of a fact that already
held and queued it again, so that the precondition counters of other actions
were decremented twice and unreachable tasks were reported as reachable. The
sum of large action costs overflowed and hid reachable facts.
---
 src/heuristics/planningGraph.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/heuristics/planningGraph.cpp b/src/heuristics/planningGraph.cpp
index 7f64c75..0485cb7 100644
--- a/src/heuristics/planningGraph.cpp
+++ b/src/heuristics/planningGraph.cpp
@@ -48,7 +48,8 @@ void planningGraph::calcReachability(vector<bool>& s,
 		noDelIntSet& reachableIn) {
 	reachableTasksSet.clear();
 	memcpy(numSatPrecs, m->numPrecs, sizeof(int) * m->numActions);
-	memcpy(hValOp, m->actionCosts, sizeof(int) * m->numActions);
+	// only reachability is of interest: sums of action costs could overflow
+	memset(hValOp, 0, sizeof(int) * m->numActions);
 	memcpy(hValProp, hValPropInit, sizeof(int) * m->numStateBits);
 
 	usefulFactSet.clear();
@@ -72,8 +73,10 @@ void planningGraph::calcReachability(vector<bool>& s,
 		reachableTasksSet.insert(ac);
 		for (int iAdd = 0; iAdd < m->numAdds[ac]; iAdd++) {
 			int fAdd = m->addLists[ac][iAdd];
-			hValProp[fAdd] = m->actionCosts[ac];
-			queue->add(hValProp[fAdd], fAdd);
+			if (hValOp[ac] < hValProp[fAdd]) {
+				hValProp[fAdd] = hValOp[ac];
+				queue->add(hValProp[fAdd], fAdd);
+			}
 		}
 	}
 
-- 
2.43.0


From 3df1142d2155326e7031c33930057e342eccfa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:24 +0000
Subject: [PATCH 13/15] fix: minimal implied costs and distances of tasks with
 recursive methods

Methods without primitive subtasks were counted with distance 0 and costs 0
until one of their subtasks changed. In cycles of abstract tasks that never
happened, so a task got distance 0 although every refinement has steps. Start
from infinity instead, which also ends for tasks without finite refinement and
does not overflow.
---
 src/Model.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index c82f08c..fc35046 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -2698,8 +2698,8 @@ newlyReachedMLMs = new noDelIntSet();
 		int *minImpliedDistanceM = new int[this->numMethods];
 
 		for (int i = 0; i < this->numMethods; i++) {
-            minEstimatedCostsM[i] = 0;
-			minImpliedDistanceM[i] = 0;
+            minEstimatedCostsM[i] = INT_MAX; // not known to have a finite refinement yet
+			minImpliedDistanceM[i] = INT_MAX;
 		}
 
 		for (int i = 0; i < this->numTasks; i++) {
@@ -2707,8 +2707,8 @@ newlyReachedMLMs = new noDelIntSet();
                 minEstimatedCosts[i] = this->actionCosts[i];
 				minImpliedDistance[i] = 1;
 			} else {
-                minEstimatedCosts[i] = 0;
-				minImpliedDistance[i] = 0;
+                minEstimatedCosts[i] = INT_MAX;
+				minImpliedDistance[i] = INT_MAX;
 			}
 		}
 
@@ -2730,13 +2730,16 @@ newlyReachedMLMs = new noDelIntSet();
 				int cCosts = minEstimatedCostsM[n->id];
 				int cDist = minImpliedDistanceM[n->id];
 
-                minEstimatedCostsM[n->id] = 0;
-				minImpliedDistanceM[n->id] = 1; // a distance of one is implied by the decomposition itself
+				long long costs = 0;
+				long long dist = 1; // a distance of one is implied by the decomposition itself
 				for (int i = 0; i < this->numSubTasks[n->id]; i++) {
 					int st = this->subTasks[n->id][i];
-                    minEstimatedCostsM[n->id] += minEstimatedCosts[st];
-					minImpliedDistanceM[n->id] += minImpliedDistance[st];
+					costs += minEstimatedCosts[st];
+					dist += minImpliedDistance[st];
 				}
+				// sums with a subtask that has no finite refinement (so far) stay at INT_MAX
+				minEstimatedCostsM[n->id] = (int) min(costs, (long long) INT_MAX);
+				minImpliedDistanceM[n->id] = (int) min(dist, (long long) INT_MAX);
 				bool changed = ((minEstimatedCostsM[n->id] != cCosts)
 						|| (minImpliedDistanceM[n->id] != cDist));
 				if (changed) {
-- 
2.43.0


From b0cfef6d21bd07c7d5118398be006839054eb765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:40 +0000
Subject: [PATCH 14/15] fix: sizes of the conditions of conditional effects
 were never returned

---
 src/Model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Model.cpp b/src/Model.cpp
index fc35046..0ffbb7d 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -2137,6 +2137,7 @@ newlyReachedMLMs = new noDelIntSet();
 		int *A = nullptr;
 		int *B = nullptr;
 		int **C = nullptr;
+		sizeC = nullptr;
 		if (sizeA) {
 			A = new int[sizeA];
 			for (int i = 0; i < sizeA; i++) A[i] = v[i];
@@ -2145,8 +2146,10 @@ newlyReachedMLMs = new noDelIntSet();
 		if (sizeB) {
 			B = new int[sizeB];
 			C = new int *[sizeB];
+			sizeC = new int[sizeB];
 			for (int i = 0; i < sizeB; i++) {
 				B[i] = conds[i].second;
+				sizeC[i] = conds[i].first.size();
 				C[i] = new int[conds[i].first.size()];
 				for (size_t j = 0; j < conds[i].first.size(); j++) C[i][j] = conds[i].first[j];
 			}
-- 
2.43.0


From 98eaa2d5046c06e6908b78aeda3547e1da9a4940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:25 +0000
Subject: [PATCH 15/15] fix: read before the first variable when building the
 RC model of a problem without variables

---
 src/heuristics/rcHeuristics/RCModelFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heuristics/rcHeuristics/RCModelFactory.cpp b/src/heuristics/rcHeuristics/RCModelFactory.cpp
index 80414ff..d137295 100644
--- a/src/heuristics/rcHeuristics/RCModelFactory.cpp
+++ b/src/heuristics/rcHeuristics/RCModelFactory.cpp
@@ -127,7 +127,7 @@ Model* RCModelFactory::getRCmodelSTRIPS(int costsMethodActions, int costRegularA
 		rc->lastIndex[i] = htn->lastIndex[i];
 	}
 	for(int i = htn->numVars; i < rc->numVars; i++) {
-		rc->firstIndex[i] = rc->lastIndex[i - 1] + 1;
+		rc->firstIndex[i] = (i > 0) ? rc->lastIndex[i - 1] + 1 : 0;
 		rc->lastIndex[i] = rc->firstIndex[i];
 	}
 
-- 
2.43.0

