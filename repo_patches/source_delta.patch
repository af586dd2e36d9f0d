From 5620f95b81e6987bde0eb1fc079d1d48582a3241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 1/9] fix: CompareInt must not overflow

key1-key2 wraps for keys further apart than MaxInt, which inverted the order.
---
 common_api.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/common_api.go b/common_api.go
index 3693788..7b01af3 100644
--- a/common_api.go
+++ b/common_api.go
@@ -28,7 +28,14 @@ func CompareInt(key1 Key, key2 Key) (result int, err error) {
 		return
 	}
 
-	result = key1Int - key2Int
+	if key1Int < key2Int {
+		result = -1
+	} else if key1Int == key2Int {
+		result = 0
+	} else { // key1Int > key2Int
+		result = 1
+	}
+
 	err = nil
 
 	return
-- 
2.43.0


From d2ee9c6906b1edc3a34222b7e0f552f8dce84fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 2/9] fix: LLRBTree Reset must hold the tree's lock

---
 llrb_tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/llrb_tree.go b/llrb_tree.go
index ab11e50..45ff200 100644
--- a/llrb_tree.go
+++ b/llrb_tree.go
@@ -454,6 +454,9 @@ func (tree *llrbTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 }
 
 func (tree *llrbTreeStruct) Reset() {
+	tree.Lock()
+	defer tree.Unlock()
+
 	tree.root = nil
 }
 
-- 
2.43.0


From c5728c39c893b162823005254a5abc4969a64838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 3/9] fix: B+Tree FetchLocation must hold the tree's lock

---
 btree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/btree.go b/btree.go
index 89e92d0..1078aad 100644
--- a/btree.go
+++ b/btree.go
@@ -818,6 +818,9 @@ func (tree *btreeTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 }
 
 func (tree *btreeTreeStruct) FetchLocation() (rootObjectNumber uint64, rootObjectOffset uint64, rootObjectLength uint64) {
+	tree.Lock()
+	defer tree.Unlock()
+
 	rootObjectNumber = tree.root.objectNumber
 	rootObjectOffset = tree.root.objectOffset
 	rootObjectLength = tree.root.objectLength
-- 
2.43.0


From 4a049a127f58de5e231a771969f1cdd3fdceb927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 4/9] fix: B+Tree Dump must hold the node cache's lock while
 reading it

---
 btree_dump.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/btree_dump.go b/btree_dump.go
index 4d28a68..6a752ce 100644
--- a/btree_dump.go
+++ b/btree_dump.go
@@ -10,6 +10,7 @@ func (tree *btreeTreeStruct) Dump() (err error) {
 	defer tree.Unlock()
 
 	if nil != tree.nodeCache {
+		tree.nodeCache.Lock()
 		fmt.Printf("B+Tree @ %p has Node Cache @ %p\n", tree, tree.nodeCache)
 		fmt.Printf("  .evictLowLimit  = %v\n", tree.nodeCache.evictLowLimit)
 		fmt.Printf("  .evictHighLimit = %v\n", tree.nodeCache.evictHighLimit)
@@ -36,6 +37,7 @@ func (tree *btreeTreeStruct) Dump() (err error) {
 		}
 		fmt.Printf("  .dirtyLRUItems  = %v\n", tree.nodeCache.dirtyLRUItems)
 		fmt.Printf("  .drainerActive  = %v\n", tree.nodeCache.drainerActive)
+		tree.nodeCache.Unlock()
 	}
 
 	fmt.Printf("B+Tree @ %p has Root Node @ %p\n", tree, tree.root)
@@ -56,6 +58,7 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 	}
 
 	if nil != tree.nodeCache {
+		tree.nodeCache.Lock()
 		switch node.btreeNodeCacheElement.btreeNodeCacheTag {
 		case noLRU:
 			fmt.Printf("%v  .btreeNodeCacheTag   = noLRU (%v)\n", indent, noLRU)
@@ -79,6 +82,7 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 				fmt.Printf("%v  .prevBTreeNode       = %p\n", indent, node.btreeNodeCacheElement.prevBTreeNode)
 			}
 		}
+		tree.nodeCache.Unlock()
 	}
 
 	fmt.Printf("%v  .objectNumber        = 0x%016x\n", indent, node.objectNumber)
-- 
2.43.0


From 60caf1f0b299919bad0876cafa8e9fd2500ecef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 5/9] fix: Validate must check both sides of the prefix sum
 tree

The error of the left side was overwritten and the right side was never visited.
---
 btree_validate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/btree_validate.go b/btree_validate.go
index b1816ed..56cbbf0 100644
--- a/btree_validate.go
+++ b/btree_validate.go
@@ -153,6 +153,9 @@ func (node *btreeNodeStruct) validatePrefixSum() (err error) {
 		}
 
 		err = node.prefixSumLeftChild.validatePrefixSum()
+		if nil != err {
+			return
+		}
 	}
 
 	if nil != node.prefixSumRightChild {
@@ -163,7 +166,7 @@ func (node *btreeNodeStruct) validatePrefixSum() (err error) {
 			return
 		}
 
-		err = node.prefixSumLeftChild.validatePrefixSum()
+		err = node.prefixSumRightChild.validatePrefixSum()
 		if nil != err {
 			return
 		}
-- 
2.43.0


From 5d2a98163aeb2be54cfc53c80210226b7a7e714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 6/9] fix: a failed Prune must not discard the same location
 again when retried

---
 btree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/btree.go b/btree.go
index 1078aad..96434ed 100644
--- a/btree.go
+++ b/btree.go
@@ -1080,6 +1080,8 @@ func (tree *btreeTreeStruct) pruneWhileLocked() (err error) {
 			if nil != err {
 				return
 			}
+
+			delete(tree.staleOnDiskReferencesList, staleOnDiskReference) // so a retry won't discard it again
 		}
 
 		tree.staleOnDiskReferencesList = nil
-- 
2.43.0


From 02cc44d6cb9caa8254c06ee1978eb58e6a33149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 7/9] fix: Discard must report a node it cannot load and stay
 retryable

The error of discardNode() was ignored, forgetting the locations of the nodes not
yet reached and leaving nodes of the dead tree in the cache. A Discard failing in
DiscardNode() left the tree's nodes off the cache lists, so that the next operation
or retry panicked.
---
 btree.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/btree.go b/btree.go
index 96434ed..165bea9 100644
--- a/btree.go
+++ b/btree.go
@@ -1015,17 +1015,27 @@ func (tree *btreeTreeStruct) Discard() (err error) {
 	tree.Lock()
 	defer tree.Unlock()
 
-	// Discard every node in tree
+	// Load & touch every node in tree so that all on-disk copies become stale (tree remains usable upon error)
 
-	tree.discardNode(tree.root)
+	err = tree.touchNode(tree.root)
+	if nil != err {
+		return
+	}
 
-	// Prune again to pick up now stale nodes added in discardNode()
+	// Prune all on-disk copies (both previously stale and just made so)
 
 	err = tree.pruneWhileLocked()
 	if nil != err {
 		return
 	}
 
+	// Discard every (now loaded) node in tree
+
+	err = tree.discardNode(tree.root)
+	if nil != err {
+		return
+	}
+
 	// Reset btreeTreeStruct to trigger Golang Garbage Collection now (and prevent further use)
 
 	tree.Compare = nil
-- 
2.43.0


From 6d5b2e81f04ce72d1bdb3225bef04c843ac8ddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 8/9] fix: Put into an empty map must report a key its Compare
 refuses

The first key was stored without being compared with anything, so that a refused
key made every later keyed operation fail.
---
 btree.go     | 7 +++++--
 llrb_tree.go | 9 +++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/btree.go b/btree.go
index 165bea9..f16af61 100644
--- a/btree.go
+++ b/btree.go
@@ -775,7 +775,7 @@ func (tree *btreeTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 				ok = false
 			} else {
 				err = tree.insertHere(node, key, value) // will also mark affected nodes dirty/used in LRU
-				ok = true
+				ok = (nil == err)
 				return
 			}
 
@@ -1163,7 +1163,10 @@ func (tree *btreeTreeStruct) insertHere(insertNode *btreeNodeStruct, key Key, va
 		splitValueAsNode    *btreeNodeStruct
 	)
 
-	insertNode.kvLLRB.Put(key, value)
+	_, err = insertNode.kvLLRB.Put(key, value)
+	if nil != err {
+		return
+	}
 
 	if insertNode.leaf {
 		tree.updatePrefixSumTreeLeafToRoot(insertNode) // will also mark affected nodes dirty/used in LRU
diff --git a/llrb_tree.go b/llrb_tree.go
index 45ff200..a002c63 100644
--- a/llrb_tree.go
+++ b/llrb_tree.go
@@ -437,6 +437,15 @@ func (tree *llrbTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 	tree.Lock()
 	defer tree.Unlock()
 
+	if nil == tree.root {
+		// No existing key to compare with... so just ensure key is one Compare will accept
+
+		_, err = tree.Compare(key, key)
+		if nil != err {
+			return
+		}
+	}
+
 	updatedRoot, ok, err := tree.insert(tree.root, key, value)
 	if nil != err {
 		return
-- 
2.43.0


From 6b2b5508fd72c6534d4065f8db433fcbd7ad4661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:23 +0000
Subject: [PATCH 9/9] fix: merging nodes must be accounted for when rebalancing
 the parent fails

rebalanceHere() returned early when its recursive call failed to load a sibling of the
parent, leaving the merged node marked clean (so that a Flush would lose the items merged
into it) and the emptied one on the cache's lists with its location forgotten.
---
 btree.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/btree.go b/btree.go
index f16af61..b700ba3 100644
--- a/btree.go
+++ b/btree.go
@@ -1736,6 +1736,11 @@ func (tree *btreeTreeStruct) rebalanceHere(rebalanceNode *btreeNodeStruct, paren
 			}
 		}
 
+		// account for the merge now since the recursive call below might fail
+
+		tree.markNodeToBeDiscarded(rebalanceNode)
+		tree.markNodeDirty(leftSiblingNode)
+
 		llrbLen, err = parentNode.kvLLRB.Len()
 		if nil != err {
 			return
@@ -1777,9 +1782,6 @@ func (tree *btreeTreeStruct) rebalanceHere(rebalanceNode *btreeNodeStruct, paren
 				return
 			}
 		}
-
-		tree.markNodeToBeDiscarded(rebalanceNode)
-		tree.markNodeDirty(leftSiblingNode)
 	} else if nil != rightSiblingNode {
 		// move keys from rightSiblingNode to rebalanceNode (along with former splitKey for non-leaf case)
 
@@ -1831,6 +1833,11 @@ func (tree *btreeTreeStruct) rebalanceHere(rebalanceNode *btreeNodeStruct, paren
 			}
 		}
 
+		// account for the merge now since the recursive call below might fail
+
+		tree.markNodeToBeDiscarded(rightSiblingNode)
+		tree.markNodeDirty(rebalanceNode)
+
 		llrbLen, err = parentNode.kvLLRB.Len()
 		if nil != err {
 			return
@@ -1872,9 +1879,6 @@ func (tree *btreeTreeStruct) rebalanceHere(rebalanceNode *btreeNodeStruct, paren
 				return
 			}
 		}
-
-		tree.markNodeToBeDiscarded(rightSiblingNode)
-		tree.markNodeDirty(rebalanceNode)
 	} else {
 		// since non-root minKeysPerNode >= 2, this node was required to have had a sibling,
 		// so if we reach here, we have a logic problem
-- 
2.43.0

