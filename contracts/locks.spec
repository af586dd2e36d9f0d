# Lock discipline of the B+Tree and the node cache.
#
# "lockheld X": the caller holds that lock, and so does the function on return.  Functions without the option
# are entered and left holding nothing.  Every field named below may be touched only under its lock (objects
# allocated by the running function are private to it until it returns).  Node pointers reached from a tree
# belong to that tree: assumed when read, proved when written (fields, slices, map values, arguments, results).

guard btreeTreeStruct: minKeysPerNode, maxKeysPerNode, Compare, BPlusTreeCallbacks, root, staleOnDiskReferencesList, nodeCache
guard btreeNodeCacheStruct: evictLowLimit, evictHighLimit, cleanLRUHead, cleanLRUTail, cleanLRUItems, dirtyLRUHead, dirtyLRUTail, dirtyLRUItems, drainerActive, cacheHits, cacheMisses

func btreeTreeStruct.BisectLeft
  option locks tree
  option atomic
func btreeTreeStruct.BisectRight
  option locks tree
  option atomic
func btreeTreeStruct.DeleteByIndex
  option locks tree
  option atomic
func btreeTreeStruct.DeleteByKey
  option locks tree
  option atomic
func btreeTreeStruct.GetByIndex
  option locks tree
  option atomic
func btreeTreeStruct.GetByKey
  option locks tree
  option atomic
func btreeTreeStruct.Len
  option locks tree
  option atomic
func btreeTreeStruct.PatchByIndex
  option locks tree
  option atomic
func btreeTreeStruct.PatchByKey
  option locks tree
  option atomic
func btreeTreeStruct.Put
  option locks tree
  option atomic
func btreeTreeStruct.FetchLocation
  option locks tree
  option atomic
func btreeTreeStruct.FetchLayoutReport
  option locks tree
  option atomic
func btreeTreeStruct.FetchDimensionsReport
  option locks tree
  option atomic
func btreeTreeStruct.Flush
  option locks tree
  option atomic
func btreeTreeStruct.Purge
  option locks tree
  option atomic
func btreeTreeStruct.Touch
  option locks tree
  option atomic
func btreeTreeStruct.TouchItem
  option locks tree
  option atomic
func btreeTreeStruct.Prune
  option locks tree
  option atomic
func btreeTreeStruct.Discard
  option locks tree
  option atomic
func btreeNodeCacheStruct.Stats
  option locks bPlusTreeCache
  option atomic
func btreeNodeCacheStruct.UpdateLimits
  option locks bPlusTreeCache
  option atomic
func btreeTreeStruct.pruneWhileLocked
  option lockheld tree
func btreeTreeStruct.discardNode
  option lockheld tree
func btreeTreeStruct.insertHere
  option lockheld tree
func btreeTreeStruct.rebalanceHere
  option lockheld tree
func btreeTreeStruct.flushNode
  option lockheld tree
func btreeTreeStruct.purgeNode
  option lockheld tree
func btreeTreeStruct.incCacheHits
  option keeps root
  option lockheld tree
func btreeTreeStruct.incCacheMisses
  option keeps root
  option lockheld tree
func btreeTreeStruct.markNodeUsed
  option keeps root
  option lockheld tree
func btreeTreeStruct.markNodeClean
  option keeps root
  option lockheld tree
func btreeTreeStruct.markNodeDirty
  option keeps root
  option lockheld tree
func btreeTreeStruct.markNodeEvicted
  option keeps root
  option lockheld tree
func btreeTreeStruct.markNodeToBeDiscarded
  option keeps root
  option lockheld tree
func btreeTreeStruct.placeNodeOnStaleOnDiskReferenceList
  option keeps root
  option lockheld tree
func btreeNodeCacheStruct.btreeNodeCacheDrainer
func btreeTreeStruct.touchNode
  option lockheld tree
func btreeTreeStruct.touchLoadedNodeToRoot
  option lockheld tree
func btreeTreeStruct.arrangePrefixSumTreeRecursively
  option lockheld tree
func btreeTreeStruct.arrangePrefixSumTree
  option lockheld tree
func btreeTreeStruct.rearrangePrefixSumTreeToRoot
  option lockheld tree
func btreeTreeStruct.updatePrefixSumTreeLeafToRootRecursively
  option lockheld tree
func btreeTreeStruct.updatePrefixSumTreeLeafToRoot
  option lockheld tree
func btreeTreeStruct.loadNode
  option lockheld tree
func btreeTreeStruct.postNode
  option lockheld tree
func btreeTreeStruct.updateLayoutReport
  option lockheld tree
func NewBPlusTreeCache
func NewBPlusTree
func OldBPlusTree
func btreeTreeStruct.Dump
  option locks tree
  option atomic
func btreeTreeStruct.dumpNode
  option merge
  option lockheld tree
func btreeTreeStruct.Validate
  option locks tree
  option atomic
func btreeNodeStruct.validate
  option lockheld node.tree
func btreeNodeStruct.validatePrefixSum
  option lockheld node.tree
