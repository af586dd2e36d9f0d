# The node cache as a monitor: what its lock protects, and what each operation makes of the two lists.
#
# Ghost state: the clean and the dirty list as sequences (position -> node), and each node's position.
ghostfield btreeNodeCacheStruct.cl Int->Int
ghostfield btreeNodeCacheStruct.dl Int->Int
ghostfield btreeNodeStruct.lpos int

def ofc(x: *btreeNodeStruct, c: *btreeNodeCacheStruct) = x.tree != nil and x.tree.nodeCache == c

def listok(c: *btreeNodeCacheStruct, s, n, tag, head, tail) =
  n >= 0 and
  head == (0 if n == 0 else s[0]) and tail == (0 if n == 0 else s[n - 1]) and
  forall('i: Int', imp(0 <= i and i < n, listat(c, s, n, tag, i, s[i])), s[i])

def listat(c: *btreeNodeCacheStruct, s, n, tag, i, x: *btreeNodeStruct) =
  x != nil and ofc(x, c) and x.btreeNodeCacheTag == tag and x.lpos == i and
  x.nextBTreeNode == (s[i + 1] if i + 1 < n else 0) and x.prevBTreeNode == (s[i - 1] if i > 0 else 0)

# the invariant of the cache lock
def CI(c: *btreeNodeCacheStruct) =
  listok(c, c.cl, c.cleanLRUItems, 1, c.cleanLRUHead, c.cleanLRUTail) and
  listok(c, c.dl, c.dirtyLRUItems, 2, c.dirtyLRUHead, c.dirtyLRUTail) and
  forall('x: *btreeNodeStruct', imp(x != nil and ofc(x, c), nodeok(c, x)), x.btreeNodeCacheTag)

def nodeok(c: *btreeNodeCacheStruct, x: *btreeNodeStruct) =
  0 <= x.btreeNodeCacheTag and x.btreeNodeCacheTag <= 2 and
  imp(x.btreeNodeCacheTag == 0, x.nextBTreeNode == nil and x.prevBTreeNode == nil) and
  imp(x.btreeNodeCacheTag == 1, 0 <= x.lpos and x.lpos < c.cleanLRUItems and c.cl[x.lpos] == x) and
  imp(x.btreeNodeCacheTag == 2, 0 <= x.lpos and x.lpos < c.dirtyLRUItems and c.dl[x.lpos] == x)

def total(c: *btreeNodeCacheStruct) = c.cleanLRUItems + c.dirtyLRUItems

func btreeTreeStruct.markNodeUsed
  option holds tree
  option moves used
  requires node != nil and node.tree == tree
  requires listed: imp(tree.nodeCache != nil, node.btreeNodeCacheTag != 0)
  ensures tag: node.btreeNodeCacheTag == old(node.btreeNodeCacheTag)

func btreeTreeStruct.markNodeClean
  option holds tree
  option moves clean
  option drains
  requires node != nil and node.tree == tree
  ensures clean: not node.dirty
  ensures tag: imp(tree.nodeCache != nil, node.btreeNodeCacheTag == 1)

func btreeTreeStruct.markNodeDirty
  option holds tree
  option moves dirty
  requires node != nil and node.tree == tree
  ensures dirty: node.dirty
  ensures tag: imp(tree.nodeCache != nil, node.btreeNodeCacheTag == 2)

func btreeTreeStruct.markNodeEvicted
  option holds tree
  option moves none
  requires node != nil and node.tree == tree
  requires listed: imp(tree.nodeCache != nil, node.btreeNodeCacheTag != 0)
  ensures tag: imp(tree.nodeCache != nil, node.btreeNodeCacheTag == 0)

func btreeTreeStruct.markNodeToBeDiscarded
  option holds tree
  option moves none
  requires node != nil and node.tree == tree
  requires listed: imp(tree.nodeCache != nil, node.btreeNodeCacheTag != 0)
  ensures tag: imp(tree.nodeCache != nil, node.btreeNodeCacheTag == 0)

func btreeTreeStruct.initNodeAsEvicted
  option holds tree
  requires node != nil and node.tree == tree
  requires unlisted: imp(tree.nodeCache != nil, node.btreeNodeCacheTag == 0 and node.nextBTreeNode == nil and node.prevBTreeNode == nil)
  ensures tag: imp(tree.nodeCache != nil, node.btreeNodeCacheTag == 0)

func btreeTreeStruct.incCacheHits
  option holds tree
  option hits 1
func btreeTreeStruct.incCacheMisses
  option holds tree
  option misses 1

func btreeNodeCacheStruct.Stats
  ensures limits: bPlusTreeCacheStats.EvictLowLimit == bPlusTreeCache.evictLowLimit and
                  bPlusTreeCacheStats.EvictHighLimit == bPlusTreeCache.evictHighLimit
  ensures lists: bPlusTreeCacheStats.CleanLRUItems == bPlusTreeCache.cleanLRUItems and
                 bPlusTreeCacheStats.DirtyLRUItems == bPlusTreeCache.dirtyLRUItems
  ensures hits: bPlusTreeCacheStats.CacheHits == bPlusTreeCache.cacheHits and
                bPlusTreeCacheStats.CacheMisses == bPlusTreeCache.cacheMisses

func btreeNodeCacheStruct.UpdateLimits
  option drains
  ensures low: bPlusTreeCache.evictLowLimit == evictLowLimit
  ensures high: bPlusTreeCache.evictHighLimit == evictHighLimit

func btreeNodeCacheStruct.btreeNodeCacheDrainer
  option drainer
  loop 1

func NewBPlusTreeCache
  ensures limits: bPlusTreeCache.evictLowLimit == evictLowLimit and bPlusTreeCache.evictHighLimit == evictHighLimit
  ensures empty: bPlusTreeCache.cleanLRUItems == 0 and bPlusTreeCache.dirtyLRUItems == 0 and
                 bPlusTreeCache.cleanLRUHead == nil and bPlusTreeCache.cleanLRUTail == nil and
                 bPlusTreeCache.dirtyLRUHead == nil and bPlusTreeCache.dirtyLRUTail == nil
  ensures stats: bPlusTreeCache.cacheHits == 0 and bPlusTreeCache.cacheMisses == 0 and not bPlusTreeCache.drainerActive

# decided elsewhere: here only what the drainer hands over and gets back
trusted btreeTreeStruct.purgeNode
  option holds tree
  requires clean: node != nil and node.tree == tree and node.btreeNodeCacheTag == 1
  requires full: full
  ensures imp(full, err == nil)
  modifies btreeNodeStruct.loaded
trusted btreeTreeStruct.placeNodeOnStaleOnDiskReferenceList
  option holds tree
