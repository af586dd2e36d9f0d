# The B+Tree: structure invariant of a tree under its lock, and the sorted sequence it stands for.
#
# Ghost state of a tree: N items, K[i]/V[i] the i-th key and value in order; flt counts callback failures.
# W the stored nodes written and not yet released, U those the tree refers to, own the live node stored there;
# dh/dn/drt/dK/dV what a stored node and all below it amount to: height, number of items, root flag, the items.
# Ghost state of a node: lv the tree it is a live node of (0: none); beg/end the items at or below it; hgt its height
# (1: leaf); ix its position among its parent's children; cut[j] the item separated by kvLLRB's j-th key;
# pb/pe/pd the items below its prefix-sum subtree and its depth there.
ghostfunc ord(Any) -> Real
ghostfunc good(Any) -> Bool
ghostfunc rank(Int, Real) -> Int
ghostfunc pup(Int->Int, Int, Int) -> Int
ghostfunc usum(staleOnDiskReferenceStruct->Bool, Int) -> Int
ghostfield llrbTreeStruct.T int
ghostfield llrbTreeStruct.mlen Int
ghostfield llrbTreeStruct.mk Int->Any
ghostfield llrbTreeStruct.mv Int->Any
ghostfield llrbTreeStruct.owner Int
ghostfield btreeTreeStruct.N Int
ghostfield btreeTreeStruct.K Int->Any
ghostfield btreeTreeStruct.V Int->Any
ghostfield btreeTreeStruct.flt Int
ghostfield btreeTreeStruct.W staleOnDiskReferenceStruct->Bool
ghostfield btreeTreeStruct.U staleOnDiskReferenceStruct->Bool
ghostfield btreeTreeStruct.own staleOnDiskReferenceStruct->Int
ghostfield btreeTreeStruct.dh staleOnDiskReferenceStruct->Int
ghostfield btreeTreeStruct.dn staleOnDiskReferenceStruct->Int
ghostfield btreeTreeStruct.drt staleOnDiskReferenceStruct->Bool
ghostfield btreeTreeStruct.dK staleOnDiskReferenceStruct->Int->Any
ghostfield btreeTreeStruct.dV staleOnDiskReferenceStruct->Int->Any
ghostfield layoutMap.has Int->Bool
ghostfield layoutMap.val Int->Int
ghostfield layoutMap.seen staleOnDiskReferenceStruct->Bool
ghostfield staleMap.set staleOnDiskReferenceStruct->Bool
ghostfield btreeNodeStruct.lv Int
ghostfield btreeNodeStruct.beg Int
ghostfield btreeNodeStruct.end Int
ghostfield btreeNodeStruct.hgt Int
ghostfield btreeNodeStruct.ix Int
ghostfield btreeNodeStruct.cut Int->Int
ghostfield btreeNodeStruct.pb Int
ghostfield btreeNodeStruct.pe Int
ghostfield btreeNodeStruct.pd Int
ghostfield btreeNodeStruct.pend Bool
def mlen(t: *llrbTreeStruct) = t.mlen
def mkey(t: *llrbTreeStruct, i: Int) = t.mk[i]
def mval(t: *llrbTreeStruct, i: Int) = t.mv[i]

def L(t: *btreeTreeStruct, x: *btreeNodeStruct) = x.lv == t
def inner(t: *btreeTreeStruct, x: *btreeNodeStruct) = L(t, x) and x.loaded and x.hgt > 1
def nth(x: *btreeNodeStruct, j: Int) = (x.nonLeafLeftChild if j == 0 else asNode(x.kvLLRB.mv[j - 1]))
def cutat(x: *btreeNodeStruct, j: Int) = (x.cut[j] if j < x.kvLLRB.mlen else x.end)

# the sequence
def Seq(t: *btreeTreeStruct) =
  0 <= t.N and t.N < 2 ** 62 and
  forall('i', imp(0 <= i and i < t.N, good(t.K[i])), t.K[i]) and
  forall('i, j', imp(0 <= i and i < j and j < t.N, ord(t.K[i]) < ord(t.K[j])), (t.K[i], t.K[j]))

def Top(t: *btreeTreeStruct) =
  t.root != nil and L(t, t.root) and t.root.hgt <= t.N + 1 and t.root.beg == 0 and t.root.end == t.N and t.root.parentNode == nil and
  t.minKeysPerNode >= 2 and t.maxKeysPerNode == 2 * t.minKeysPerNode and t.maxKeysPerNode < 2 ** 61

# every live node by itself
def Own(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(L(t, x),
    0 < x and x < alloctop and x.tree == t and 1 <= x.hgt and x.hgt <= t.root.hgt and
    0 <= x.beg and x.beg <= x.end and x.end <= t.N and iff(x.root, x == t.root) and
    imp(x != t.root, x.hgt <= x.end - x.beg)), x.lv)

def Items(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(L(t, x), x.items == x.end - x.beg), x.lv)

def Res(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(L(t, x) and x.loaded,
    iff(x.leaf, x.hgt == 1) and 0 < x.kvLLRB and x.kvLLRB < alloctop and x.kvLLRB.owner == x and
    0 <= x.kvLLRB.mlen and imp(x.leaf, x.kvLLRB.mlen == x.end - x.beg)), x.lv)

def Occ(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(L(t, x) and x.loaded,
    x.kvLLRB.mlen <= t.maxKeysPerNode and imp(x != t.root, t.minKeysPerNode <= x.kvLLRB.mlen) and
    imp(x == t.root and not x.leaf, 1 <= x.kvLLRB.mlen)), x.lv)

# leaves hold their stretch of the sequence
def Leaves(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct, i', imp(L(t, x) and x.loaded and x.hgt == 1 and 0 <= i and i < x.kvLLRB.mlen,
    x.kvLLRB.mk[i] == t.K[x.beg + i]), x.kvLLRB.mk[i]) and
  forall('x: *btreeNodeStruct, i', imp(L(t, x) and x.loaded and x.hgt == 1 and 0 <= i and i < x.kvLLRB.mlen,
    x.kvLLRB.mv[i] == t.V[x.beg + i]), x.kvLLRB.mv[i])

# inner nodes: children split the stretch where the separators say
def childof(t: *btreeTreeStruct, x: *btreeNodeStruct, c: *btreeNodeStruct, j: Int) =
  c != nil and L(t, c) and c.parentNode == x and c.ix == j and c.hgt == x.hgt - 1 and
  c.beg == (x.beg if j == 0 else x.cut[j - 1]) and c.end == cutat(x, j)

def First(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(inner(t, x), childof(t, x, x.nonLeafLeftChild, 0)), x.nonLeafLeftChild)

def Kids(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct, i', imp(inner(t, x) and 0 <= i and i < x.kvLLRB.mlen,
    isNode(x.kvLLRB.mv[i]) and childof(t, x, asNode(x.kvLLRB.mv[i]), i + 1)), x.kvLLRB.mv[i])

def sep(t: *btreeTreeStruct, x: *btreeNodeStruct, i: Int) =
  0 < x.cut[i] and x.cut[i] < t.N and good(x.kvLLRB.mk[i]) and
  ord(t.K[x.cut[i] - 1]) < ord(x.kvLLRB.mk[i]) and ord(x.kvLLRB.mk[i]) <= ord(t.K[x.cut[i]])

def Seps(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct, i', imp(inner(t, x) and 0 <= i and i < x.kvLLRB.mlen, sep(t, x, i)), x.kvLLRB.mk[i], x.cut[i])

def Parents(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(L(t, x) and x != t.root, parentok(t, x, x.parentNode)), x.parentNode)

def parentok(t: *btreeTreeStruct, x: *btreeNodeStruct, p: *btreeNodeStruct) =
  p != nil and inner(t, p) and p.hgt == x.hgt + 1 and 0 <= x.ix and x.ix <= p.kvLLRB.mlen and
  (p.nonLeafLeftChild == x if x.ix == 0 else p.kvLLRB.mv[x.ix - 1] == boxNode(x)) and
  p.beg <= x.beg and x.end <= p.end

# one node per height holds an item
def Disj(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct, y: *btreeNodeStruct',
    imp(L(t, x) and L(t, y) and x.hgt == y.hgt and x.beg <= y.beg and y.beg < x.end, x == y), (x.hgt, y.hgt))

# the prefix-sum trees
def kid(t: *btreeTreeStruct, x: *btreeNodeStruct) = L(t, x) and x != t.root

def PLeft(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(kid(t, x), pleft(t, x, x.prefixSumLeftChild)), x.prefixSumLeftChild)
def pleft(t: *btreeTreeStruct, x: *btreeNodeStruct, l: *btreeNodeStruct) =
  (x.pb == x.beg if l == nil else
   kid(t, l) and l.parentNode == x.parentNode and l.prefixSumParent == x and l.pb == x.pb and l.pe == x.beg and l.pd == x.pd + 1)

def PRight(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(kid(t, x), pright(t, x, x.prefixSumRightChild)), x.prefixSumRightChild)
def pright(t: *btreeTreeStruct, x: *btreeNodeStruct, r: *btreeNodeStruct) =
  (x.pe == x.end if r == nil else
   kid(t, r) and r.parentNode == x.parentNode and r.prefixSumParent == x and r.pb == x.end and r.pe == x.pe and r.pd == x.pd + 1)

def PUp(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(kid(t, x), pupok(t, x, x.prefixSumParent)), x.prefixSumParent)
def pupok(t: *btreeTreeStruct, x: *btreeNodeStruct, p: *btreeNodeStruct) =
  (x.parentNode.rootPrefixSumChild == x and x.pd == 0 if p == nil else
   kid(t, p) and p.parentNode == x.parentNode and (p.prefixSumLeftChild == x or p.prefixSumRightChild == x) and
   x.pd == p.pd + 1 and p.pb <= x.pb and x.pe <= p.pe)

def PTop(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(inner(t, x), ptop(t, x, x.rootPrefixSumChild)), x.rootPrefixSumChild)
def ptop(t: *btreeTreeStruct, x: *btreeNodeStruct, c: *btreeNodeStruct) =
  c != nil and kid(t, c) and c.parentNode == x and c.prefixSumParent == nil and c.pb == x.beg and c.pe == x.end and c.pd == 0

def PNest(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(kid(t, x), 0 <= x.pb and x.pe <= t.N and x.pb <= x.beg and x.end <= x.pe and x.pd >= 0 and x.prefixSumKVIndex == x.ix - 1), x.pd)
def PDisj(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct, y: *btreeNodeStruct',
    imp(kid(t, x) and kid(t, y) and x.parentNode == y.parentNode and x.pd == y.pd and x.pb <= y.pb and y.pb < x.pe, x == y), (x.pd, y.pd))
def PSum(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(kid(t, x), x.prefixSumItems == x.pe - x.pb), x.prefixSumItems)

# what is kept for the cache
def Tags(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(L(t, x), 0 <= x.btreeNodeCacheTag and x.btreeNodeCacheTag <= 2 and
    imp(not x.loaded, not x.dirty) and imp(t.nodeCache != nil,
    iff(x.loaded, x.btreeNodeCacheTag != 0) and imp(x.loaded, iff(x.dirty, x.btreeNodeCacheTag == 2)))), x.lv)

# unsaved changes: a node is dirty exactly when it has no stored copy, and then so is its parent
def loc(x: *btreeNodeStruct) = mk('staleOnDiskReferenceStruct', x.objectNumber, x.objectOffset, x.objectLength)
def instale(t: *btreeTreeStruct, l: staleOnDiskReferenceStruct) =
  t.staleOnDiskReferencesList != nil and heap('staleMap.set')[t.staleOnDiskReferencesList][l]
def listkept(t: *btreeTreeStruct) = t.staleOnDiskReferencesList == old(t.staleOnDiskReferencesList) or t.staleOnDiskReferencesList >= old(alloctop)
def DLoc(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(L(t, x), iff(x.dirty, x.objectLength == 0) and imp(x.dirty, x.objectNumber == 0)), x.lv)
def DUp(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(kid(t, x) and x.dirty, x.parentNode.dirty), x.dirty)
# stored copies: in use by exactly the clean nodes (and what lies below unloaded ones), otherwise on the stale list
def Use(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(L(t, x) and not x.dirty, t.U[loc(x)] and t.own[loc(x)] == x), x.dirty) and
  forall('l: staleOnDiskReferenceStruct', imp(t.U[l], owner(t, l, asref(t.own[l]))), t.U[l], t.own[l])
def asref(x: *btreeNodeStruct) = x
def owner(t: *btreeTreeStruct, l: staleOnDiskReferenceStruct, x: *btreeNodeStruct) =
  L(t, x) and not x.dirty and (loc(x) == l or not x.loaded)
def Stale(t: *btreeTreeStruct) =
  t.staleOnDiskReferencesList < alloctop and
  forall('l: staleOnDiskReferenceStruct', iff(t.W[l], t.U[l] or instale(t, l)), t.W[l]) and
  forall('l: staleOnDiskReferenceStruct', imp(t.U[l], t.W[l] and not instale(t, l) and l.objectLength > 0 and l.objectNumber != 0), t.U[l])
def Held(t: *btreeTreeStruct) =
  forall('l: staleOnDiskReferenceStruct', imp(instale(t, l), t.W[l]), heap('staleMap.set')[t.staleOnDiskReferencesList][l])
# a clean node and all below it are what was stored
def Disk(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(L(t, x) and not x.dirty,
    t.dn[loc(x)] == x.end - x.beg and t.dh[loc(x)] == x.hgt and iff(t.drt[loc(x)], x == t.root)), x.dirty) and
  forall('x: *btreeNodeStruct, i', imp(L(t, x) and not x.dirty and 0 <= i and i < x.end - x.beg,
    t.dK[loc(x)][i] == t.K[x.beg + i]), t.dK[loc(x)][i]) and
  forall('x: *btreeNodeStruct, i', imp(L(t, x) and not x.dirty and 0 <= i and i < x.end - x.beg,
    t.dV[loc(x)][i] == t.V[x.beg + i]), t.dV[loc(x)][i])

def Str(t: *btreeTreeStruct) = Seq(t) and Top(t) and Own(t) and Res(t) and Occ(t) and Leaves(t) and First(t) and Kids(t) and Seps(t) and Parents(t) and Disj(t)
def Pre(t: *btreeTreeStruct) = PLeft(t) and PRight(t) and PUp(t) and PTop(t) and PNest(t) and PDisj(t)
def Sto(t: *btreeTreeStruct) = DLoc(t) and Use(t) and Stale(t) and Held(t) and Disk(t)
def TI(t: *btreeTreeStruct) = Str(t) and Items(t) and Pre(t) and PSum(t) and Tags(t) and DUp(t) and Sto(t)

def calm(t: *btreeTreeStruct) = t.flt == old(t.flt)
def same(t: *btreeTreeStruct) = t.N == old(t.N) and t.K == old(t.K) and t.V == old(t.V)

# node identity and position survive what only moves data in and out of memory
def Same(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(x < old(alloctop), x.lv == old(x.lv)), x.lv)

func btreeTreeStruct.incCacheHits
  option trusted cache
  option holds tree
func btreeTreeStruct.incCacheMisses
  option trusted cache
  option holds tree
func btreeTreeStruct.markNodeUsed
  option trusted cache
  option holds tree
  requires node != nil and node.tree == tree
  requires listed: imp(tree.nodeCache != nil, node.btreeNodeCacheTag != 0)

func btreeTreeStruct.loadNode
  option trusted yes
  option holds tree
  option allocates
  option makes btreeNodeStruct llrbTreeStruct
  modifies btreeTreeStruct.own at t: t == tree
  requires L(tree, node) and not node.loaded
  requires inv: TI(tree)
  modifies btreeNodeStruct.loaded at x: x == node
  modifies btreeNodeStruct.leaf at x: x == node
  modifies btreeNodeStruct.kvLLRB at x: x == node
  modifies btreeNodeStruct.nonLeafLeftChild at x: x == node
  modifies btreeNodeStruct.rootPrefixSumChild at x: x == node
  modifies btreeNodeStruct.cut at x: x == node
  modifies btreeNodeStruct.btreeNodeCacheTag at x: x == node
  modifies btreeTreeStruct.flt at t: t == tree
  ensures flt: iff(err == 0, tree.flt == old(tree.flt))
  ensures inv: TI(tree)
  ensures keep: L(tree, node)
  ensures kids: forall('x: *btreeNodeStruct', imp(L(tree, x) and x >= old(alloctop), x.parentNode == node and not x.loaded), x.lv)
  ensures own: forall('l: staleOnDiskReferenceStruct', imp(tree.U[l], tree.own[l] == old(tree.own[l]) or old(tree.own[l]) == node and asref(tree.own[l]).parentNode == node), tree.own[l])
  ensures ok: imp(err == 0, node.loaded)
  ensures failed: imp(err != 0, not node.loaded)

func btreeTreeStruct.Len
  option noframe
  ensures same: same(tree)
  ensures nofail: imp(err == 0, numberOfItems == tree.N)
  ensures clean: iff(err == 0, calm(tree))

func btreeTreeStruct.GetByIndex
  option noframe
  ensures same: same(tree)
  ensures range: imp(err == 0, iff(ok, 0 <= index and index < tree.N))
  ensures outside: imp(not (0 <= index and index < tree.N), err == 0)
  ensures pair: imp(ok, key == tree.K[index] and value == tree.V[index])
  ensures clean: iff(err == 0, calm(tree))
  loop 1
    invariant inv: TI(tree) and calm(tree)
    invariant node: L(tree, node) and 0 <= index and index < tree.N
    invariant at: 0 <= netIndex and netIndex < node.end - node.beg and node.beg + netIndex == index
    decreases node.hgt
  loop 2
    invariant inv: TI(tree) and calm(tree)
    invariant node: kid(tree, node) and 0 <= index and index < tree.N and node.hgt == hgt0 - 1
    invariant at: 0 <= netIndex and netIndex < node.pe - node.pb and node.pb + netIndex == index
    let hgt0 = node.hgt + 1
    decreases node.pe - node.pb

# search by key: everything left of the node is smaller, everything right of it larger
def around(t: *btreeTreeStruct, x: *btreeNodeStruct, key: Key) =
  imp(0 < x.beg, ord(t.K[x.beg - 1]) < ord(key)) and imp(x.end < t.N, ord(key) < ord(t.K[x.end]))
def rankat(t: *btreeTreeStruct, key: Key, p: Int) =
  0 <= p and p <= t.N and imp(0 < p, ord(t.K[p - 1]) < ord(key)) and imp(p < t.N, ord(key) <= ord(t.K[p]))
def hit(t: *btreeTreeStruct, key: Key, p: Int) = p < t.N and ord(t.K[p]) == ord(key)
# the leaf's own position, spelled out
def leafrank(t: *btreeTreeStruct, x: *btreeNodeStruct, r: Int) =
  0 <= r and r <= x.kvLLRB.mlen and imp(0 < r, x.kvLLRB.mk[r - 1] == t.K[x.beg + r - 1]) and
  imp(r < x.kvLLRB.mlen, x.kvLLRB.mk[r] == t.K[x.beg + r] and x.kvLLRB.mv[r] == t.V[x.beg + r])

def up(c: *btreeNodeStruct, k: Int) = upnode(pup(heap('btreeNodeStruct.prefixSumParent'), c, k))
def upnode(c: *btreeNodeStruct) = c
def onpath(t: *btreeTreeStruct, x: *btreeNodeStruct, c: *btreeNodeStruct) = kid(t, c) and c.parentNode == x and c.hgt == x.hgt - 1
def turns(s: [] , c: *btreeNodeStruct) =
  forall('k', imp(0 <= k and k < len(s), iff(s[k], up(c, k + 1).prefixSumLeftChild != up(c, k)) and up(c, k + 1) == up(c, k).prefixSumParent), s[k])

def leafrankk(t: *btreeTreeStruct, x: *btreeNodeStruct, r: Int) =
  0 <= r and r <= x.kvLLRB.mlen and imp(0 < r, x.kvLLRB.mk[r - 1] == t.K[x.beg + r - 1]) and
  imp(r < x.kvLLRB.mlen, x.kvLLRB.mk[r] == t.K[x.beg + r])

func btreeTreeStruct.GetByKey
  option noframe
  exitlet leaf = node
  exitlet r = llrb_r
  exitlet p = leaf.beg + r
  ensures same: same(tree)
  assert leaf: imp(err == 0, leafrank(tree, leaf, r))
  ensures rank: imp(err == 0 and tree.N > 0, rankat(tree, key, p))
  ensures found: imp(err == 0, iff(ok, tree.N > 0 and hit(tree, key, p)))
  ensures pair: imp(err == 0 and ok, value == tree.V[p])
  ensures failed: imp(err != 0, not ok)
  ensures refused: iff(err == 0, calm(tree) and (tree.N == 0 or good(key)))
  loop 1
    invariant inv: TI(tree) and calm(tree)
    invariant node: L(tree, node)
    invariant at: around(tree, node, key)
    decreases node.hgt

func btreeTreeStruct.BisectLeft
  option noframe
  exitlet leaf = node
  exitlet r = llrb_r
  exitlet p = leaf.beg + r
  ensures same: same(tree)
  assert leaf: imp(err == 0, leafrank(tree, leaf, r))
  ensures rank: imp(err == 0 and tree.N > 0, rankat(tree, key, p))
  ensures found: imp(err == 0, iff(found, tree.N > 0 and hit(tree, key, p)))
  ensures index: imp(err == 0, index == (p if found else p - 1))
  ensures empty: imp(err == 0 and tree.N == 0, p == 0)
  ensures refused: iff(err == 0, calm(tree) and (tree.N == 0 or good(key)))
  loop 1
    invariant inv: TI(tree) and calm(tree)
    invariant node: L(tree, node)
    invariant at: around(tree, node, key)
    invariant delta: indexDelta == node.beg
    decreases node.hgt
  loop 2
    invariant inv: TI(tree) and calm(tree)
    invariant up: 0 <= len(rightChildBoolStack) and childNode == up(c0, len(rightChildBoolStack))
    invariant here: onpath(tree, node, childNode) and childNode.pd == c0.pd - len(rightChildBoolStack) and childNode.prefixSumParent != nil
    invariant turns: turns(rightChildBoolStack, c0)
    invariant path: forall('k', imp(0 <= k and k <= len(rightChildBoolStack), onpath(tree, node, up(c0, k))), up(c0, k))
    let c0 = childNode
    decreases childNode.pd
  loop 3
    invariant inv: TI(tree) and calm(tree)
    invariant at: -1 <= i and i < len(rightChildBoolStack) and childNode == up(c0, i + 1)
    invariant turns: turns(rightChildBoolStack, c0)
    invariant path: forall('k', imp(0 <= k and k <= len(rightChildBoolStack), onpath(tree, node, up(c0, k))), up(c0, k))
    invariant delta: indexDelta == childNode.pb
    invariant start: onpath(tree, node, c0) and around(tree, c0, key)
    decreases i + 1

func btreeTreeStruct.BisectRight
  option noframe
  exitlet leaf = node
  exitlet r = llrb_r
  exitlet p = leaf.beg + r
  ensures same: same(tree)
  assert leaf: imp(err == 0, leafrank(tree, leaf, r))
  ensures rank: imp(err == 0 and tree.N > 0, rankat(tree, key, p))
  ensures found: imp(err == 0, iff(found, tree.N > 0 and hit(tree, key, p)))
  ensures index: imp(err == 0, index == p)
  ensures empty: imp(err == 0 and tree.N == 0, p == 0)
  ensures refused: iff(err == 0, calm(tree) and (tree.N == 0 or good(key)))
  loop 1
    invariant inv: TI(tree) and calm(tree)
    invariant node: L(tree, node)
    invariant at: around(tree, node, key)
    invariant delta: indexDelta == node.beg
    decreases node.hgt
  loop 2
    invariant inv: TI(tree) and calm(tree)
    invariant up: 0 <= len(rightChildBoolStack) and childNode == up(c0, len(rightChildBoolStack))
    invariant here: onpath(tree, node, childNode) and childNode.pd == c0.pd - len(rightChildBoolStack) and childNode.prefixSumParent != nil
    invariant turns: turns(rightChildBoolStack, c0)
    invariant path: forall('k', imp(0 <= k and k <= len(rightChildBoolStack), onpath(tree, node, up(c0, k))), up(c0, k))
    let c0 = childNode
    decreases childNode.pd
  loop 3
    invariant inv: TI(tree) and calm(tree)
    invariant at: -1 <= i and i < len(rightChildBoolStack) and childNode == up(c0, i + 1)
    invariant turns: turns(rightChildBoolStack, c0)
    invariant path: forall('k', imp(0 <= k and k <= len(rightChildBoolStack), onpath(tree, node, up(c0, k))), up(c0, k))
    invariant delta: indexDelta == childNode.pb
    invariant start: onpath(tree, node, c0) and around(tree, c0, key)
    decreases i + 1

func btreeTreeStruct.FetchDimensionsReport
  option noframe
  ensures same: same(tree)
  ensures limits: imp(err == 0, dimensionsReport.MinKeysPerNode == tree.minKeysPerNode and
                                dimensionsReport.MaxKeysPerNode == tree.maxKeysPerNode)
  ensures items: imp(err == 0, dimensionsReport.Items == tree.N)
  ensures height: imp(err == 0, dimensionsReport.Height == tree.root.hgt)
  ensures clean: iff(err == 0, calm(tree))
  loop 1
    invariant inv: TI(tree) and calm(tree)
    invariant node: L(tree, node) and (node == tree.root or node.hgt < tree.root.hgt)
    invariant so: imp(node != tree.root, dimensionsReport.MinKeysPerNode == tree.minKeysPerNode and
      dimensionsReport.MaxKeysPerNode == tree.maxKeysPerNode and dimensionsReport.Items == tree.N and
      dimensionsReport.Height == tree.root.hgt - node.hgt + 1)
    decreases node.hgt

# ------------------------------------------------------------ marking
func btreeTreeStruct.placeNodeOnStaleOnDiskReferenceList
  option holds tree
  option allocates
  requires node != nil
  requires list: tree.staleOnDiskReferencesList < alloctop
  modifies btreeTreeStruct.staleOnDiskReferencesList at t: t == tree
  modifies staleMap.set at m: m == tree.staleOnDiskReferencesList
  modifies btreeNodeStruct.objectNumber at x: x == node
  modifies btreeNodeStruct.objectOffset at x: x == node
  modifies btreeNodeStruct.objectLength at x: x == node
  ensures none: node.objectLength == 0 and node.objectNumber == (0 if old(node.objectLength) != 0 else old(node.objectNumber))
  ensures list: tree.staleOnDiskReferencesList < alloctop and listkept(tree)
  ensures stale: forall('l: staleOnDiskReferenceStruct', iff(instale(tree, l), old(instale(tree, l)) or old(node.objectLength) != 0 and l == old(loc(node))),
    heap('staleMap.set')[tree.staleOnDiskReferencesList][l])
  ensures stale2: forall('l: staleOnDiskReferenceStruct', iff(instale(tree, l), old(instale(tree, l)) or old(node.objectLength) != 0 and l == old(loc(node))),
    tree.W[l])

func btreeTreeStruct.markNodeDirty
  option holds tree
  option allocates
  option nilfree cache
  requires node != nil and 0 <= node.btreeNodeCacheTag and node.btreeNodeCacheTag <= 2
  modifies btreeNodeStruct.btreeNodeCacheTag at x: x == node
  modifies btreeNodeStruct.nextBTreeNode
  modifies btreeNodeStruct.prevBTreeNode
  modifies btreeNodeCacheStruct.cleanLRUHead
  modifies btreeNodeCacheStruct.cleanLRUTail
  modifies btreeNodeCacheStruct.cleanLRUItems
  modifies btreeNodeCacheStruct.dirtyLRUHead
  modifies btreeNodeCacheStruct.dirtyLRUTail
  modifies btreeNodeCacheStruct.dirtyLRUItems
  modifies btreeNodeStruct.dirty at x: x == node
  ensures flag: node.dirty
  ensures tag: 0 <= node.btreeNodeCacheTag and node.btreeNodeCacheTag <= 2 and imp(tree.nodeCache != nil, node.btreeNodeCacheTag == 2)
  requires list: tree.staleOnDiskReferencesList < alloctop
  modifies btreeTreeStruct.staleOnDiskReferencesList at t: t == tree
  modifies staleMap.set at m: m == tree.staleOnDiskReferencesList
  modifies btreeNodeStruct.objectNumber at x: x == node
  modifies btreeNodeStruct.objectOffset at x: x == node
  modifies btreeNodeStruct.objectLength at x: x == node
  modifies btreeTreeStruct.U at t: t == tree
  set tree.U = old(store(tree.U, loc(node), False) if node.objectLength != 0 else tree.U)
  ensures none: node.objectLength == 0 and node.objectNumber == (0 if old(node.objectLength) != 0 else old(node.objectNumber))
  ensures list: tree.staleOnDiskReferencesList < alloctop and listkept(tree)
  ensures stale: forall('l: staleOnDiskReferenceStruct', iff(instale(tree, l), old(instale(tree, l)) or old(node.objectLength) != 0 and l == old(loc(node))),
    heap('staleMap.set')[tree.staleOnDiskReferencesList][l])
  ensures stale2: forall('l: staleOnDiskReferenceStruct', iff(instale(tree, l), old(instale(tree, l)) or old(node.objectLength) != 0 and l == old(loc(node))),
    tree.W[l])

func btreeTreeStruct.markNodeToBeDiscarded
  option holds tree
  option allocates
  option nilfree cache
  requires node != nil and 0 <= node.btreeNodeCacheTag and node.btreeNodeCacheTag <= 2
  requires listed: imp(tree.nodeCache != nil, node.btreeNodeCacheTag != 0)
  modifies btreeNodeStruct.btreeNodeCacheTag at x: x == node
  modifies btreeNodeStruct.nextBTreeNode
  modifies btreeNodeStruct.prevBTreeNode
  modifies btreeNodeCacheStruct.cleanLRUHead
  modifies btreeNodeCacheStruct.cleanLRUTail
  modifies btreeNodeCacheStruct.cleanLRUItems
  modifies btreeNodeCacheStruct.dirtyLRUHead
  modifies btreeNodeCacheStruct.dirtyLRUTail
  modifies btreeNodeCacheStruct.dirtyLRUItems
  ensures tag: 0 <= node.btreeNodeCacheTag and node.btreeNodeCacheTag <= 2 and imp(tree.nodeCache != nil, node.btreeNodeCacheTag == 0)
  requires list: tree.staleOnDiskReferencesList < alloctop
  modifies btreeTreeStruct.staleOnDiskReferencesList at t: t == tree
  modifies staleMap.set at m: m == tree.staleOnDiskReferencesList
  modifies btreeNodeStruct.objectNumber at x: x == node
  modifies btreeNodeStruct.objectOffset at x: x == node
  modifies btreeNodeStruct.objectLength at x: x == node
  modifies btreeTreeStruct.U at t: t == tree
  set tree.U = old(store(tree.U, loc(node), False) if node.objectLength != 0 else tree.U)
  ensures none: node.objectLength == 0 and node.objectNumber == (0 if old(node.objectLength) != 0 else old(node.objectNumber))
  ensures list: tree.staleOnDiskReferencesList < alloctop and listkept(tree)
  ensures stale: forall('l: staleOnDiskReferenceStruct', iff(instale(tree, l), old(instale(tree, l)) or old(node.objectLength) != 0 and l == old(loc(node))),
    heap('staleMap.set')[tree.staleOnDiskReferencesList][l])
  ensures stale2: forall('l: staleOnDiskReferenceStruct', iff(instale(tree, l), old(instale(tree, l)) or old(node.objectLength) != 0 and l == old(loc(node))),
    tree.W[l])

func btreeTreeStruct.markNodeClean
  option holds tree
  option allocates
  option nilfree cache
  requires node != nil and 0 <= node.btreeNodeCacheTag and node.btreeNodeCacheTag <= 2
  modifies btreeNodeStruct.btreeNodeCacheTag at x: x == node
  modifies btreeNodeStruct.nextBTreeNode
  modifies btreeNodeStruct.prevBTreeNode
  modifies btreeNodeCacheStruct.cleanLRUHead
  modifies btreeNodeCacheStruct.cleanLRUTail
  modifies btreeNodeCacheStruct.cleanLRUItems
  modifies btreeNodeCacheStruct.dirtyLRUHead
  modifies btreeNodeCacheStruct.dirtyLRUTail
  modifies btreeNodeCacheStruct.dirtyLRUItems
  modifies btreeNodeStruct.dirty at x: x == node
  ensures flag: not node.dirty
  modifies btreeNodeCacheStruct.drainerActive
  ensures tag: 0 <= node.btreeNodeCacheTag and node.btreeNodeCacheTag <= 2 and imp(tree.nodeCache != nil, node.btreeNodeCacheTag == 1)

func btreeTreeStruct.markNodeEvicted
  option holds tree
  option allocates
  option nilfree cache
  requires node != nil and 0 <= node.btreeNodeCacheTag and node.btreeNodeCacheTag <= 2
  requires listed: imp(tree.nodeCache != nil, node.btreeNodeCacheTag != 0)
  modifies btreeNodeStruct.btreeNodeCacheTag at x: x == node
  modifies btreeNodeStruct.nextBTreeNode
  modifies btreeNodeStruct.prevBTreeNode
  modifies btreeNodeCacheStruct.cleanLRUHead
  modifies btreeNodeCacheStruct.cleanLRUTail
  modifies btreeNodeCacheStruct.cleanLRUItems
  modifies btreeNodeCacheStruct.dirtyLRUHead
  modifies btreeNodeCacheStruct.dirtyLRUTail
  modifies btreeNodeCacheStruct.dirtyLRUItems
  ensures tag: 0 <= node.btreeNodeCacheTag and node.btreeNodeCacheTag <= 2 and imp(tree.nodeCache != nil, node.btreeNodeCacheTag == 0)

func btreeTreeStruct.initNodeAsEvicted
  option trusted cache
  option holds tree
  requires node != nil
  requires unlisted: imp(tree.nodeCache != nil, node.btreeNodeCacheTag == 0)
  modifies btreeNodeStruct.nextBTreeNode
  modifies btreeNodeStruct.prevBTreeNode

func btreeTreeStruct.touchLoadedNodeToRoot
  option holds tree
  option allocates
  requires inv: TI(tree)
  requires node: L(tree, node) and node.loaded and node.hgt == 1
  modifies btreeNodeStruct.dirty at x: L(tree, x)
  modifies btreeNodeStruct.btreeNodeCacheTag at x: L(tree, x)
  modifies btreeNodeStruct.nextBTreeNode
  modifies btreeNodeStruct.prevBTreeNode
  modifies btreeNodeCacheStruct.cleanLRUHead
  modifies btreeNodeCacheStruct.cleanLRUTail
  modifies btreeNodeCacheStruct.cleanLRUItems
  modifies btreeNodeCacheStruct.dirtyLRUHead
  modifies btreeNodeCacheStruct.dirtyLRUTail
  modifies btreeNodeCacheStruct.dirtyLRUItems
  modifies btreeTreeStruct.staleOnDiskReferencesList at t: t == tree
  modifies staleMap.set at m: m == tree.staleOnDiskReferencesList
  modifies btreeNodeStruct.objectNumber at x: L(tree, x)
  modifies btreeNodeStruct.objectOffset at x: L(tree, x)
  modifies btreeNodeStruct.objectLength at x: L(tree, x)
  modifies btreeTreeStruct.U at t: t == tree
  ensures inv: TI(tree)
  ensures dirty: node.dirty
  ensures cover: forall('x: *btreeNodeStruct', imp(L(tree, x) and x.beg < node.end and node.beg < x.end, x.dirty), x.dirty)
  loop 1
    invariant cover: forall('x: *btreeNodeStruct', imp(L(tree, x) and x.hgt < node.hgt and x.beg < node0.end and node0.beg < x.end, x.dirty), x.dirty)
    invariant span: L(tree, node0) and node.beg <= node0.beg and node0.end <= node.end
    invariant inv: Str(tree) and Items(tree) and Pre(tree) and PSum(tree) and Tags(tree) and Sto(tree)
    invariant up: forall('x: *btreeNodeStruct', imp(kid(tree, x) and x.dirty, x.parentNode.dirty or x.parentNode == node), x.dirty)
    invariant node: L(tree, node) and node.loaded
    invariant list: listkept(tree)
    invariant done: node0.dirty or node == node0
    let node0 = node
    decreases tree.root.hgt - node.hgt

func btreeTreeStruct.PatchByIndex
  option noframe
  at llrbTreeStruct.PatchByIndex tree.V = store(tree.V, index, value)
  ensures seq: tree.N == old(tree.N) and tree.K == old(tree.K)
  ensures range: imp(err == 0, iff(ok, 0 <= index and index < tree.N))
  ensures patched: imp(err == 0 and ok, tree.V == store(old(tree.V), index, value))
  ensures rejected: imp(err != 0 or not ok, tree.V == old(tree.V))
  ensures outside: imp(not (0 <= index and index < tree.N), err == 0)
  ensures clean: iff(err == 0, calm(tree))
  loop 1
    invariant inv: TI(tree) and calm(tree)
    invariant node: L(tree, node) and 0 <= index and index < tree.N
    invariant at: 0 <= netIndex and netIndex < node.end - node.beg and node.beg + netIndex == index
    decreases node.hgt
  loop 2
    invariant inv: TI(tree) and calm(tree)
    invariant node: kid(tree, node) and 0 <= index and index < tree.N and node.hgt == hgt0 - 1
    invariant at: 0 <= netIndex and netIndex < node.pe - node.pb and node.pb + netIndex == index
    let hgt0 = node.hgt + 1
    decreases node.pe - node.pb

func btreeTreeStruct.PatchByKey
  option noframe
  exitlet leaf = node
  exitlet r = llrb_r
  exitlet p = leaf.beg + r
  at llrbTreeStruct.PatchByKey tree.V = (store(tree.V, node.beg + llrb_r, value) if res_ok else tree.V)
  ensures seq: tree.N == old(tree.N) and tree.K == old(tree.K)
  assert leaf: imp(err == 0, leafrankk(tree, leaf, r))
  ensures rank: imp(err == 0 and tree.N > 0, rankat(tree, key, p))
  ensures found: imp(err == 0, iff(ok, tree.N > 0 and hit(tree, key, p)))
  ensures patched: imp(err == 0 and ok, tree.V == store(old(tree.V), p, value))
  ensures rejected: imp(err != 0 or not ok, tree.V == old(tree.V) and not ok)
  ensures refused: iff(err == 0, calm(tree) and (tree.N == 0 or good(key)))
  loop 1
    invariant inv: TI(tree) and calm(tree)
    invariant node: L(tree, node)
    invariant at: around(tree, node, key)
    decreases node.hgt

func btreeTreeStruct.TouchItem
  option noframe
  exitlet leaf = node
  ensures same: same(tree)
  ensures outside: imp(thisItemIndexToTouch0 >= tree.N, nextItemIndexToTouch == 0 and err == 0)
  ensures leaf: imp(err == 0 and thisItemIndexToTouch0 < tree.N, L(tree, leaf) and leaf.loaded and leaf.hgt == 1 and
    leaf.beg <= thisItemIndexToTouch0 and thisItemIndexToTouch0 < leaf.end)
  ensures touched: imp(err == 0 and thisItemIndexToTouch0 < tree.N, leaf.dirty)
  ensures above: DUp(tree)
  ensures next: imp(err == 0 and thisItemIndexToTouch0 < tree.N, nextItemIndexToTouch == leaf.end)
  ensures failed: imp(err != 0, nextItemIndexToTouch == 0)
  ensures clean: iff(err == 0, calm(tree))
  let thisItemIndexToTouch0 = thisItemIndexToTouch
  loop 1
    invariant inv: TI(tree) and calm(tree)
    invariant node: L(tree, node) and thisItemIndexToTouch == thisItemIndexToTouch0 and thisItemIndexToTouch0 < tree.N
    invariant at: 0 <= netIndex and netIndex < node.end - node.beg and node.beg + netIndex == thisItemIndexToTouch
    decreases node.hgt
  loop 2
    invariant inv: TI(tree) and calm(tree)
    invariant node: kid(tree, node) and thisItemIndexToTouch == thisItemIndexToTouch0 and thisItemIndexToTouch0 < tree.N and node.hgt == hgt0 - 1
    invariant at: 0 <= netIndex and netIndex < node.pe - node.pb and node.pb + netIndex == thisItemIndexToTouch
    let hgt0 = node.hgt + 1
    decreases node.pe - node.pb

# ------------------------------------------------------------ whole subtrees
def below(x: *btreeNodeStruct, y: *btreeNodeStruct) =
  x == y or x.lv == y.lv and x.hgt < y.hgt and y.beg <= x.beg and x.beg < y.end
def overlap(x: *btreeNodeStruct, y: *btreeNodeStruct) = x.beg < y.end and y.beg < x.end

# what overlaps a node from below lies within it, is clean if it is, and is not there if it is not loaded
derive Below(t: *btreeTreeStruct)
  given Str(t) and Tags(t) and DUp(t)
  pairs x: *btreeNodeStruct, y: *btreeNodeStruct
  hyp L(t, x) and L(t, y) and x.hgt <= y.hgt and overlap(x, y)
  measure y.hgt - x.hgt
  hint x.parentNode
  pattern x.hgt, y.hgt
  claim y.beg <= x.beg and x.end <= y.end and imp(not y.dirty, not x.dirty) and imp(not y.loaded, x == y)

func btreeTreeStruct.touchNode
  option holds tree
  option allocates
  option makes btreeNodeStruct llrbTreeStruct
  requires inv: TI(tree)
  requires node: L(tree, node) and (node == tree.root or node.parentNode.dirty)
  modifies btreeNodeStruct.loaded at x: below(x, node) and not x.loaded
  modifies btreeNodeStruct.leaf at x: below(x, node) and not x.loaded
  modifies btreeNodeStruct.kvLLRB at x: below(x, node) and not x.loaded
  modifies btreeNodeStruct.nonLeafLeftChild at x: below(x, node) and not x.loaded
  modifies btreeNodeStruct.rootPrefixSumChild at x: below(x, node) and not x.loaded
  modifies btreeNodeStruct.cut at x: below(x, node) and not x.loaded
  modifies btreeNodeStruct.nextBTreeNode
  modifies btreeNodeStruct.prevBTreeNode
  modifies btreeNodeCacheStruct.cleanLRUHead
  modifies btreeNodeCacheStruct.cleanLRUTail
  modifies btreeNodeCacheStruct.cleanLRUItems
  modifies btreeNodeCacheStruct.dirtyLRUHead
  modifies btreeNodeCacheStruct.dirtyLRUTail
  modifies btreeNodeCacheStruct.dirtyLRUItems
  modifies btreeNodeStruct.dirty at x: below(x, node)
  modifies btreeNodeStruct.btreeNodeCacheTag at x: below(x, node)
  modifies btreeNodeStruct.objectNumber at x: below(x, node)
  modifies btreeNodeStruct.objectOffset at x: below(x, node)
  modifies btreeNodeStruct.objectLength at x: below(x, node)
  modifies btreeTreeStruct.staleOnDiskReferencesList at t: t == tree
  modifies staleMap.set at m: m == tree.staleOnDiskReferencesList
  modifies btreeTreeStruct.U at t: t == tree
  modifies btreeTreeStruct.own at t: t == tree
  modifies btreeTreeStruct.flt at t: t == tree
  modifies btreeNodeCacheStruct.drainerActive
  ensures inv: TI(tree)
  ensures list: listkept(tree)
  ensures touched: imp(err == 0, forall('x: *btreeNodeStruct', imp(L(tree, x) and below(x, node), x.dirty), x.dirty))
  ensures new: forall('x: *btreeNodeStruct', imp(L(tree, x) and x >= old(alloctop), below(x, node)), x.lv)
  ensures still: forall('x: *btreeNodeStruct', imp(L(tree, x) and x < old(alloctop) and old(x.dirty), x.dirty), x.dirty)
  ensures clean: iff(err == 0, calm(tree))
  decreases node.hgt
  loop 1
    invariant inv: TI(tree) and calm(tree) and listkept(tree)
    invariant at: 0 <= i and i <= numIndices and numIndices == node.kvLLRB.mlen
    invariant node: inner(tree, node) and node.dirty
    invariant done: forall('x: *btreeNodeStruct', imp(L(tree, x) and x.hgt < node.hgt and node.beg <= x.beg and x.beg < cutat(node, i), x.dirty), x.dirty)
    invariant new: forall('x: *btreeNodeStruct', imp(L(tree, x) and x >= old(alloctop), below(x, node)), x.lv)
    invariant still: forall('x: *btreeNodeStruct', imp(L(tree, x) and x < old(alloctop) and old(x.dirty), x.dirty), x.dirty)
    decreases numIndices - i

func btreeTreeStruct.Touch
  option noframe
  ensures same: same(tree)
  ensures touched: imp(err == 0, forall('x: *btreeNodeStruct', imp(L(tree, x), x.dirty), x.dirty))
  ensures clean: iff(err == 0, calm(tree))

trusted BPlusTreeCallbacks.DiscardNode
  requires released: instale(tree, mk('staleOnDiskReferenceStruct', objectNumber, objectOffset, objectLength))
  requires once: tree.W[mk('staleOnDiskReferenceStruct', objectNumber, objectOffset, objectLength)]
  requires unused: not tree.U[mk('staleOnDiskReferenceStruct', objectNumber, objectOffset, objectLength)]
  modifies btreeTreeStruct.W at t: t == tree
  modifies btreeTreeStruct.flt at t: t == tree
  ensures gone: tree.W == (store(old(tree.W), mk('staleOnDiskReferenceStruct', objectNumber, objectOffset, objectLength), False) if err == 0 else old(tree.W))
  ensures clean: iff(err == 0, calm(tree))

func btreeTreeStruct.pruneWhileLocked
  option holds tree
  requires inv: TI(tree)
  modifies btreeTreeStruct.W at t: t == tree
  modifies btreeTreeStruct.flt at t: t == tree
  modifies btreeTreeStruct.staleOnDiskReferencesList at t: t == tree
  modifies staleMap.set at m: m == tree.staleOnDiskReferencesList
  ensures inv: TI(tree)
  ensures none: imp(err == 0, forall('l: staleOnDiskReferenceStruct', not instale(tree, l), tree.W[l], tree.U[l]))
  ensures left: forall('l: staleOnDiskReferenceStruct', imp(instale(tree, l), old(instale(tree, l))), tree.W[l])
  ensures clean: iff(err == 0, calm(tree))
  loop 1
    invariant inv: TI(tree) and calm(tree)
    invariant list: tree.staleOnDiskReferencesList == old(tree.staleOnDiskReferencesList) and tree.staleOnDiskReferencesList != nil
    invariant done: forall('l: staleOnDiskReferenceStruct', imp(visited[l], not instale(tree, l)), heap('staleMap.set')[tree.staleOnDiskReferencesList][l])
    invariant left: forall('l: staleOnDiskReferenceStruct', imp(instale(tree, l), old(instale(tree, l))), tree.W[l])

func btreeTreeStruct.Prune
  option noframe
  ensures same: same(tree)
  ensures released: imp(err == 0, forall('l: staleOnDiskReferenceStruct', not instale(tree, l) and iff(tree.W[l], tree.U[l]), tree.W[l], tree.U[l]))
  ensures clean: iff(err == 0, calm(tree))

func btreeTreeStruct.discardNode
  option holds tree
  option allocates
  requires inv: Str(tree)
  requires node: L(tree, node)
  requires loaded: forall('x: *btreeNodeStruct', imp(L(tree, x), x.loaded and x.dirty and x.objectLength == 0 and 0 <= x.btreeNodeCacheTag and x.btreeNodeCacheTag <= 2), x.lv)
  requires listed: imp(tree.nodeCache != nil, forall('x: *btreeNodeStruct', imp(L(tree, x) and below(x, node), x.btreeNodeCacheTag != 0), x.lv))
  requires list: tree.staleOnDiskReferencesList < alloctop
  modifies btreeNodeStruct.nextBTreeNode
  modifies btreeNodeStruct.prevBTreeNode
  modifies btreeNodeCacheStruct.cleanLRUHead
  modifies btreeNodeCacheStruct.cleanLRUTail
  modifies btreeNodeCacheStruct.cleanLRUItems
  modifies btreeNodeCacheStruct.dirtyLRUHead
  modifies btreeNodeCacheStruct.dirtyLRUTail
  modifies btreeNodeCacheStruct.dirtyLRUItems
  modifies btreeNodeStruct.btreeNodeCacheTag at x: below(x, node)
  modifies btreeTreeStruct.staleOnDiskReferencesList at t: t == tree
  modifies staleMap.set at m: m == tree.staleOnDiskReferencesList
  modifies btreeNodeStruct.objectNumber at x: below(x, node)
  modifies btreeNodeStruct.objectOffset at x: below(x, node)
  modifies btreeNodeStruct.objectLength at x: below(x, node)
  modifies btreeTreeStruct.U at t: t == tree
  ensures ok: err == 0
  ensures empty: forall('x: *btreeNodeStruct', imp(L(tree, x), x.objectLength == 0 and 0 <= x.btreeNodeCacheTag and x.btreeNodeCacheTag <= 2), x.lv)
  ensures list: tree.staleOnDiskReferencesList < alloctop and listkept(tree)
  ensures stale: forall('l: staleOnDiskReferenceStruct', iff(instale(tree, l), old(instale(tree, l))), tree.W[l])
  ensures gone: imp(tree.nodeCache != nil, forall('x: *btreeNodeStruct', imp(L(tree, x) and below(x, node), x.btreeNodeCacheTag == 0), x.lv))
  decreases node.hgt
  loop 1
    invariant at: 0 <= i and i <= numIndices and numIndices == node.kvLLRB.mlen and inner(tree, node)
    invariant empty: forall('x: *btreeNodeStruct', imp(L(tree, x), x.objectLength == 0 and 0 <= x.btreeNodeCacheTag and x.btreeNodeCacheTag <= 2), x.lv)
    invariant list: tree.staleOnDiskReferencesList < alloctop and listkept(tree)
    invariant stale: forall('l: staleOnDiskReferenceStruct', iff(instale(tree, l), old(instale(tree, l))), tree.W[l])
    invariant listed: imp(tree.nodeCache != nil, node.btreeNodeCacheTag != 0 and forall('x: *btreeNodeStruct', imp(L(tree, x) and x.hgt < node.hgt and node.beg <= x.beg and x.beg < node.end,
      iff(x.btreeNodeCacheTag == 0, x.beg < cutat(node, i))), x.lv))
    decreases numIndices - i

func btreeTreeStruct.Discard
  option noframe
  option final yes
  exitlet root0 = root0
  let root0 = tree.root
  ensures same: same(tree)
  ensures failed: imp(err != 0, tree.root != nil and not calm(tree))
  ensures released: imp(err == 0, forall('l: staleOnDiskReferenceStruct', not tree.W[l], tree.W[l]))
  ensures gone: imp(err == 0 and old(tree.nodeCache) != nil, forall('x: *btreeNodeStruct', imp(L(tree, x), x.btreeNodeCacheTag == 0), x.lv))

func btreeTreeStruct.FetchLocation
  option noframe
  ensures same: same(tree)
  ensures root: mk('staleOnDiskReferenceStruct', rootObjectNumber, rootObjectOffset, rootObjectLength) == loc(tree.root)
  ensures stored: imp(not tree.root.dirty, tree.dn[loc(tree.root)] == tree.N and tree.drt[loc(tree.root)])

def onlyadds(t: *btreeTreeStruct) =
  forall('l: staleOnDiskReferenceStruct', imp(old(t.W[l]), t.W[l] and t.dn[l] == old(t.dn[l]) and t.dh[l] == old(t.dh[l]) and
    t.drt[l] == old(t.drt[l]) and t.dK[l] == old(t.dK[l]) and t.dV[l] == old(t.dV[l])), t.W[l])
def staleok(t: *btreeTreeStruct) = t.staleOnDiskReferencesList == old(t.staleOnDiskReferencesList)

func btreeTreeStruct.postNode
  option trusted yes
  option holds tree
  option allocates
  requires inv: TI(tree)
  requires node: L(tree, node) and node.loaded
  requires kids: forall('x: *btreeNodeStruct', imp(kid(tree, x) and x.parentNode == node, not x.dirty), x.parentNode)
  modifies btreeNodeStruct.nextBTreeNode
  modifies btreeNodeStruct.prevBTreeNode
  modifies btreeNodeCacheStruct.cleanLRUHead
  modifies btreeNodeCacheStruct.cleanLRUTail
  modifies btreeNodeCacheStruct.cleanLRUItems
  modifies btreeNodeCacheStruct.dirtyLRUHead
  modifies btreeNodeCacheStruct.dirtyLRUTail
  modifies btreeNodeCacheStruct.dirtyLRUItems
  modifies btreeNodeCacheStruct.drainerActive
  modifies btreeNodeStruct.dirty at x: x == node
  modifies btreeNodeStruct.btreeNodeCacheTag at x: x == node
  modifies btreeNodeStruct.objectNumber at x: x == node
  modifies btreeNodeStruct.objectOffset at x: x == node
  modifies btreeNodeStruct.objectLength at x: x == node
  modifies btreeTreeStruct.W at t: t == tree
  modifies btreeTreeStruct.U at t: t == tree
  modifies btreeTreeStruct.own at t: t == tree
  modifies btreeTreeStruct.dh at t: t == tree
  modifies btreeTreeStruct.dn at t: t == tree
  modifies btreeTreeStruct.drt at t: t == tree
  modifies btreeTreeStruct.dK at t: t == tree
  modifies btreeTreeStruct.dV at t: t == tree
  modifies btreeTreeStruct.flt at t: t == tree
  ensures inv: TI(tree)
  ensures old: onlyadds(tree)
  ensures ok: imp(err == 0, not node.dirty)
  ensures failed: imp(err != 0, node.dirty == old(node.dirty))
  ensures clean: iff(err == 0, calm(tree))

func btreeTreeStruct.flushNode
  option holds tree
  option allocates
  requires inv: TI(tree)
  requires node: L(tree, node)
  modifies btreeNodeStruct.nextBTreeNode
  modifies btreeNodeStruct.prevBTreeNode
  modifies btreeNodeCacheStruct.cleanLRUHead
  modifies btreeNodeCacheStruct.cleanLRUTail
  modifies btreeNodeCacheStruct.cleanLRUItems
  modifies btreeNodeCacheStruct.dirtyLRUHead
  modifies btreeNodeCacheStruct.dirtyLRUTail
  modifies btreeNodeCacheStruct.dirtyLRUItems
  modifies btreeNodeCacheStruct.drainerActive
  modifies btreeNodeStruct.dirty at x: below(x, node)
  modifies btreeNodeStruct.btreeNodeCacheTag at x: below(x, node)
  modifies btreeNodeStruct.objectNumber at x: below(x, node)
  modifies btreeNodeStruct.objectOffset at x: below(x, node)
  modifies btreeNodeStruct.objectLength at x: below(x, node)
  modifies btreeNodeStruct.loaded at x: below(x, node)
  modifies btreeNodeStruct.kvLLRB at x: below(x, node)
  modifies btreeNodeStruct.nonLeafLeftChild at x: below(x, node)
  modifies btreeNodeStruct.rootPrefixSumChild at x: below(x, node)
  modifies btreeNodeStruct.lv at x: below(x, node) and x != node
  modifies btreeTreeStruct.W at t: t == tree
  modifies btreeTreeStruct.U at t: t == tree
  modifies btreeTreeStruct.own at t: t == tree
  modifies btreeTreeStruct.dh at t: t == tree
  modifies btreeTreeStruct.dn at t: t == tree
  modifies btreeTreeStruct.drt at t: t == tree
  modifies btreeTreeStruct.dK at t: t == tree
  modifies btreeTreeStruct.dV at t: t == tree
  modifies btreeTreeStruct.flt at t: t == tree
  at btreeTreeStruct.markNodeEvicted each x: btreeNodeStruct.lv = 0 if kid(tree, x) and x.parentNode == node else x.lv
  at btreeTreeStruct.markNodeEvicted tree.own[l: staleOnDiskReferenceStruct] = node if asref(tree.own[l]).parentNode == node and tree.own[l] != tree.root else tree.own[l]
  ensures inv: TI(tree)
  ensures old: onlyadds(tree)
  ensures ok: imp(err == 0, not node.dirty and imp(andPurge, not node.loaded))
  ensures clean: iff(err == 0, calm(tree))
  decreases node.hgt
  loop 1
    invariant inv: TI(tree) and calm(tree)
    invariant old: onlyadds(tree)
    invariant at: 0 <= i and i <= numIndices and numIndices == node.kvLLRB.mlen
    invariant node: inner(tree, node)
    invariant done: forall('x: *btreeNodeStruct', imp(kid(tree, x) and x.parentNode == node and x.ix <= i, not x.dirty and imp(andPurge, not x.loaded)), x.parentNode)
    decreases numIndices - i

func btreeTreeStruct.Flush
  option noframe
  useexit Below(tree)
  ensures same: same(tree)
  ensures all: imp(err == 0, forall('x: *btreeNodeStruct', imp(L(tree, x), not x.dirty), x.dirty))
  ensures where: imp(err == 0, mk('staleOnDiskReferenceStruct', rootObjectNumber, rootObjectOffset, rootObjectLength) == loc(tree.root))
  ensures stored: imp(err == 0, tree.U[loc(tree.root)] and tree.dn[loc(tree.root)] == tree.N and tree.drt[loc(tree.root)])
  ensures content: imp(err == 0, forall('i', imp(0 <= i and i < tree.N, tree.dK[loc(tree.root)][i] == tree.K[i] and tree.dV[loc(tree.root)][i] == tree.V[i]), tree.K[i]))
  ensures old: onlyadds(tree)
  ensures purged: imp(err == 0 and andPurge, forall('x: *btreeNodeStruct', imp(L(tree, x), x == tree.root and not x.loaded), x.lv))
  ensures clean: iff(err == 0, calm(tree))

func btreeTreeStruct.purgeNode
  option holds tree
  option allocates
  requires inv: TI(tree)
  requires node: L(tree, node)
  modifies btreeNodeStruct.nextBTreeNode
  modifies btreeNodeStruct.prevBTreeNode
  modifies btreeNodeCacheStruct.cleanLRUHead
  modifies btreeNodeCacheStruct.cleanLRUTail
  modifies btreeNodeCacheStruct.cleanLRUItems
  modifies btreeNodeCacheStruct.dirtyLRUHead
  modifies btreeNodeCacheStruct.dirtyLRUTail
  modifies btreeNodeCacheStruct.dirtyLRUItems
  modifies btreeNodeStruct.btreeNodeCacheTag at x: below(x, node)
  modifies btreeNodeStruct.loaded at x: below(x, node)
  modifies btreeNodeStruct.kvLLRB at x: below(x, node)
  modifies btreeNodeStruct.nonLeafLeftChild at x: below(x, node)
  modifies btreeNodeStruct.rootPrefixSumChild at x: below(x, node)
  modifies btreeNodeStruct.lv at x: below(x, node) and x != node
  modifies btreeTreeStruct.own at t: t == tree
  at btreeTreeStruct.markNodeEvicted each x: btreeNodeStruct.lv = 0 if kid(tree, x) and x.parentNode == node else x.lv
  at btreeTreeStruct.markNodeEvicted tree.own[l: staleOnDiskReferenceStruct] = node if asref(tree.own[l]).parentNode == node and tree.own[l] != tree.root else tree.own[l]
  ensures inv: TI(tree)
  ensures own: forall('l: staleOnDiskReferenceStruct', imp(tree.U[l], tree.own[l] == old(tree.own[l]) or old(below(asref(tree.own[l]), node)) and below(asref(tree.own[l]), node)), tree.own[l])
  ensures alive: forall('x: *btreeNodeStruct', imp(old(L(tree, x)) and x.dirty, L(tree, x)), x.lv)
  ensures new: forall('x: *btreeNodeStruct', imp(L(tree, x), x < old(alloctop)), x.lv)
  ensures gone: imp(not node.dirty, not node.loaded)
  ensures error: iff(err == 0, not full or not node.dirty)
  decreases node.hgt
  loop 1
    invariant inv: TI(tree)
    invariant at: 0 <= i and i <= numIndices and numIndices == node.kvLLRB.mlen
    invariant alive: forall('x: *btreeNodeStruct', imp(old(L(tree, x)) and x.dirty, L(tree, x)), x.lv)
    invariant own: forall('l: staleOnDiskReferenceStruct', imp(tree.U[l], tree.own[l] == old(tree.own[l]) or old(below(asref(tree.own[l]), node)) and below(asref(tree.own[l]), node)), tree.own[l])
    invariant new: forall('x: *btreeNodeStruct', imp(L(tree, x), x < old(alloctop)), x.lv)
    invariant node: inner(tree, node) and imp(full, not node.dirty)
    invariant done: forall('x: *btreeNodeStruct', imp(kid(tree, x) and x.parentNode == node and x.ix <= i and not x.dirty, not x.loaded), x.parentNode)
    decreases numIndices - i

func btreeTreeStruct.Purge
  option noframe
  use Below(tree)
  useexit Below(tree)
  ensures same: same(tree)
  ensures calm: calm(tree)
  ensures error: iff(err == 0, not full or old(not tree.root.dirty))
  ensures kept: forall('x: *btreeNodeStruct', imp(old(L(tree, x) and x.dirty), L(tree, x) and x.dirty and x.loaded), x.lv)

# ------------------------------------------------------------ layout report
def rep(m: *layoutMap, n: Int) = heap('layoutMap.val')[m][n] if heap('layoutMap.has')[m][n] else 0
def summed(m: *layoutMap) = forall('n', rep(m, n) == usum(heap('layoutMap.seen')[m], n), usum(heap('layoutMap.seen')[m], n))

func btreeTreeStruct.updateLayoutReport
  option holds tree
  option allocates
  option makes btreeNodeStruct llrbTreeStruct
  use Below(tree)
  entry alone: imp(not node.loaded, forall('x: *btreeNodeStruct', imp(L(tree, x) and below(x, node), x == node), x.lv))
  requires inv: TI(tree)
  requires node: L(tree, node)
  requires report: layoutReport != nil and summed(layoutReport)
  requires new: forall('l: staleOnDiskReferenceStruct', imp(heap('layoutMap.seen')[layoutReport][l], tree.U[l] and not below(asref(tree.own[l]), node)), heap('layoutMap.seen')[layoutReport][l])
  at mapupdate heap('layoutMap.seen') = store(heap('layoutMap.seen'), layoutReport, store(heap('layoutMap.seen')[layoutReport], loc(node), True))
  modifies layoutMap.has at m: m == layoutReport
  modifies layoutMap.val at m: m == layoutReport
  modifies layoutMap.seen at m: m == layoutReport
  modifies btreeNodeStruct.nextBTreeNode
  modifies btreeNodeStruct.prevBTreeNode
  modifies btreeNodeCacheStruct.cleanLRUHead
  modifies btreeNodeCacheStruct.cleanLRUTail
  modifies btreeNodeCacheStruct.cleanLRUItems
  modifies btreeNodeCacheStruct.dirtyLRUHead
  modifies btreeNodeCacheStruct.dirtyLRUTail
  modifies btreeNodeCacheStruct.dirtyLRUItems
  modifies btreeNodeStruct.loaded at x: below(x, node) and not x.loaded
  modifies btreeNodeStruct.leaf at x: below(x, node) and not x.loaded
  modifies btreeNodeStruct.kvLLRB at x: below(x, node) and not x.loaded
  modifies btreeNodeStruct.nonLeafLeftChild at x: below(x, node) and not x.loaded
  modifies btreeNodeStruct.rootPrefixSumChild at x: below(x, node) and not x.loaded
  modifies btreeNodeStruct.cut at x: below(x, node) and not x.loaded
  modifies btreeNodeStruct.btreeNodeCacheTag at x: below(x, node) and not x.loaded
  modifies btreeTreeStruct.own at t: t == tree
  modifies btreeTreeStruct.flt at t: t == tree
  ensures inv: TI(tree)
  ensures new: forall('x: *btreeNodeStruct', imp(L(tree, x) and x >= old(alloctop), below(x, node)), x.lv)
  ensures report: summed(layoutReport)
  ensures seen: imp(err == 0, forall('l: staleOnDiskReferenceStruct', iff(heap('layoutMap.seen')[layoutReport][l],
    old(heap('layoutMap.seen')[layoutReport][l]) or tree.U[l] and below(asref(tree.own[l]), node)), heap('layoutMap.seen')[layoutReport][l], tree.own[l]))
  ensures own: forall('l: staleOnDiskReferenceStruct', imp(tree.U[l], tree.own[l] == old(tree.own[l]) or old(below(asref(tree.own[l]), node)) and below(asref(tree.own[l]), node)), tree.own[l])
  ensures clean: iff(err == 0, calm(tree))
  decreases node.hgt
  loop 1
    invariant inv: TI(tree) and calm(tree)
    invariant at: 0 <= i and i <= llrbLen and llrbLen == node.kvLLRB.mlen
    invariant node: inner(tree, node) and imp(not wasLoaded, not node.dirty)
    invariant report: summed(layoutReport)
    invariant new: forall('x: *btreeNodeStruct', imp(L(tree, x) and x >= old(alloctop), below(x, node)), x.lv)
    invariant own: forall('l: staleOnDiskReferenceStruct', imp(tree.U[l], tree.own[l] == old(tree.own[l]) or old(below(asref(tree.own[l]), node)) and below(asref(tree.own[l]), node)), tree.own[l])
    invariant seen: forall('l: staleOnDiskReferenceStruct', iff(heap('layoutMap.seen')[layoutReport][l],
      old(heap('layoutMap.seen')[layoutReport][l]) or tree.U[l] and (asref(tree.own[l]) == node or asref(tree.own[l]).hgt < node.hgt and node.beg <= asref(tree.own[l]).beg and asref(tree.own[l]).beg < cutat(node, i))), heap('layoutMap.seen')[layoutReport][l], tree.own[l])
    decreases llrbLen - i

func btreeTreeStruct.FetchLayoutReport
  option noframe
  ensures same: same(tree)
  ensures sums: imp(err == 0, summed(layoutReport))
  ensures exact: imp(err == 0, forall('l: staleOnDiskReferenceStruct', iff(heap('layoutMap.seen')[layoutReport][l], tree.U[l]), tree.U[l]))
  ensures clean: iff(err == 0, calm(tree))

# ------------------------------------------------------------ construction
func NewBPlusTree
  option noframe
  option private yes
  option nilfree cache
  requires size: 4 <= maxKeysPerNode and maxKeysPerNode % 2 == 0 and maxKeysPerNode < 2 ** 61
  requires unused: forall('x: *btreeNodeStruct', x.lv < alloctop, x.lv)
  set tree.N = 0
  set tree.W[l: staleOnDiskReferenceStruct] = False
  set tree.U[l: staleOnDiskReferenceStruct] = False
  set tree.root.lv = tree
  set tree.root.beg = 0
  set tree.root.end = 0
  set tree.root.hgt = 1
  ensures inv: TI(tree)
  ensures empty: tree.N == 0
  ensures size: tree.maxKeysPerNode == maxKeysPerNode

# ------------------------------------------------------------ nesting
def Ups(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(L(t, x) and x != t.root, x.parentNode != nil and inner(t, x.parentNode) and x.parentNode.hgt == x.hgt + 1 and
    x.parentNode.beg <= x.beg and x.end <= x.parentNode.end), x.parentNode)
derive Nest(t: *btreeTreeStruct)
  given Top(t) and Own(t) and Disj(t) and Ups(t)
  pairs x: *btreeNodeStruct, y: *btreeNodeStruct
  hyp L(t, x) and L(t, y) and x.hgt <= y.hgt and overlap(x, y)
  measure y.hgt - x.hgt
  hint x.parentNode
  pattern x.hgt, y.hgt
  claim y.beg <= x.beg and x.end <= y.end

derive PNested(t: *btreeTreeStruct)
  given Top(t) and Own(t) and Disj(t) and Ups(t) and PLeft(t) and PRight(t) and PNest(t)
  use Nest(t)
  pairs x: *btreeNodeStruct, y: *btreeNodeStruct
  hyp L(t, x) and kid(t, y) and x.hgt <= y.hgt and x.beg < x.end and x.beg < y.pe and y.pb < x.end
  measure y.pe - y.pb
  hint y.prefixSumLeftChild
  hint y.prefixSumRightChild
  pattern x.hgt, y.hgt
  claim y.pb <= x.beg and x.end <= y.pe

# ------------------------------------------------------------ item counts after one leaf changed
derive PIn(t: *btreeTreeStruct)
  given Top(t) and Own(t) and Ups(t) and PUp(t) and PTop(t) and PNest(t)
  pairs x: *btreeNodeStruct
  hyp kid(t, x)
  measure x.pd
  hint x.prefixSumParent
  pattern x.pb
  claim x.parentNode.beg <= x.pb and x.pe <= x.parentNode.end

derive PDeep(t: *btreeTreeStruct)
  given Top(t) and Own(t) and Ups(t) and Pre(t)
  pairs x: *btreeNodeStruct, y: *btreeNodeStruct
  hyp kid(t, x) and kid(t, y) and x.parentNode == y.parentNode and x.pd >= y.pd and x.pb <= y.beg and y.beg < x.pe
  measure x.pd - y.pd
  hint x.prefixSumParent
  pattern x.pd, y.pd
  claim x == y

def anc(x: *btreeNodeStruct, n: *btreeNodeStruct) = x.hgt >= n.hgt and x.beg <= n.beg and n.end <= x.end
def panc(x: *btreeNodeStruct, n: *btreeNodeStruct) = x.hgt >= n.hgt and x.pb <= n.beg and n.end <= x.pe
def StrO(t: *btreeTreeStruct) = Seq(t) and Top(t) and Own(t) and Res(t) and Leaves(t) and First(t) and Kids(t) and Seps(t) and Parents(t) and Disj(t)
def ItemsP(t: *btreeTreeStruct, n: *btreeNodeStruct, d: Int) =
  forall('x: *btreeNodeStruct', imp(L(t, x), x.items == x.end - x.beg - (d if anc(x, n) else 0)), x.lv)
def PSumP(t: *btreeTreeStruct, n: *btreeNodeStruct, d: Int) =
  forall('x: *btreeNodeStruct', imp(kid(t, x), x.prefixSumItems == x.pe - x.pb - (d if panc(x, n) else 0)), x.prefixSumItems)
def DiskP(t: *btreeTreeStruct, n: *btreeNodeStruct) =
  forall('x: *btreeNodeStruct', imp(L(t, x) and not x.dirty and not anc(x, n),
    t.dn[loc(x)] == x.end - x.beg and t.dh[loc(x)] == x.hgt and iff(t.drt[loc(x)], x == t.root)), x.dirty) and
  forall('x: *btreeNodeStruct, i', imp(L(t, x) and not x.dirty and not anc(x, n) and 0 <= i and i < x.end - x.beg,
    t.dK[loc(x)][i] == t.K[x.beg + i]), t.dK[loc(x)][i]) and
  forall('x: *btreeNodeStruct, i', imp(L(t, x) and not x.dirty and not anc(x, n) and 0 <= i and i < x.end - x.beg,
    t.dV[loc(x)][i] == t.V[x.beg + i]), t.dV[loc(x)][i])
def DUpP(t: *btreeTreeStruct, n: *btreeNodeStruct) =
  forall('x: *btreeNodeStruct', imp(kid(t, x) and x.dirty, x.parentNode.dirty or x.parentNode == n), x.dirty)

func btreeTreeStruct.updatePrefixSumTreeLeafToRootRecursively
  option holds tree
  option allocates
  use Nest(tree)
  use PNested(tree)
  use PIn(tree)
  use PDeep(tree)
  requires inv: StrO(tree) and Pre(tree) and Tags(tree) and DLoc(tree) and Use(tree) and Stale(tree) and Held(tree)
  requires node: L(tree, updatedChildNode) and updatedChildNode.loaded
  requires delta: -(2 ** 61) < delta and delta < 2 ** 61
  requires items: ItemsP(tree, updatedChildNode, delta)
  requires sums: PSumP(tree, updatedChildNode, delta)
  requires disk: DiskP(tree, updatedChildNode)
  requires up: DUpP(tree, updatedChildNode)
  modifies btreeNodeStruct.items at x: L(tree, x) and anc(x, updatedChildNode)
  modifies btreeNodeStruct.prefixSumItems at x: L(tree, x) and panc(x, updatedChildNode)
  modifies btreeNodeStruct.dirty at x: L(tree, x) and anc(x, updatedChildNode)
  modifies btreeNodeStruct.btreeNodeCacheTag at x: L(tree, x) and anc(x, updatedChildNode)
  modifies btreeNodeStruct.nextBTreeNode
  modifies btreeNodeStruct.prevBTreeNode
  modifies btreeNodeCacheStruct.cleanLRUHead
  modifies btreeNodeCacheStruct.cleanLRUTail
  modifies btreeNodeCacheStruct.cleanLRUItems
  modifies btreeNodeCacheStruct.dirtyLRUHead
  modifies btreeNodeCacheStruct.dirtyLRUTail
  modifies btreeNodeCacheStruct.dirtyLRUItems
  modifies btreeTreeStruct.staleOnDiskReferencesList at t: t == tree
  modifies staleMap.set at m: m == tree.staleOnDiskReferencesList
  modifies btreeNodeStruct.objectNumber at x: L(tree, x) and anc(x, updatedChildNode)
  modifies btreeNodeStruct.objectOffset at x: L(tree, x) and anc(x, updatedChildNode)
  modifies btreeNodeStruct.objectLength at x: L(tree, x) and anc(x, updatedChildNode)
  modifies btreeTreeStruct.U at t: t == tree
  entry in: imp(kid(tree, updatedChildNode), forall('x: *btreeNodeStruct', imp(L(tree, x) and x.hgt > updatedChildNode.hgt,
    iff(anc(x, updatedChildNode), anc(x, updatedChildNode.parentNode))), x.lv))
  entry pin: imp(kid(tree, updatedChildNode), forall('x: *btreeNodeStruct', imp(kid(tree, x) and x.hgt > updatedChildNode.hgt,
    iff(panc(x, updatedChildNode), panc(x, updatedChildNode.parentNode))), x.lv))
  entry only: forall('x: *btreeNodeStruct', imp(L(tree, x) and x.hgt == updatedChildNode.hgt, iff(anc(x, updatedChildNode), x == updatedChildNode)), x.lv)
  entry fam: imp(kid(tree, updatedChildNode), forall('x: *btreeNodeStruct', imp(kid(tree, x) and x.hgt == updatedChildNode.hgt and panc(x, updatedChildNode),
    x.parentNode == updatedChildNode.parentNode), x.lv))
  entry depth: imp(kid(tree, updatedChildNode), updatedChildNode.pd >= 0)
  entry self: imp(kid(tree, updatedChildNode), panc(updatedChildNode, updatedChildNode))
  entry deep: imp(kid(tree, updatedChildNode), forall('x: *btreeNodeStruct', imp(kid(tree, x) and x.hgt == updatedChildNode.hgt and panc(x, updatedChildNode),
    x.pd <= updatedChildNode.pd), x.lv))
  ensures inv: StrO(tree) and Items(tree) and Pre(tree) and PSum(tree) and Tags(tree) and DUp(tree) and Sto(tree)
  ensures dirty: forall('x: *btreeNodeStruct', imp(L(tree, x) and anc(x, updatedChildNode), x.dirty), x.dirty)
  ensures list: listkept(tree)
  decreases tree.root.hgt - updatedChildNode.hgt
  loop 1
    invariant inv: StrO(tree) and Pre(tree)
    invariant at: kid(tree, prefixSumNode) and panc(prefixSumNode, updatedChildNode) and prefixSumNode.hgt == updatedChildNode.hgt and
      prefixSumNode.parentNode == updatedChildNode.parentNode
    invariant sums: forall('x: *btreeNodeStruct', imp(kid(tree, x), x.prefixSumItems == x.pe - x.pb -
      (delta if panc(x, updatedChildNode) and (x.hgt > updatedChildNode.hgt or x.pd <= prefixSumNode.pd) else 0)), x.prefixSumItems)
    decreases prefixSumNode.pd

func btreeTreeStruct.updatePrefixSumTreeLeafToRoot
  option holds tree
  option allocates
  requires inv: StrO(tree) and Pre(tree) and Tags(tree) and DUp(tree) and DLoc(tree) and Use(tree) and Stale(tree) and Held(tree)
  requires node: L(tree, leafNode) and leafNode.loaded and leafNode.hgt == 1
  requires items: 0 <= leafNode.items and leafNode.items < 2 ** 61 and leafNode.items != leafNode.kvLLRB.mlen and leafNode.kvLLRB.mlen < 2 ** 61
  requires counts: ItemsP(tree, leafNode, leafNode.kvLLRB.mlen - leafNode.items)
  requires sums: PSumP(tree, leafNode, leafNode.kvLLRB.mlen - leafNode.items)
  requires disk: DiskP(tree, leafNode)
  modifies btreeNodeStruct.items at x: L(tree, x) and anc(x, leafNode)
  modifies btreeNodeStruct.prefixSumItems at x: L(tree, x) and panc(x, leafNode)
  modifies btreeNodeStruct.dirty at x: L(tree, x) and anc(x, leafNode)
  modifies btreeNodeStruct.btreeNodeCacheTag at x: L(tree, x) and anc(x, leafNode)
  modifies btreeNodeStruct.nextBTreeNode
  modifies btreeNodeStruct.prevBTreeNode
  modifies btreeNodeCacheStruct.cleanLRUHead
  modifies btreeNodeCacheStruct.cleanLRUTail
  modifies btreeNodeCacheStruct.cleanLRUItems
  modifies btreeNodeCacheStruct.dirtyLRUHead
  modifies btreeNodeCacheStruct.dirtyLRUTail
  modifies btreeNodeCacheStruct.dirtyLRUItems
  modifies btreeTreeStruct.staleOnDiskReferencesList at t: t == tree
  modifies staleMap.set at m: m == tree.staleOnDiskReferencesList
  modifies btreeNodeStruct.objectNumber at x: L(tree, x) and anc(x, leafNode)
  modifies btreeNodeStruct.objectOffset at x: L(tree, x) and anc(x, leafNode)
  modifies btreeNodeStruct.objectLength at x: L(tree, x) and anc(x, leafNode)
  modifies btreeTreeStruct.U at t: t == tree
  ensures inv: StrO(tree) and Items(tree) and Pre(tree) and PSum(tree) and Tags(tree) and DUp(tree) and Sto(tree)
  ensures dirty: forall('x: *btreeNodeStruct', imp(L(tree, x) and anc(x, leafNode), x.dirty), x.dirty)
  ensures list: listkept(tree)
  ensures fine: err == 0

# ------------------------------------------------------------ building a node's prefix-sum tree
def mem(t: *btreeTreeStruct, P: *btreeNodeStruct, x: *btreeNodeStruct, lo: Int, hi: Int) =
  kid(t, x) and x.parentNode == P and lo <= x.ix and x.ix < hi
def pupx(t: *btreeTreeStruct, x: *btreeNodeStruct, p: *btreeNodeStruct, lo: Int, hi: Int) =
  p != nil and mem(t, x.parentNode, p, lo, hi) and (p.prefixSumLeftChild == x or p.prefixSumRightChild == x) and
  x.pd == p.pd + 1 and p.pb <= x.pb and x.pe <= p.pe

func btreeTreeStruct.arrangePrefixSumTreeRecursively
  option holds tree
  option window prefixSumSlice
  let lo = off(prefixSumSlice)
  let hi = off(prefixSumSlice) + len(prefixSumSlice)
  let a = arr(prefixSumSlice)
  let P = arr(prefixSumSlice)[off(prefixSumSlice)].parentNode
  requires some: lo < hi and 0 <= tree.N and tree.N < 2 ** 62
  requires slice: forall('j', imp(lo <= j and j < hi, a[j] != nil and mem(tree, P, a[j], lo, hi) and a[j].ix == j), a[j])
  requires conv: forall('x: *btreeNodeStruct', imp(mem(tree, P, x, lo, hi), a[x.ix] == x), x.ix)
  requires adj: forall('i, j', imp(lo <= i and j == i + 1 and j < hi, a[i].end == a[j].beg), (a[i], a[j]))
  requires bare: forall('x: *btreeNodeStruct', imp(mem(tree, P, x, lo, hi), x < alloctop and 0 <= x.beg and x.beg < x.end and x.end <= tree.N and
    x.prefixSumItems == x.end - x.beg and x.prefixSumLeftChild == nil and x.prefixSumRightChild == nil and x.prefixSumParent == nil), x.ix)
  modifies btreeNodeStruct.prefixSumLeftChild at x: mem(tree, P, x, lo, hi)
  modifies btreeNodeStruct.prefixSumRightChild at x: mem(tree, P, x, lo, hi)
  modifies btreeNodeStruct.prefixSumParent at x: mem(tree, P, x, lo, hi)
  modifies btreeNodeStruct.prefixSumItems at x: mem(tree, P, x, lo, hi)
  modifies btreeNodeStruct.pb at x: mem(tree, P, x, lo, hi)
  modifies btreeNodeStruct.pe at x: mem(tree, P, x, lo, hi)
  modifies btreeNodeStruct.pd at x: mem(tree, P, x, lo, hi)
  set midPointNode.pb = a[lo].beg
  set midPointNode.pe = a[hi - 1].end
  set each x: btreeNodeStruct.pd = (0 if x == midPointNode else x.pd + 1 if mem(tree, P, x, lo, hi) else x.pd)
  ensures root: mem(tree, P, midPointNode, lo, hi) and midPointNode.pd == 0 and midPointNode.prefixSumParent == nil and
    midPointNode.pb == a[lo].beg and midPointNode.pe == a[hi - 1].end
  ensures left: forall('x: *btreeNodeStruct', imp(mem(tree, P, x, lo, hi), pleft(tree, x, x.prefixSumLeftChild) and
    imp(x.prefixSumLeftChild != nil, mem(tree, P, x.prefixSumLeftChild, lo, hi))), x.prefixSumLeftChild)
  ensures right: forall('x: *btreeNodeStruct', imp(mem(tree, P, x, lo, hi), pright(tree, x, x.prefixSumRightChild) and
    imp(x.prefixSumRightChild != nil, mem(tree, P, x.prefixSumRightChild, lo, hi))), x.prefixSumRightChild)
  ensures up: forall('x: *btreeNodeStruct', imp(mem(tree, P, x, lo, hi) and x != midPointNode, pupx(tree, x, x.prefixSumParent, lo, hi)), x.prefixSumParent)
  ensures nest: forall('x: *btreeNodeStruct', imp(mem(tree, P, x, lo, hi), midPointNode.pb <= x.pb and x.pe <= midPointNode.pe and
    x.pb <= x.beg and x.end <= x.pe and x.pd >= 0 and imp(x != midPointNode, x.pd >= 1)), x.pd)
  ensures disj: forall('x: *btreeNodeStruct, y: *btreeNodeStruct',
    imp(mem(tree, P, x, lo, hi) and mem(tree, P, y, lo, hi) and x.pd == y.pd and x.pb <= y.pb and y.pb < x.pe, x == y), (x.pd, y.pd))
  ensures sum: forall('x: *btreeNodeStruct', imp(mem(tree, P, x, lo, hi), x.prefixSumItems == x.pe - x.pb), x.prefixSumItems)
  decreases len(prefixSumSlice)

def childat(t: *btreeTreeStruct, x: *btreeNodeStruct, c: *btreeNodeStruct, j: Int) =
  c != nil and c < alloctop and kid(t, c) and c.parentNode == x and c.ix == j and
  c.beg == (x.beg if j == 0 else x.cut[j - 1]) and c.end == cutat(x, j) and
  0 <= c.beg and c.beg < c.end and c.end <= t.N and c.items == c.end - c.beg
def kidof(t: *btreeTreeStruct, x: *btreeNodeStruct, n: *btreeNodeStruct) = kid(t, x) and x.parentNode == n

def KidsN(t: *btreeTreeStruct, n: *btreeNodeStruct) =
  childat(t, n, n.nonLeafLeftChild, 0) and
  forall('i', imp(0 <= i and i < n.kvLLRB.mlen, isNode(n.kvLLRB.mv[i]) and childat(t, n, asNode(n.kvLLRB.mv[i]), i + 1)), n.kvLLRB.mv[i]) and
  forall('x: *btreeNodeStruct', imp(kidof(t, x, n), 0 <= x.ix and x.ix <= n.kvLLRB.mlen and nth(n, x.ix) == x), x.parentNode)

def PreN(t: *btreeTreeStruct, n: *btreeNodeStruct) =
  ptop(t, n, n.rootPrefixSumChild) and
  forall('x: *btreeNodeStruct', imp(kidof(t, x, n), pleft(t, x, x.prefixSumLeftChild)), x.prefixSumLeftChild) and
  forall('x: *btreeNodeStruct', imp(kidof(t, x, n), pright(t, x, x.prefixSumRightChild)), x.prefixSumRightChild) and
  forall('x: *btreeNodeStruct', imp(kidof(t, x, n), pupok(t, x, x.prefixSumParent)), x.prefixSumParent) and
  forall('x: *btreeNodeStruct', imp(kidof(t, x, n), n.beg <= x.pb and x.pe <= n.end and x.pb <= x.beg and x.end <= x.pe and x.pd >= 0 and
    x.prefixSumKVIndex == x.ix - 1), x.pd) and
  forall('x: *btreeNodeStruct, y: *btreeNodeStruct',
    imp(kidof(t, x, n) and kidof(t, y, n) and x.pd == y.pd and x.pb <= y.pb and y.pb < x.pe, x == y), (x.pd, y.pd)) and
  forall('x: *btreeNodeStruct', imp(kidof(t, x, n), x.prefixSumItems == x.pe - x.pb), x.prefixSumItems)

func btreeTreeStruct.arrangePrefixSumTree
  option holds tree
  requires node: node != nil and node.kvLLRB != nil and node.kvLLRB.mlen < 2 ** 61 and 0 <= tree.N and tree.N < 2 ** 62
  requires kids: KidsN(tree, node)
  modifies btreeNodeStruct.prefixSumLeftChild at x: kidof(tree, x, node)
  modifies btreeNodeStruct.prefixSumRightChild at x: kidof(tree, x, node)
  modifies btreeNodeStruct.prefixSumParent at x: kidof(tree, x, node)
  modifies btreeNodeStruct.prefixSumItems at x: kidof(tree, x, node)
  modifies btreeNodeStruct.prefixSumKVIndex at x: kidof(tree, x, node)
  modifies btreeNodeStruct.pb at x: kidof(tree, x, node)
  modifies btreeNodeStruct.pe at x: kidof(tree, x, node)
  modifies btreeNodeStruct.pd at x: kidof(tree, x, node)
  modifies btreeNodeStruct.rootPrefixSumChild at x: x == node
  modifies btreeNodeStruct.items at x: x == node
  ensures pre: PreN(tree, node)
  ensures items: node.items == node.end - node.beg
  ensures fine: err == 0
  loop 1
    invariant at: 0 <= i and i <= numChildrenInLLRB and numChildrenInLLRB == node.kvLLRB.mlen and len(prefixSumSlice) == numChildrenInLLRB + 1 and off(prefixSumSlice) == 0
    invariant kids: KidsN(tree, node)
    invariant slice: forall('j', imp(0 <= j and j <= i, arr(prefixSumSlice)[j] == nth(node, j)), arr(prefixSumSlice)[j])
    invariant bare: forall('x: *btreeNodeStruct', imp(kidof(tree, x, node) and x.ix <= i, x.prefixSumItems == x.items and x.prefixSumKVIndex == x.ix - 1 and
      x.prefixSumLeftChild == nil and x.prefixSumRightChild == nil and x.prefixSumParent == nil), x.parentNode)
    decreases numChildrenInLLRB - i

# ------------------------------------------------------------ rearranging after a change of shape
def PreX(t: *btreeTreeStruct, q: *btreeNodeStruct) =
  forall('x: *btreeNodeStruct', imp(kid(t, x) and x.parentNode != q, pleft(t, x, x.prefixSumLeftChild)), x.prefixSumLeftChild) and
  forall('x: *btreeNodeStruct', imp(kid(t, x) and x.parentNode != q, pright(t, x, x.prefixSumRightChild)), x.prefixSumRightChild) and
  forall('x: *btreeNodeStruct', imp(kid(t, x) and x.parentNode != q, pupok(t, x, x.prefixSumParent)), x.prefixSumParent) and
  forall('x: *btreeNodeStruct', imp(inner(t, x) and x != q, ptop(t, x, x.rootPrefixSumChild)), x.rootPrefixSumChild) and
  forall('x: *btreeNodeStruct', imp(kid(t, x) and x.parentNode != q, 0 <= x.pb and x.pe <= t.N and x.pb <= x.beg and x.end <= x.pe and x.pd >= 0 and
    x.prefixSumKVIndex == x.ix - 1), x.pd) and
  forall('x: *btreeNodeStruct, y: *btreeNodeStruct',
    imp(kid(t, x) and kid(t, y) and x.parentNode == y.parentNode and x.parentNode != q and x.pd == y.pd and x.pb <= y.pb and y.pb < x.pe, x == y), (x.pd, y.pd)) and
  forall('x: *btreeNodeStruct', imp(kid(t, x) and x.parentNode != q, x.prefixSumItems == x.pe - x.pb), x.prefixSumItems)
def PreX2(t: *btreeTreeStruct, q: *btreeNodeStruct, r: *btreeNodeStruct, p: *btreeNodeStruct) =
  forall('x: *btreeNodeStruct', imp(kid(t, x) and x.parentNode != q and x.parentNode != r and x.parentNode != p, pleft(t, x, x.prefixSumLeftChild)), x.prefixSumLeftChild) and
  forall('x: *btreeNodeStruct', imp(kid(t, x) and x.parentNode != q and x.parentNode != r and x.parentNode != p, pright(t, x, x.prefixSumRightChild)), x.prefixSumRightChild) and
  forall('x: *btreeNodeStruct', imp(kid(t, x) and x.parentNode != q and x.parentNode != r and x.parentNode != p, pupok(t, x, x.prefixSumParent)), x.prefixSumParent) and
  forall('x: *btreeNodeStruct', imp(inner(t, x) and x != q and x != r and x != p, ptop(t, x, x.rootPrefixSumChild)), x.rootPrefixSumChild) and
  forall('x: *btreeNodeStruct', imp(kid(t, x) and x.parentNode != q and x.parentNode != r and x.parentNode != p, 0 <= x.pb and x.pe <= t.N and x.pb <= x.beg and x.end <= x.pe and x.pd >= 0 and
    x.prefixSumKVIndex == x.ix - 1), x.pd) and
  forall('x: *btreeNodeStruct, y: *btreeNodeStruct',
    imp(kid(t, x) and kid(t, y) and x.parentNode == y.parentNode and x.parentNode != q and x.parentNode != r and x.parentNode != p and x.pd == y.pd and x.pb <= y.pb and y.pb < x.pe, x == y), (x.pd, y.pd)) and
  forall('x: *btreeNodeStruct', imp(kid(t, x) and x.parentNode != q and x.parentNode != r and x.parentNode != p, x.prefixSumItems == x.pe - x.pb), x.prefixSumItems)
# new nodes are not on the cache's lists yet
def TagsP(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(L(t, x), 0 <= x.btreeNodeCacheTag and x.btreeNodeCacheTag <= 2 and
    imp(not x.loaded, not x.dirty) and imp(t.nodeCache != nil, (x.btreeNodeCacheTag == 0 and x.loaded) if x.pend else
    iff(x.loaded, x.btreeNodeCacheTag != 0) and imp(x.loaded, iff(x.dirty, x.btreeNodeCacheTag == 2)))), x.lv)

func btreeTreeStruct.rearrangePrefixSumTreeToRoot
  option holds tree
  option allocates
  requires inv: Str(tree) and Items(tree) and PreX(tree, node) and TagsP(tree) and DUp(tree) and Sto(tree)
  requires node: inner(tree, node) and node.dirty
  requires pend: forall('x: *btreeNodeStruct', imp(L(tree, x) and x.pend, x.hgt < node.hgt), x.lv)
  modifies btreeNodeStruct.prefixSumLeftChild at x: kid(tree, x)
  modifies btreeNodeStruct.prefixSumRightChild at x: kid(tree, x)
  modifies btreeNodeStruct.prefixSumParent at x: kid(tree, x)
  modifies btreeNodeStruct.prefixSumItems at x: kid(tree, x)
  modifies btreeNodeStruct.prefixSumKVIndex at x: kid(tree, x)
  modifies btreeNodeStruct.pb at x: kid(tree, x)
  modifies btreeNodeStruct.pe at x: kid(tree, x)
  modifies btreeNodeStruct.pd at x: kid(tree, x)
  modifies btreeNodeStruct.rootPrefixSumChild at x: inner(tree, x)
  modifies btreeNodeStruct.btreeNodeCacheTag at x: inner(tree, x) and x.hgt >= node.hgt
  modifies btreeNodeStruct.nextBTreeNode
  modifies btreeNodeStruct.prevBTreeNode
  modifies btreeNodeCacheStruct.cleanLRUHead
  modifies btreeNodeCacheStruct.cleanLRUTail
  modifies btreeNodeCacheStruct.cleanLRUItems
  modifies btreeNodeCacheStruct.dirtyLRUHead
  modifies btreeNodeCacheStruct.dirtyLRUTail
  modifies btreeNodeCacheStruct.dirtyLRUItems
  modifies btreeTreeStruct.staleOnDiskReferencesList at t: t == tree
  modifies staleMap.set at m: m == tree.staleOnDiskReferencesList
  modifies btreeNodeStruct.objectOffset at x: inner(tree, x) and x.dirty
  ensures inv: Str(tree) and Items(tree) and Pre(tree) and PSum(tree) and TagsP(tree) and DUp(tree) and Sto(tree)
  ensures list: listkept(tree)
  ensures fine: err == 0
  decreases tree.root.hgt - node.hgt

# ------------------------------------------------------------ insertion
# A node c that has been split off its left neighbour but is not yet entered in their parent: it stands at its neighbour's position.
ghostfield btreeTreeStruct.bare Int
def childofH(t: *btreeTreeStruct, x: *btreeNodeStruct, k: *btreeNodeStruct, j: Int, c: *btreeNodeStruct) =
  k != nil and k != c and L(t, k) and k.parentNode == x and k.ix == j and k.hgt == x.hgt - 1 and
  k.beg == (x.beg if j == 0 else x.cut[j - 1]) and k.end == (c.beg if c.parentNode == x and c.ix == j else cutat(x, j))
def FirstH(t: *btreeTreeStruct, c: *btreeNodeStruct) =
  forall('x: *btreeNodeStruct', imp(inner(t, x), childofH(t, x, x.nonLeafLeftChild, 0, c)), x.nonLeafLeftChild)
def KidsH(t: *btreeTreeStruct, c: *btreeNodeStruct) =
  forall('x: *btreeNodeStruct, i', imp(inner(t, x) and 0 <= i and i < x.kvLLRB.mlen,
    isNode(x.kvLLRB.mv[i]) and childofH(t, x, asNode(x.kvLLRB.mv[i]), i + 1, c)), x.kvLLRB.mv[i])
def ParentsH(t: *btreeTreeStruct, c: *btreeNodeStruct) =
  forall('x: *btreeNodeStruct', imp(L(t, x) and x != t.root and x != c, parentok(t, x, x.parentNode)), x.parentNode)
def Hole(t: *btreeTreeStruct, c: *btreeNodeStruct, p: *btreeNodeStruct) =
  c != nil and kid(t, c) and c.parentNode == p and inner(t, p) and p.hgt == c.hgt + 1 and 0 <= c.ix and c.ix <= p.kvLLRB.mlen and
  c.end == cutat(p, c.ix) and p.beg <= c.beg and c.end <= p.end
def StrH(t: *btreeTreeStruct, c: *btreeNodeStruct) = Seq(t) and Top(t) and Own(t) and Res(t) and Occ(t) and Leaves(t) and FirstH(t, c) and KidsH(t, c) and
  Seps(t) and ParentsH(t, c) and Disj(t)
# full, but for one node that may hold one key too many
def OccX(t: *btreeTreeStruct, n: *btreeNodeStruct) =
  forall('x: *btreeNodeStruct', imp(L(t, x) and x.loaded,
    x.kvLLRB.mlen <= t.maxKeysPerNode + (1 if x == n else 0) and imp(x != t.root, t.minKeysPerNode <= x.kvLLRB.mlen) and
    imp(x == t.root and not x.leaf, 1 <= x.kvLLRB.mlen)), x.lv)
def Pending(t: *btreeTreeStruct, h: Int) = forall('x: *btreeNodeStruct', imp(L(t, x) and x.pend, x.hgt < h), x.lv)

func btreeTreeStruct.insertHere@inner
  option holds tree
  option allocates
  option nilfree cache
  option calls btreeTreeStruct.insertHere@inner
  let c = asNode(value)
  requires inv: StrH(tree, c) and Items(tree) and PreX(tree, insertNode) and TagsP(tree) and DUp(tree) and Sto(tree)
  requires node: inner(tree, insertNode) and insertNode.dirty
  requires pend: Pending(tree, insertNode.hgt)
  requires hole: isNode(value) and Hole(tree, c, insertNode)
  requires key: good(key) and 0 < c.beg and c.beg < tree.N and ord(tree.K[c.beg - 1]) < ord(key) and ord(key) <= ord(tree.K[c.beg])
  modifies btreeNodeStruct.objectNumber
  modifies btreeNodeStruct.objectOffset
  modifies btreeNodeStruct.objectLength
  modifies btreeNodeStruct.items
  modifies btreeNodeStruct.loaded
  modifies btreeNodeStruct.dirty
  modifies btreeNodeStruct.root
  modifies btreeNodeStruct.leaf
  modifies btreeNodeStruct.tree
  modifies btreeNodeStruct.parentNode
  modifies btreeNodeStruct.kvLLRB
  modifies btreeNodeStruct.nonLeafLeftChild
  modifies btreeNodeStruct.rootPrefixSumChild
  modifies btreeNodeStruct.prefixSumItems
  modifies btreeNodeStruct.prefixSumKVIndex
  modifies btreeNodeStruct.prefixSumParent
  modifies btreeNodeStruct.prefixSumLeftChild
  modifies btreeNodeStruct.prefixSumRightChild
  modifies btreeNodeStruct.btreeNodeCacheTag
  modifies btreeNodeStruct.nextBTreeNode
  modifies btreeNodeStruct.prevBTreeNode
  modifies btreeNodeStruct.lv
  modifies btreeNodeStruct.beg
  modifies btreeNodeStruct.end
  modifies btreeNodeStruct.hgt
  modifies btreeNodeStruct.ix
  modifies btreeNodeStruct.cut
  modifies btreeNodeStruct.pb
  modifies btreeNodeStruct.pe
  modifies btreeNodeStruct.pd
  modifies btreeNodeStruct.pend
  modifies btreeNodeCacheStruct.cleanLRUHead
  modifies btreeNodeCacheStruct.cleanLRUTail
  modifies btreeNodeCacheStruct.cleanLRUItems
  modifies btreeNodeCacheStruct.dirtyLRUHead
  modifies btreeNodeCacheStruct.dirtyLRUTail
  modifies btreeNodeCacheStruct.dirtyLRUItems
  modifies btreeTreeStruct.root at t: t == tree
  modifies btreeTreeStruct.bare at t: t == tree
  modifies btreeTreeStruct.U at t: t == tree
  modifies btreeTreeStruct.staleOnDiskReferencesList at t: t == tree
  modifies staleMap.set at m: m == tree.staleOnDiskReferencesList
  modifies llrbTreeStruct.mlen
  modifies llrbTreeStruct.mk
  modifies llrbTreeStruct.mv
  modifies llrbTreeStruct.owner
  modifies llrbTreeStruct.T
  before llrbTreeStruct.Put/1 assert left: nth(insertNode, c.ix).end == c.beg and nth(insertNode, c.ix).beg < c.beg
  before llrbTreeStruct.Put/1 assert below: imp(0 < c.ix, ord(insertNode.kvLLRB.mk[c.ix - 1]) < ord(key))
  before llrbTreeStruct.Put/1 assert above: imp(c.ix < insertNode.kvLLRB.mlen, ord(key) < ord(insertNode.kvLLRB.mk[c.ix]))
  at llrbTreeStruct.Put/1 assert pos: llrb_r == c.ix and res_ok
  at llrbTreeStruct.Put/1 insertNode.cut[j: Int] = insertNode.cut[j] if j < llrb_r else c.beg if j == llrb_r else insertNode.cut[j - 1]
  at llrbTreeStruct.Put/1 each x: btreeNodeStruct.ix = x.ix + 1 if L(tree, x) and x.parentNode == insertNode and (x.ix > llrb_r or x == c) else x.ix
  at llrbTreeStruct.Put/1 tree.bare = insertNode
  at llrbTreeStruct.Put/1 assert seps: forall('i', imp(0 <= i and i < insertNode.kvLLRB.mlen, sep(tree, insertNode, i)), insertNode.kvLLRB.mk[i])
  at llrbTreeStruct.Put/1 assert inv: StrO(tree) and OccX(tree, insertNode) and Items(tree) and PreX(tree, insertNode) and TagsP(tree) and DUp(tree) and Sto(tree)
  at llrbTreeStruct.Put/1 let mv1 = insertNode.kvLLRB.mv
  at llrbTreeStruct.Put/1 let len1 = insertNode.kvLLRB.mlen
  before llrbTreeStruct.Put/3 assert first: imp(0 < newRightSiblingNode.kvLLRB.mlen, ord(splitKey) < ord(newRightSiblingNode.kvLLRB.mk[0]))
  at llrbTreeStruct.Put/3 assert front: llrb_r == 0 and res_ok
  before btreeTreeStruct.arrangePrefixSumTree/1 assert split: 0 < insertNode.cut[llrbLen] and insertNode.cut[llrbLen] < tree.N and ord(tree.K[insertNode.cut[llrbLen] - 1]) < ord(splitKey) and ord(splitKey) <= ord(tree.K[insertNode.cut[llrbLen]]) and good(splitKey)
  before btreeTreeStruct.arrangePrefixSumTree/1 let m = llrbLen
  before btreeTreeStruct.arrangePrefixSumTree/1 let cut0 = insertNode.cut
  before btreeTreeStruct.arrangePrefixSumTree/1 let end0 = insertNode.end
  before btreeTreeStruct.arrangePrefixSumTree/1 newRightSiblingNode.lv = tree
  before btreeTreeStruct.arrangePrefixSumTree/1 newRightSiblingNode.beg = cut0[m]
  before btreeTreeStruct.arrangePrefixSumTree/1 newRightSiblingNode.end = end0
  before btreeTreeStruct.arrangePrefixSumTree/1 newRightSiblingNode.hgt = insertNode.hgt
  before btreeTreeStruct.arrangePrefixSumTree/1 newRightSiblingNode.ix = insertNode.ix
  before btreeTreeStruct.arrangePrefixSumTree/1 newRightSiblingNode.pend = true
  before btreeTreeStruct.arrangePrefixSumTree/1 newRightSiblingNode.cut[j: Int] = cut0[j + m + 1]
  before btreeTreeStruct.arrangePrefixSumTree/1 insertNode.end = cut0[m]
  before btreeTreeStruct.arrangePrefixSumTree/1 assert o1 by inv, parent, apart: forall('x: *btreeNodeStruct', imp(L(tree, x) and x != tree.root and x.parentNode == newRightSiblingNode, m < x.ix and x.ix <= len1 and mv1[x.ix - 1] == boxNode(x)), x.parentNode)
  before btreeTreeStruct.arrangePrefixSumTree/1 assert o2 by moved, kept, others, apart: newRightSiblingNode.kvLLRB.mlen == len1 - m - 1 and forall('i', imp(0 <= i and i < newRightSiblingNode.kvLLRB.mlen, newRightSiblingNode.kvLLRB.mv[i] == mv1[m + 1 + i]), newRightSiblingNode.kvLLRB.mv[i])
  before btreeTreeStruct.arrangePrefixSumTree/1 assert o3 by kept, moved: boxNode(newRightSiblingNode.nonLeafLeftChild) == mv1[m]
  before btreeTreeStruct.arrangePrefixSumTree/1 each x: btreeNodeStruct.ix = x.ix - m - 1 if L(tree, x) and x.parentNode == newRightSiblingNode else x.ix
  before btreeTreeStruct.arrangePrefixSumTree/1 assert ends: newRightSiblingNode.nonLeafLeftChild.beg == newRightSiblingNode.beg and newRightSiblingNode.nonLeafLeftChild.end <= newRightSiblingNode.end and insertNode.nonLeafLeftChild.beg == insertNode.beg and insertNode.nonLeafLeftChild.end <= insertNode.end
  before btreeTreeStruct.arrangePrefixSumTree/1 assert more: asNode(insertNode.kvLLRB.mv[0]).beg == insertNode.nonLeafLeftChild.end and asNode(insertNode.kvLLRB.mv[0]).beg < asNode(insertNode.kvLLRB.mv[0]).end and asNode(insertNode.kvLLRB.mv[0]).end <= insertNode.end and asNode(newRightSiblingNode.kvLLRB.mv[0]).beg == newRightSiblingNode.nonLeafLeftChild.end and asNode(newRightSiblingNode.kvLLRB.mv[0]).beg < asNode(newRightSiblingNode.kvLLRB.mv[0]).end and asNode(newRightSiblingNode.kvLLRB.mv[0]).end <= newRightSiblingNode.end
  before btreeTreeStruct.arrangePrefixSumTree/1 assert halves: insertNode.hgt <= insertNode.end - insertNode.beg and newRightSiblingNode.hgt <= newRightSiblingNode.end - newRightSiblingNode.beg
  before btreeTreeStruct.arrangePrefixSumTree/1 assert stay: forall('x: *btreeNodeStruct', imp(L(tree, x) and x != tree.root and x.parentNode == insertNode, 0 <= x.ix and x.ix <= m and (insertNode.nonLeafLeftChild == x if x.ix == 0 else insertNode.kvLLRB.mv[x.ix - 1] == boxNode(x))), x.parentNode)
  before btreeTreeStruct.arrangePrefixSumTree/1 assert went by o1, o2, o3: forall('x: *btreeNodeStruct', imp(L(tree, x) and x != tree.root and x.parentNode == newRightSiblingNode, 0 <= x.ix and x.ix <= newRightSiblingNode.kvLLRB.mlen and (newRightSiblingNode.nonLeafLeftChild == x if x.ix == 0 else newRightSiblingNode.kvLLRB.mv[x.ix - 1] == boxNode(x))), x.parentNode)
  before btreeTreeStruct.arrangePrefixSumTree/1 assert leaves by others, apart, inv: Leaves(tree)
  before btreeTreeStruct.arrangePrefixSumTree/1 assert disk by inv: Disk(tree)
  before btreeTreeStruct.arrangePrefixSumTree/1 assert pa by stay, parent, apart, inv: forall('x: *btreeNodeStruct', imp(L(tree, x) and x != tree.root and x.parentNode == insertNode, parentok(tree, x, x.parentNode)), x.parentNode)
  before btreeTreeStruct.arrangePrefixSumTree/1 assert pb by went, parent, apart, inv: forall('x: *btreeNodeStruct', imp(L(tree, x) and x != tree.root and x.parentNode == newRightSiblingNode, parentok(tree, x, x.parentNode)), x.parentNode)
  before btreeTreeStruct.arrangePrefixSumTree/1 assert pc by parent, others, apart, inv: forall('x: *btreeNodeStruct', imp(L(tree, x) and x != tree.root and x != newRightSiblingNode and x.parentNode != insertNode and x.parentNode != newRightSiblingNode, parentok(tree, x, x.parentNode)), x.parentNode)
  before btreeTreeStruct.arrangePrefixSumTree/1 assert parents by pa, pb, pc: ParentsH(tree, newRightSiblingNode)
  before btreeTreeStruct.arrangePrefixSumTree/1 assert mid: Own(tree) and Res(tree) and Leaves(tree) and FirstH(tree, newRightSiblingNode) and KidsH(tree, newRightSiblingNode) and Seps(tree) and ParentsH(tree, newRightSiblingNode) and Disj(tree) and TagsP(tree) and Sto(tree) and PreX2(tree, insertNode, newRightSiblingNode, insertNode.parentNode)
  at llrbTreeStruct.Put/4 assert kept: Leaves(tree) and Seps(tree)
  at llrbTreeStruct.Put/4 let root = tree.root
  at llrbTreeStruct.Put/4 root.lv = tree
  at llrbTreeStruct.Put/4 root.beg = 0
  at llrbTreeStruct.Put/4 root.end = tree.N
  at llrbTreeStruct.Put/4 root.hgt = insertNode.hgt + 1
  at llrbTreeStruct.Put/4 root.pend = true
  at llrbTreeStruct.Put/4 root.cut[j: Int] = cut0[m]
  at llrbTreeStruct.Put/4 insertNode.ix = 0
  at llrbTreeStruct.Put/4 newRightSiblingNode.ix = 1
  at llrbTreeStruct.Put/4 assert top by split: root.kvLLRB.mlen == 1 and sep(tree, root, 0)
  at llrbTreeStruct.Put/4 assert leaves by kept: Leaves(tree)
  at llrbTreeStruct.Put/4 assert seps by kept, top: Seps(tree)
  at llrbTreeStruct.Put/4 assert disk by mid: Disk(tree)
  at llrbTreeStruct.Put/4 assert two by mid, top, frames: parentok(tree, insertNode, root) and parentok(tree, newRightSiblingNode, root)
  at llrbTreeStruct.Put/4 assert more by mid, top, frames: forall('x: *btreeNodeStruct', imp(L(tree, x) and x != root and x != insertNode and x != newRightSiblingNode, parentok(tree, x, x.parentNode)), x.parentNode)
  at llrbTreeStruct.Put/4 assert parents by two, more: Parents(tree)
  at llrbTreeStruct.Put/4 assert shape by mid, top, frames: First(tree) and Kids(tree) and Disj(tree)
  at btreeTreeStruct.arrangePrefixSumTree/1 assert arr1: PreN(tree, insertNode)
  at btreeTreeStruct.arrangePrefixSumTree/1 assert mid1 by mid, arr1, frame: PreX2(tree, newRightSiblingNode, newRightSiblingNode, insertNode.parentNode)
  at btreeTreeStruct.arrangePrefixSumTree/2 assert arr2: PreN(tree, newRightSiblingNode)
  at btreeTreeStruct.arrangePrefixSumTree/2 assert mid2 by mid1, arr2, frame: PreX2(tree, insertNode.parentNode, insertNode.parentNode, insertNode.parentNode)
  before btreeTreeStruct.insertHere/1 assert pre by mid2: PreX(tree, insertNode.parentNode)
  before btreeTreeStruct.insertHere/1 assert carry by mid: KidsH(tree, newRightSiblingNode) and Seps(tree) and ParentsH(tree, newRightSiblingNode) and Disj(tree) and FirstH(tree, newRightSiblingNode)
  at btreeTreeStruct.insertHere/1 assert newr: L(tree, newRightSiblingNode) and newRightSiblingNode.pend and newRightSiblingNode.dirty
  at btreeTreeStruct.markNodeDirty arg_node.pend = false
  at btreeTreeStruct.rearrangePrefixSumTreeToRoot tree.bare = 0
  ensures inv: Str(tree) and Items(tree) and PreX(tree, asref(tree.bare)) and TagsP(tree) and DUp(tree) and Sto(tree)
  ensures fine: err == 0
  ensures bare: tree.bare == 0 or tree.bare == insertNode and forall('x: *btreeNodeStruct', imp(old(kidof(tree, x, insertNode)), kidof(tree, x, insertNode)), x.parentNode)
  ensures old: forall('x: *btreeNodeStruct', imp(old(L(tree, x)), L(tree, x) and x.hgt == old(x.hgt) and iff(x.pend, old(x.pend)) and imp(old(x.dirty), x.dirty)), x.lv)
  ensures new: forall('x: *btreeNodeStruct', imp(L(tree, x) and not old(L(tree, x)), not x.pend), x.lv)
  ensures top: tree.root.hgt >= old(tree.root.hgt)
  ensures list: listkept(tree)
  decreases tree.root.hgt - insertNode.hgt
  loop 1
    let mk0 = insertNode.kvLLRB.mk
    let mv0 = insertNode.kvLLRB.mv
    let m0 = insertNode.kvLLRB.mlen
    let hk = heap('llrbTreeStruct.mk')
    let hv = heap('llrbTreeStruct.mv')
    let hl = heap('llrbTreeStruct.mlen')
    let hi = heap('btreeNodeStruct.items')
    let hp = heap('btreeNodeStruct.parentNode')
    invariant at: tree.minKeysPerNode < llrbLen and llrbLen <= m0 and llrbLen == insertNode.kvLLRB.mlen and newRightSiblingNode.kvLLRB.mlen == m0 - llrbLen
    invariant apart: 0 < insertNode.kvLLRB and insertNode.kvLLRB < newRightSiblingNode.kvLLRB and newRightSiblingNode.kvLLRB < alloctop and insertNode < newRightSiblingNode
    invariant kept: forall('i', imp(0 <= i and i < llrbLen, insertNode.kvLLRB.mk[i] == mk0[i]), insertNode.kvLLRB.mk[i]) and
      forall('i', imp(0 <= i and i < llrbLen, insertNode.kvLLRB.mv[i] == mv0[i]), insertNode.kvLLRB.mv[i])
    invariant moved: forall('i', imp(0 <= i and i < m0 - llrbLen, newRightSiblingNode.kvLLRB.mk[i] == mk0[llrbLen + i]), newRightSiblingNode.kvLLRB.mk[i]) and
      forall('i', imp(0 <= i and i < m0 - llrbLen, newRightSiblingNode.kvLLRB.mv[i] == mv0[llrbLen + i]), newRightSiblingNode.kvLLRB.mv[i])
    invariant others: forall('t: *llrbTreeStruct', imp(t < alloctop and t != insertNode.kvLLRB and t != newRightSiblingNode.kvLLRB, t.mk == hk[t]), t.mk) and
      forall('t: *llrbTreeStruct', imp(t < alloctop and t != insertNode.kvLLRB and t != newRightSiblingNode.kvLLRB, t.mv == hv[t]), t.mv) and
      forall('t: *llrbTreeStruct', imp(t < alloctop and t != insertNode.kvLLRB and t != newRightSiblingNode.kvLLRB, t.mlen == hl[t]), t.mlen)
    invariant items: forall('x: *btreeNodeStruct', imp(x != insertNode and x != newRightSiblingNode, x.items == hi[x]), x.items)
    invariant part: insertNode.items == (insertNode.cut[llrbLen] if llrbLen < m0 else insertNode.end) - insertNode.beg and
      newRightSiblingNode.items == insertNode.end - (insertNode.cut[llrbLen] if llrbLen < m0 else insertNode.end)
    invariant parent: forall('x: *btreeNodeStruct', x.parentNode == (newRightSiblingNode if hp[x] == insertNode and L(tree, x) and x.ix > llrbLen else hp[x]), x.parentNode)
    decreases llrbLen

# the same, but for the mark on the root
def OwnW(t: *btreeTreeStruct) =
  forall('x: *btreeNodeStruct', imp(L(t, x),
    0 < x and x < alloctop and x.tree == t and 1 <= x.hgt and x.hgt <= t.root.hgt and
    0 <= x.beg and x.beg <= x.end and x.end <= t.N and imp(x.root, x == t.root) and
    imp(x != t.root, x.hgt <= x.end - x.beg)), x.lv)
# a separator right at the edge of a node's stretch agrees with the key
def fits(t: *btreeTreeStruct, n: *btreeNodeStruct, key: Key) =
  forall('x: *btreeNodeStruct, i', imp(inner(t, x) and 0 <= i and i < x.kvLLRB.mlen,
    imp(x.cut[i] == n.beg, ord(x.kvLLRB.mk[i]) <= ord(key)) and imp(x.cut[i] == n.end, ord(key) < ord(x.kvLLRB.mk[i]))), x.kvLLRB.mk[i], x.cut[i])
def added(t: *btreeTreeStruct, p: Int, key: Key, value: Value) =
  t.N == old(t.N) + 1 and
  forall('i', imp(0 <= i and i < t.N, t.K[i] == (old(t.K[i]) if i < p else key if i == p else old(t.K[i - 1]))), t.K[i]) and
  forall('i', imp(0 <= i and i < t.N, t.V[i] == (old(t.V[i]) if i < p else value if i == p else old(t.V[i - 1]))), t.V[i])

func btreeTreeStruct.insertHere@leaf
  option holds tree
  option allocates
  option nilfree cache
  option calls btreeTreeStruct.insertHere@inner
  requires inv: TI(tree)
  requires node: L(tree, insertNode) and insertNode.loaded and insertNode.hgt == 1
  requires at: around(tree, insertNode, key) and fits(tree, insertNode, key)
  requires notin: forall('i', imp(0 <= i and i < insertNode.kvLLRB.mlen, ord(insertNode.kvLLRB.mk[i]) != ord(key)), insertNode.kvLLRB.mk[i])
  requires room: tree.N + 1 < 2 ** 62
  modifies btreeNodeStruct.objectNumber
  modifies btreeNodeStruct.objectOffset
  modifies btreeNodeStruct.objectLength
  modifies btreeNodeStruct.items
  modifies btreeNodeStruct.loaded
  modifies btreeNodeStruct.dirty
  modifies btreeNodeStruct.root
  modifies btreeNodeStruct.leaf
  modifies btreeNodeStruct.tree
  modifies btreeNodeStruct.parentNode
  modifies btreeNodeStruct.kvLLRB
  modifies btreeNodeStruct.nonLeafLeftChild
  modifies btreeNodeStruct.rootPrefixSumChild
  modifies btreeNodeStruct.prefixSumItems
  modifies btreeNodeStruct.prefixSumKVIndex
  modifies btreeNodeStruct.prefixSumParent
  modifies btreeNodeStruct.prefixSumLeftChild
  modifies btreeNodeStruct.prefixSumRightChild
  modifies btreeNodeStruct.btreeNodeCacheTag
  modifies btreeNodeStruct.nextBTreeNode
  modifies btreeNodeStruct.prevBTreeNode
  modifies btreeNodeStruct.lv
  modifies btreeNodeStruct.beg
  modifies btreeNodeStruct.end
  modifies btreeNodeStruct.hgt
  modifies btreeNodeStruct.ix
  modifies btreeNodeStruct.cut
  modifies btreeNodeStruct.pb
  modifies btreeNodeStruct.pe
  modifies btreeNodeStruct.pd
  modifies btreeNodeStruct.pend
  modifies btreeNodeCacheStruct.cleanLRUHead
  modifies btreeNodeCacheStruct.cleanLRUTail
  modifies btreeNodeCacheStruct.cleanLRUItems
  modifies btreeNodeCacheStruct.dirtyLRUHead
  modifies btreeNodeCacheStruct.dirtyLRUTail
  modifies btreeNodeCacheStruct.dirtyLRUItems
  modifies btreeTreeStruct.root at t: t == tree
  modifies btreeTreeStruct.bare at t: t == tree
  modifies btreeTreeStruct.U at t: t == tree
  modifies btreeTreeStruct.staleOnDiskReferencesList at t: t == tree
  modifies staleMap.set at m: m == tree.staleOnDiskReferencesList
  modifies llrbTreeStruct.mlen
  modifies llrbTreeStruct.mk
  modifies llrbTreeStruct.mv
  modifies llrbTreeStruct.owner
  modifies llrbTreeStruct.T
  modifies btreeTreeStruct.N at t: t == tree
  modifies btreeTreeStruct.K at t: t == tree
  modifies btreeTreeStruct.V at t: t == tree
  before llrbTreeStruct.Put/1 let b0 = insertNode.beg
  before llrbTreeStruct.Put/1 let e0 = insertNode.end
  before llrbTreeStruct.Put/1 use Nest(tree)
  before llrbTreeStruct.Put/1 use PNested(tree)
  before llrbTreeStruct.Put/1 assert off: forall('x: *btreeNodeStruct', imp(L(tree, x) and x != insertNode, anc(x, insertNode) or x.end <= b0 or x.beg >= e0), x.lv)
  before llrbTreeStruct.Put/1 assert alone: imp(insertNode != tree.root, b0 < e0) and imp(insertNode == tree.root, forall('x: *btreeNodeStruct', not kid(tree, x), x.lv))
  before llrbTreeStruct.Put/1 assert poff: forall('x: *btreeNodeStruct', imp(kid(tree, x), x.pb < x.pe and (panc(x, insertNode) or x.pe <= b0 or x.pb >= e0)), x.pd, x.prefixSumItems)
  before llrbTreeStruct.Put/1 assert cuts: forall('x: *btreeNodeStruct, i', imp(inner(tree, x) and 0 <= i and i < x.kvLLRB.mlen, isNode(x.kvLLRB.mv[i]) and (asNode(x.kvLLRB.mv[i]).beg <= b0 or asNode(x.kvLLRB.mv[i]).beg >= e0)), x.kvLLRB.mv[i])
  before llrbTreeStruct.Put/1 assert cuts: forall('x: *btreeNodeStruct, i', imp(inner(tree, x) and 0 <= i and i < x.kvLLRB.mlen, isNode(x.kvLLRB.mv[i]) and (x.cut[i] <= b0 or x.cut[i] >= e0)), x.kvLLRB.mk[i], x.cut[i], x.kvLLRB.mv[i])
  before llrbTreeStruct.Put/1 let mk00 = insertNode.kvLLRB.mk
  before llrbTreeStruct.Put/1 let m00 = insertNode.kvLLRB.mlen
  before llrbTreeStruct.Put/1 assert seps: forall('x: *btreeNodeStruct, i', imp(inner(tree, x) and 0 <= i and i < x.kvLLRB.mlen,
    imp(x.cut[i] <= b0, ord(x.kvLLRB.mk[i]) <= ord(key)) and imp(x.cut[i] >= e0, ord(key) < ord(x.kvLLRB.mk[i]))), x.kvLLRB.mk[i], x.cut[i])
  at llrbTreeStruct.Put/1 let p = b0 + llrb_r
  at llrbTreeStruct.Put/1 assert put: imp(good(key), res_ok)
  at llrbTreeStruct.Put/1 assert edge: imp(good(key) and 0 < llrb_r, mk00[llrb_r - 1] == tree.K[p - 1] and ord(mk00[llrb_r - 1]) < ord(key)) and imp(good(key) and llrb_r < m00, mk00[llrb_r] == tree.K[p] and ord(key) <= ord(mk00[llrb_r]))
  at llrbTreeStruct.Put/1 assert rank: imp(good(key), rankat(tree, key, p) and not hit(tree, key, p))
  at llrbTreeStruct.Put/1 each x: btreeNodeStruct.pend = false
  before btreeTreeStruct.updatePrefixSumTreeLeafToRoot/1 tree.K[i: Int] = tree.K[i] if i < p else key if i == p else tree.K[i - 1]
  before btreeTreeStruct.updatePrefixSumTreeLeafToRoot/1 tree.V[i: Int] = tree.V[i] if i < p else value if i == p else tree.V[i - 1]
  before btreeTreeStruct.updatePrefixSumTreeLeafToRoot/1 tree.N = tree.N + 1
  before btreeTreeStruct.updatePrefixSumTreeLeafToRoot/1 each x, j: btreeNodeStruct.cut = x.cut[j] + 1 if x.cut[j] >= e0 else x.cut[j]
  before btreeTreeStruct.updatePrefixSumTreeLeafToRoot/1 each x: btreeNodeStruct.beg = x.beg + 1 if L(tree, x) and x.beg >= e0 and x != insertNode else x.beg
  before btreeTreeStruct.updatePrefixSumTreeLeafToRoot/1 each x: btreeNodeStruct.end = x.end + 1 if L(tree, x) and x.end >= e0 else x.end
  before btreeTreeStruct.updatePrefixSumTreeLeafToRoot/1 each x: btreeNodeStruct.pb = x.pb + 1 if kid(tree, x) and x.pb >= e0 else x.pb
  before btreeTreeStruct.updatePrefixSumTreeLeafToRoot/1 each x: btreeNodeStruct.pe = x.pe + 1 if kid(tree, x) and x.pe >= e0 else x.pe
  before btreeTreeStruct.updatePrefixSumTreeLeafToRoot/1 assert inv: StrO(tree) and OccX(tree, insertNode) and Pre(tree) and Tags(tree) and DUp(tree) and DLoc(tree) and Use(tree) and Stale(tree) and Held(tree) and ItemsP(tree, insertNode, 1) and PSumP(tree, insertNode, 1) and DiskP(tree, insertNode)
  before llrbTreeStruct.Put/2 assert first: imp(0 < newRightSiblingNode.kvLLRB.mlen, ord(splitKey) < ord(newRightSiblingNode.kvLLRB.mk[0]))
  at llrbTreeStruct.Put/2 assert front: llrb_r == 0 and res_ok
  before NewLLRBTree/2 let m = llrbLen
  before NewLLRBTree/2 let end0 = insertNode.end
  before NewLLRBTree/2 newRightSiblingNode.lv = tree
  before NewLLRBTree/2 newRightSiblingNode.beg = insertNode.beg + m
  before NewLLRBTree/2 newRightSiblingNode.end = end0
  before NewLLRBTree/2 newRightSiblingNode.hgt = 1
  before NewLLRBTree/2 newRightSiblingNode.ix = insertNode.ix
  before NewLLRBTree/2 newRightSiblingNode.pend = true
  before NewLLRBTree/2 insertNode.end = insertNode.beg + m
  before NewLLRBTree/2 assert stay: forall('i', imp(0 <= i and i < insertNode.kvLLRB.mlen, insertNode.kvLLRB.mk[i] == tree.K[insertNode.beg + i]), insertNode.kvLLRB.mk[i]) and forall('i', imp(0 <= i and i < insertNode.kvLLRB.mlen, insertNode.kvLLRB.mv[i] == tree.V[insertNode.beg + i]), insertNode.kvLLRB.mv[i])
  before NewLLRBTree/2 assert went: forall('i', imp(0 <= i and i < newRightSiblingNode.kvLLRB.mlen, newRightSiblingNode.kvLLRB.mk[i] == tree.K[newRightSiblingNode.beg + i]), newRightSiblingNode.kvLLRB.mk[i]) and forall('i', imp(0 <= i and i < newRightSiblingNode.kvLLRB.mlen, newRightSiblingNode.kvLLRB.mv[i] == tree.V[newRightSiblingNode.beg + i]), newRightSiblingNode.kvLLRB.mv[i])
  before NewLLRBTree/2 assert rest: forall('x: *btreeNodeStruct, i', imp(L(tree, x) and x.loaded and x.hgt == 1 and x != insertNode and x != newRightSiblingNode and 0 <= i and i < x.kvLLRB.mlen, x.kvLLRB.mk[i] == tree.K[x.beg + i]), x.kvLLRB.mk[i]) and forall('x: *btreeNodeStruct, i', imp(L(tree, x) and x.loaded and x.hgt == 1 and x != insertNode and x != newRightSiblingNode and 0 <= i and i < x.kvLLRB.mlen, x.kvLLRB.mv[i] == tree.V[x.beg + i]), x.kvLLRB.mv[i])
  before NewLLRBTree/2 assert leaves by stay, went, rest: Leaves(tree)
  before NewLLRBTree/2 assert mid: OwnW(tree) and Res(tree) and FirstH(tree, newRightSiblingNode) and KidsH(tree, newRightSiblingNode) and Seps(tree) and ParentsH(tree, newRightSiblingNode) and Disj(tree) and TagsP(tree) and Sto(tree) and PreX2(tree, insertNode, newRightSiblingNode, insertNode.parentNode)
  before btreeTreeStruct.insertHere/1 let m = llrbLen
  before btreeTreeStruct.insertHere/1 let end0 = insertNode.end
  before btreeTreeStruct.insertHere/1 newRightSiblingNode.lv = tree
  before btreeTreeStruct.insertHere/1 newRightSiblingNode.beg = insertNode.beg + m
  before btreeTreeStruct.insertHere/1 newRightSiblingNode.end = end0
  before btreeTreeStruct.insertHere/1 newRightSiblingNode.hgt = 1
  before btreeTreeStruct.insertHere/1 newRightSiblingNode.ix = insertNode.ix
  before btreeTreeStruct.insertHere/1 newRightSiblingNode.pend = true
  before btreeTreeStruct.insertHere/1 insertNode.end = insertNode.beg + m
  before btreeTreeStruct.insertHere/1 assert stay: forall('i', imp(0 <= i and i < insertNode.kvLLRB.mlen, insertNode.kvLLRB.mk[i] == tree.K[insertNode.beg + i]), insertNode.kvLLRB.mk[i]) and forall('i', imp(0 <= i and i < insertNode.kvLLRB.mlen, insertNode.kvLLRB.mv[i] == tree.V[insertNode.beg + i]), insertNode.kvLLRB.mv[i])
  before btreeTreeStruct.insertHere/1 assert went: forall('i', imp(0 <= i and i < newRightSiblingNode.kvLLRB.mlen, newRightSiblingNode.kvLLRB.mk[i] == tree.K[newRightSiblingNode.beg + i]), newRightSiblingNode.kvLLRB.mk[i]) and forall('i', imp(0 <= i and i < newRightSiblingNode.kvLLRB.mlen, newRightSiblingNode.kvLLRB.mv[i] == tree.V[newRightSiblingNode.beg + i]), newRightSiblingNode.kvLLRB.mv[i])
  before btreeTreeStruct.insertHere/1 assert rest: forall('x: *btreeNodeStruct, i', imp(L(tree, x) and x.loaded and x.hgt == 1 and x != insertNode and x != newRightSiblingNode and 0 <= i and i < x.kvLLRB.mlen, x.kvLLRB.mk[i] == tree.K[x.beg + i]), x.kvLLRB.mk[i]) and forall('x: *btreeNodeStruct, i', imp(L(tree, x) and x.loaded and x.hgt == 1 and x != insertNode and x != newRightSiblingNode and 0 <= i and i < x.kvLLRB.mlen, x.kvLLRB.mv[i] == tree.V[x.beg + i]), x.kvLLRB.mv[i])
  before btreeTreeStruct.insertHere/1 assert leaves by stay, went, rest: Leaves(tree)
  before btreeTreeStruct.insertHere/1 assert mid: OwnW(tree) and Res(tree) and FirstH(tree, newRightSiblingNode) and KidsH(tree, newRightSiblingNode) and Seps(tree) and ParentsH(tree, newRightSiblingNode) and Disj(tree) and TagsP(tree) and Sto(tree) and PreX2(tree, insertNode, newRightSiblingNode, insertNode.parentNode)
  at llrbTreeStruct.Put/4 assert kept: Leaves(tree) and Seps(tree)
  at llrbTreeStruct.Put/4 let root = tree.root
  at llrbTreeStruct.Put/4 root.lv = tree
  at llrbTreeStruct.Put/4 root.beg = 0
  at llrbTreeStruct.Put/4 root.end = tree.N
  at llrbTreeStruct.Put/4 root.hgt = insertNode.hgt + 1
  at llrbTreeStruct.Put/4 root.pend = true
  at llrbTreeStruct.Put/4 root.cut[j: Int] = insertNode.beg + m
  at llrbTreeStruct.Put/4 insertNode.ix = 0
  at llrbTreeStruct.Put/4 newRightSiblingNode.ix = 1
  at llrbTreeStruct.Put/4 assert top: root.kvLLRB.mlen == 1 and sep(tree, root, 0)
  at llrbTreeStruct.Put/4 assert leaves by kept: Leaves(tree)
  at llrbTreeStruct.Put/4 assert seps by kept, top: Seps(tree)
  at llrbTreeStruct.Put/4 assert disk by mid: Disk(tree)
  at btreeTreeStruct.insertHere/1 assert newr: L(tree, newRightSiblingNode) and newRightSiblingNode.pend and newRightSiblingNode.dirty
  at btreeTreeStruct.markNodeDirty arg_node.pend = false
  exitlet q = p
  ensures inv: TI(tree)
  ensures rank: imp(good(key), old(rankat(tree, key, q) and not hit(tree, key, q)))
  ensures refused: iff(err == 0, good(key)) and calm(tree)
  ensures added: imp(err == 0, added(tree, q, key, value))
  ensures kept: imp(err != 0, same(tree))
  ensures list: listkept(tree)
  loop 1
    let mk0 = insertNode.kvLLRB.mk
    let mv0 = insertNode.kvLLRB.mv
    let m0 = insertNode.kvLLRB.mlen
    let hk = heap('llrbTreeStruct.mk')
    let hv = heap('llrbTreeStruct.mv')
    let hl = heap('llrbTreeStruct.mlen')
    let hi = heap('btreeNodeStruct.items')
    let hp = heap('btreeNodeStruct.parentNode')
    invariant at: tree.minKeysPerNode < llrbLen and llrbLen <= m0 and llrbLen == insertNode.kvLLRB.mlen and newRightSiblingNode.kvLLRB.mlen == m0 - llrbLen
    invariant apart: 0 < insertNode.kvLLRB and insertNode.kvLLRB < newRightSiblingNode.kvLLRB and newRightSiblingNode.kvLLRB < alloctop and insertNode < newRightSiblingNode
    invariant kept: forall('i', imp(0 <= i and i < llrbLen, insertNode.kvLLRB.mk[i] == mk0[i]), insertNode.kvLLRB.mk[i]) and
      forall('i', imp(0 <= i and i < llrbLen, insertNode.kvLLRB.mv[i] == mv0[i]), insertNode.kvLLRB.mv[i])
    invariant moved: forall('i', imp(0 <= i and i < m0 - llrbLen, newRightSiblingNode.kvLLRB.mk[i] == mk0[llrbLen + i]), newRightSiblingNode.kvLLRB.mk[i]) and
      forall('i', imp(0 <= i and i < m0 - llrbLen, newRightSiblingNode.kvLLRB.mv[i] == mv0[llrbLen + i]), newRightSiblingNode.kvLLRB.mv[i])
    invariant others: forall('t: *llrbTreeStruct', imp(t < alloctop and t != insertNode.kvLLRB and t != newRightSiblingNode.kvLLRB, t.mk == hk[t]), t.mk) and
      forall('t: *llrbTreeStruct', imp(t < alloctop and t != insertNode.kvLLRB and t != newRightSiblingNode.kvLLRB, t.mv == hv[t]), t.mv) and
      forall('t: *llrbTreeStruct', imp(t < alloctop and t != insertNode.kvLLRB and t != newRightSiblingNode.kvLLRB, t.mlen == hl[t]), t.mlen)
    invariant items: forall('x: *btreeNodeStruct', imp(x != insertNode and x != newRightSiblingNode, x.items == hi[x]), x.items)
    invariant part: insertNode.items == llrbLen and newRightSiblingNode.items == m0 - llrbLen
    invariant parent: forall('x: *btreeNodeStruct', x.parentNode == hp[x], x.parentNode)
    decreases llrbLen

func btreeTreeStruct.Put
  option noframe
  option calls btreeTreeStruct.insertHere@leaf
  requires room: tree.N + 1 < 2 ** 62
  before btreeTreeStruct.incCacheHits let p = 0
  before btreeTreeStruct.incCacheMisses let p = 0
  at llrbTreeStruct.GetByKey/1 let p = node.beg + llrb_r
  at llrbTreeStruct.GetByIndex/1 use Nest(tree)
  at llrbTreeStruct.GetByIndex/1 assert disj: Disj(tree) and Own(tree)
  at llrbTreeStruct.GetByIndex/1 assert next: forall('k: *btreeNodeStruct', imp(kidof(tree, k, node), k.beg < k.end and k.ix <= node.kvLLRB.mlen and imp(k.ix == node.kvLLRB.mlen, k.end == node.end) and
    imp(k.ix < node.kvLLRB.mlen, isNode(node.kvLLRB.mv[k.ix]) and kidof(tree, asNode(node.kvLLRB.mv[k.ix]), node) and asNode(node.kvLLRB.mv[k.ix]).beg == k.end and
      asNode(node.kvLLRB.mv[k.ix]).beg < asNode(node.kvLLRB.mv[k.ix]).end and asNode(node.kvLLRB.mv[k.ix]).ix == k.ix + 1 and asNode(node.kvLLRB.mv[k.ix]).hgt == k.hgt)), k.beg)
  at llrbTreeStruct.GetByIndex/1 assert sep: forall('x: *btreeNodeStruct, i', imp(inner(tree, x) and 0 <= i and i < x.kvLLRB.mlen, isNode(x.kvLLRB.mv[i]) and L(tree, asNode(x.kvLLRB.mv[i])) and
    asNode(x.kvLLRB.mv[i]).beg == x.cut[i] and asNode(x.kvLLRB.mv[i]).beg < asNode(x.kvLLRB.mv[i]).end and asNode(x.kvLLRB.mv[i]).hgt == x.hgt - 1 and asNode(x.kvLLRB.mv[i]).ix == i + 1 and
    asNode(x.kvLLRB.mv[i]).parentNode == x and x.cut[i] < x.end and x.nonLeafLeftChild.beg == x.beg and x.nonLeafLeftChild.ix == 0 and x.nonLeafLeftChild.hgt == x.hgt - 1 and
    L(tree, x.nonLeafLeftChild) and x.nonLeafLeftChild.beg < x.nonLeafLeftChild.end and x.beg <= x.cut[i]), x.cut[i], x.kvLLRB.mv[i])
  at llrbTreeStruct.GetByIndex/1 assert inside by sep, disj: forall('x: *btreeNodeStruct, i', imp(inner(tree, x) and 0 <= i and i < x.kvLLRB.mlen, x.beg < x.cut[i]), x.cut[i])
  at llrbTreeStruct.GetByIndex/1 assert lower by Nest, sep, inside: forall('x: *btreeNodeStruct, i, k: *btreeNodeStruct', imp(inner(tree, x) and 0 <= i and i < x.kvLLRB.mlen and L(tree, k) and k.beg < k.end and k.beg == x.cut[i],
    k.hgt < x.hgt), (x.cut[i], k.beg))
  at llrbTreeStruct.GetByIndex/1 assert edges by sep, inside, lower, next, disj: forall('x: *btreeNodeStruct, i, k: *btreeNodeStruct', imp(inner(tree, x) and 0 <= i and i < x.kvLLRB.mlen and isNode(x.kvLLRB.mv[i]) and kidof(tree, k, node),
    imp(x.cut[i] == k.beg, k.beg == node.beg or x == node and i == k.ix - 1) and imp(x.cut[i] == k.end, k.end == node.end or x == node and i == k.ix)), (x.cut[i], k.beg))
  at btreeTreeStruct.insertHere/1 let p = exit_q
  exitlet p = p
  ensures kept: imp(err != 0 or not ok, same(tree))
  ensures rank: imp(err == 0, old(rankat(tree, key, p)))
  ensures duplicate: imp(err == 0, iff(ok, not old(hit(tree, key, p))))
  ensures added: imp(err == 0 and ok, added(tree, p, key, value))
  ensures failed: imp(err != 0, not ok)
  ensures refused: iff(err == 0, calm(tree) and good(key))
  loop 1
    invariant inv: TI(tree) and calm(tree)
    invariant same: same(tree)
    invariant node: L(tree, node)
    invariant at: around(tree, node, key) and fits(tree, node, key)
    decreases node.hgt
