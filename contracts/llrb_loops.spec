# What the abstract view means for the red-black representation, and the contracts of the search loops.

ghostfield llrbTreeStruct.T Tree
def mlen(t: *llrbTreeStruct): size(t.T)
def mkey(t: *llrbTreeStruct, i: Int): nthk(t.T, i)
def mval(t: *llrbTreeStruct, i: Int): nthv(t.T, i)

monitor llrbTreeStruct
  invariant tree: treeinv(T)

func llrbTreeStruct.BisectLeft
  loop 1 procedure
    consume T = node
    produce T2 = node
    decreases size(T)
    requires T != Leaf and bst(T) and lenok(T) and good(key)
    requires iff(compareResult < 0, ord(key) < ord(T.k)) and iff(compareResult > 0, ord(key) > ord(T.k))
    ensures same: T2 == T
    ensures err: err == 0
    ensures found: iff(found, has(T, ord(key)))
    ensures index: index == nodeIndex - size(T.l) + rank(T, ord(key)) - (0 if found else 1)
func llrbTreeStruct.BisectRight
  loop 1 procedure
    consume T = node
    produce T2 = node
    decreases size(T)
    requires T != Leaf and bst(T) and lenok(T) and good(key)
    requires iff(compareResult < 0, ord(key) < ord(T.k)) and iff(compareResult > 0, ord(key) > ord(T.k))
    ensures same: T2 == T
    ensures err: err == 0
    ensures found: iff(found, has(T, ord(key)))
    ensures index: index == nodeIndex - size(T.l) + rank(T, ord(key))
func llrbTreeStruct.GetByIndex
  loop 1 procedure
    consume T = node
    produce T2 = node
    decreases size(T)
    requires T != Leaf and bst(T) and lenok(T) and ok and err == 0
    requires 0 <= index - (nodeIndex - size(T.l)) and index - (nodeIndex - size(T.l)) < size(T)
    ensures same: T2 == T
    ensures ok: ok and err == 0
    ensures pair: key == nthk(T, index - (nodeIndex - size(T.l))) and value == nthv(T, index - (nodeIndex - size(T.l)))
func llrbTreeStruct.GetByKey
  loop 1 procedure
    consume T = node
    produce T2 = node
    decreases size(T)
    requires bst(T)
    requires ok == false and err == 0
    ensures same: T2 == T
    ensures err: iff(err != 0, T != Leaf and not good(key))
    ensures failed: imp(err != 0, not ok)
    ensures found: imp(err == 0, iff(ok, has(T, ord(key))))
    ensures pair: imp(err == 0 and ok, value == nthv(T, rank(T, ord(key))))
func llrbTreeStruct.PatchByIndex
  loop 1 procedure
    consume T = node
    produce T2 = node
    decreases size(T)
    requires T != Leaf and bst(T) and lenok(T) and ok and err == 0
    requires 0 <= index - (nodeIndex - size(T.l)) and index - (nodeIndex - size(T.l)) < size(T)
    ensures same: noval(T2) == noval(T)
    ensures ok: ok and err == 0
    ensures vals: forall('i', imp(0 <= i and i < size(T), nthv(T2, i) == (value if i == index - (nodeIndex - size(T.l)) else nthv(T, i))), nthv(T2, i))
func llrbTreeStruct.PatchByKey
  loop 1 procedure
    consume T = node
    produce T2 = node
    decreases size(T)
    requires bst(T)
    requires ok == false and err == 0
    ensures same: noval(T2) == noval(T)
    ensures err: iff(err != 0, T != Leaf and not good(key))
    ensures found: imp(err == 0, iff(ok, has(T, ord(key))))
    ensures rejected: imp(err != 0 or not ok, T2 == T and not ok)
    ensures vals: imp(err == 0 and ok, forall('i', imp(0 <= i and i < size(T), nthv(T2, i) == (value if i == rank(T, ord(key)) else nthv(T, i))), nthv(T2, i)))

func NewLLRBTree
  ensures established: tree.root == nil and tree.T == Leaf

# ---- Dump: reads only
trusted LLRBTreeCallbacks.DumpKey
func llrbTreeStruct.Dump
  option locks tree
  requires callbacks: tree.LLRBTreeCallbacks != nil
  ensures same: unchanged(tree)
func llrbTreeStruct.dumpInFlatForm
  consume T = node
  requires callbacks: tree.LLRBTreeCallbacks != nil
  produce T2 = node
  decreases size(T)
  ensures same: T2 == T
func llrbTreeStruct.dumpInTreeForm
  consume T = tree.root
  requires callbacks: tree.LLRBTreeCallbacks != nil
  produce T2 = tree.root
  ensures same: T2 == T
func llrbTreeStruct.dumpInTreeFormNode
  consume T = node
  requires nonempty: node != nil
  requires callbacks: tree.LLRBTreeCallbacks != nil
  produce T2 = node
  decreases size(T)
  ensures same: T2 == T
