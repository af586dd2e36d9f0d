# Public contracts of the in-memory map, over the abstract sequence of pairs
# mkey(tree, 0..mlen-1), mval(tree, 0..mlen-1).  Proved for llrb_tree.go, assumed by the B+Tree's callers.

def isrank(tree: *llrbTreeStruct, x: Real, r: Int): 0 <= r and r <= mlen(tree) and forall('i', imp(0 <= i and i < mlen(tree), iff(i < r, ord(mkey(tree, i)) < x)), mkey(tree, i))
def ordered(tree: *llrbTreeStruct): mlen(tree) >= 0 and forall('i', imp(0 <= i and i < mlen(tree), good(mkey(tree, i))), mkey(tree, i)) and forall('i, j', imp(0 <= i and i < j and j < mlen(tree), ord(mkey(tree, i)) < ord(mkey(tree, j))), (mkey(tree, i), mkey(tree, j)))
def isat(tree: *llrbTreeStruct, x: Real, r: Int): r < mlen(tree) and ord(mkey(tree, r)) == x
def unchanged(tree: *llrbTreeStruct): mlen(tree) == old(mlen(tree)) and forall('i', imp(0 <= i and i < mlen(tree), mkey(tree, i) == old(mkey(tree, i))), mkey(tree, i)) and forall('i', imp(0 <= i and i < mlen(tree), mval(tree, i) == old(mval(tree, i))), mval(tree, i))
def removed(tree: *llrbTreeStruct, r: Int): mlen(tree) == old(mlen(tree)) - 1 and forall('i', imp(0 <= i and i < mlen(tree), mkey(tree, i) == (old(mkey(tree, i)) if i < r else old(mkey(tree, i + 1)))), mkey(tree, i)) and forall('i', imp(0 <= i and i < mlen(tree), mval(tree, i) == (old(mval(tree, i)) if i < r else old(mval(tree, i + 1)))), mval(tree, i))
def inserted(tree: *llrbTreeStruct, r: Int, key: Key, value: Value): mlen(tree) == old(mlen(tree)) + 1 and forall('i', imp(0 <= i and i < mlen(tree), mkey(tree, i) == (old(mkey(tree, i)) if i < r else (key if i == r else old(mkey(tree, i - 1))))), mkey(tree, i)) and forall('i', imp(0 <= i and i < mlen(tree), mval(tree, i) == (old(mval(tree, i)) if i < r else (value if i == r else old(mval(tree, i - 1))))), mval(tree, i))
def patched(tree: *llrbTreeStruct, r: Int, value: Value): mlen(tree) == old(mlen(tree)) and forall('i', imp(0 <= i and i < mlen(tree), mkey(tree, i) == old(mkey(tree, i))), mkey(tree, i)) and forall('i', imp(0 <= i and i < mlen(tree), mval(tree, i) == (value if i == r else old(mval(tree, i)))), mval(tree, i))

func llrbTreeStruct.Len
  option locks tree
  ensures same: unchanged(tree)
  ensures len: err == 0 and numberOfItems == mlen(tree)
  ensures order: ordered(tree)

func llrbTreeStruct.GetByIndex
  option locks tree
  ensures same: unchanged(tree)
  ensures range: err == 0 and iff(ok, 0 <= index and index < mlen(tree))
  ensures pair: imp(ok, key == mkey(tree, index) and value == mval(tree, index))
  ensures order: ordered(tree)

func llrbTreeStruct.GetByKey
  option locks tree
  witness r = rank(tree.T, ord(key))
  ensures same: unchanged(tree)
  ensures err: iff(err != 0, mlen(tree) > 0 and not good(key))
  ensures rank: isrank(tree, ord(key), r)
  ensures found: imp(err == 0, iff(ok, isat(tree, ord(key), r)))
  ensures pair: imp(err == 0 and ok, value == mval(tree, r))
  ensures failed: imp(err != 0, not ok)
  ensures order: ordered(tree)

func llrbTreeStruct.BisectLeft
  option locks tree
  witness r = rank(tree.T, ord(key))
  ensures same: unchanged(tree)
  ensures err: iff(err != 0, mlen(tree) > 0 and not good(key))
  ensures rank: isrank(tree, ord(key), r)
  ensures found: imp(err == 0, iff(found, isat(tree, ord(key), r)))
  ensures index: imp(err == 0, index == (r if found else r - 1))
  ensures order: ordered(tree)

func llrbTreeStruct.BisectRight
  option locks tree
  witness r = rank(tree.T, ord(key))
  ensures same: unchanged(tree)
  ensures err: iff(err != 0, mlen(tree) > 0 and not good(key))
  ensures rank: isrank(tree, ord(key), r)
  ensures found: imp(err == 0, iff(found, isat(tree, ord(key), r)))
  ensures index: imp(err == 0, index == r)
  ensures order: ordered(tree)

func llrbTreeStruct.DeleteByIndex
  option locks tree
  option mutates tree
  ensures range: err == 0 and iff(ok, 0 <= index and index < old(mlen(tree)))
  ensures rejected: imp(not ok, unchanged(tree))
  ensures removed: imp(ok, removed(tree, index))
  ensures order: ordered(tree)

func llrbTreeStruct.DeleteByKey
  option locks tree
  option mutates tree
  witness r = rank(tree.T, ord(key))
  ensures err: iff(err != 0, old(mlen(tree)) > 0 and not good(key))
  ensures rank: old(isrank(tree, ord(key), r))
  ensures found: imp(err == 0, iff(ok, old(isat(tree, ord(key), r))))
  ensures rejected: imp(err != 0 or not ok, unchanged(tree) and not ok)
  ensures removed: imp(err == 0 and ok, removed(tree, r))
  ensures order: ordered(tree)

func llrbTreeStruct.PatchByIndex
  option locks tree
  option mutates tree
  ensures range: err == 0 and iff(ok, 0 <= index and index < old(mlen(tree)))
  ensures rejected: imp(not ok, unchanged(tree))
  ensures patched: imp(ok, patched(tree, index, value))
  ensures order: ordered(tree)

func llrbTreeStruct.PatchByKey
  option locks tree
  option mutates tree
  witness r = rank(tree.T, ord(key))
  ensures err: iff(err != 0, old(mlen(tree)) > 0 and not good(key))
  ensures rank: old(isrank(tree, ord(key), r))
  ensures found: imp(err == 0, iff(ok, old(isat(tree, ord(key), r))))
  ensures rejected: imp(err != 0 or not ok, unchanged(tree) and not ok)
  ensures patched: imp(err == 0 and ok, patched(tree, r, value))
  ensures order: ordered(tree)

func llrbTreeStruct.Put
  option locks tree
  option mutates tree
  witness r = rank(tree.T, ord(key))
  ensures err: iff(err != 0, not good(key))
  ensures rank: old(isrank(tree, ord(key), r))
  ensures duplicate: imp(err == 0, iff(ok, not old(isat(tree, ord(key), r))))
  ensures rejected: imp(err != 0 or not ok, unchanged(tree) and not ok)
  ensures inserted: imp(err == 0 and ok, inserted(tree, r, key, value))
  ensures order: ordered(tree)

func llrbTreeStruct.Reset
  option locks tree
  option mutates tree
  ensures empty: mlen(tree) == 0
  ensures order: ordered(tree)

func llrbTreeStruct.Validate
  option locks tree
  ensures accepts: err == 0
  ensures same: unchanged(tree)

func NewLLRBTree
  option allocates
  ensures fresh: tree != nil and mlen(tree) == 0 and ordered(tree)
