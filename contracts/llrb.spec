# Contracts for the in-memory (left-leaning red-black) map: llrb_tree.go, llrb_validate.go.
#
# A node pointer owns a ghost tree (separation-logic style): "consume T = p" takes ownership of the
# tree rooted at p and names its value T; "produce T2 = p" hands it back.  All functions below are
# recursive definitions over that value; ord/good describe the comparator callback.

ghostfunc ord(Any) -> Real
ghostfunc good(Any) -> Bool

rec size(T: Tree) -> Int
  leaf 0
  node 1 + size(l) + size(r)
rec nthk(T: Tree, i: Int) -> Any
  leaf nilany
  node nthk(l, i) if i < size(l) else (k if i == size(l) else nthk(r, i - size(l) - 1))
rec nthv(T: Tree, i: Int) -> Any
  leaf nilany
  node nthv(l, i) if i < size(l) else (v if i == size(l) else nthv(r, i - size(l) - 1))
rec mn(T: Tree) -> Real
  leaf real(0)
  node ord(k) if l == Leaf else mn(l)
rec mx(T: Tree) -> Real
  leaf real(0)
  node ord(k) if r == Leaf else mx(r)
rec bst(T: Tree) -> Bool
  leaf true
  node bst(l) and bst(r) and good(k) and (l == Leaf or mx(l) < ord(k)) and (r == Leaf or ord(k) < mn(r))
rec rank(T: Tree, x: Real) -> Int
  leaf 0
  node rank(l, x) if x <= ord(k) else size(l) + 1 + rank(r, x)
rec has(T: Tree, x: Real) -> Bool
  leaf false
  node x == ord(k) or (x < ord(k) and has(l, x)) or (x > ord(k) and has(r, x))
rec keyat(T: Tree, x: Real) -> Any
  leaf nilany
  node keyat(l, x) if x < ord(k) else (k if x == ord(k) else keyat(r, x))
rec valat(T: Tree, x: Real) -> Any
  leaf nilany
  node valat(l, x) if x < ord(k) else (v if x == ord(k) else valat(r, x))
rec sizex(T: Tree, x: Real) -> Int
  leaf 0
  node sizex(l, x) + sizex(r, x) + (0 if ord(k) == x else 1)
rec lenok(T: Tree) -> Bool
  leaf true
  node n == size(T) and lenok(l) and lenok(r)
rec lenx(T: Tree, x: Real) -> Bool
  leaf true
  node n == sizex(T, x) and lenx(l, x) and lenx(r, x)
rec isred(T: Tree) -> Bool
  leaf false
  node red
rec bh(T: Tree) -> Int
  leaf 0
  node bh(l) + (0 if red else 1)
rec rb(T: Tree) -> Bool
  leaf true
  node rb(l) and rb(r) and bh(l) == bh(r) and not isred(r) and not (red and isred(l))
rec rbw(T: Tree) -> Bool
  leaf true
  node rb(l) and rb(r) and bh(l) == bh(r) and not isred(r)
rec height(T: Tree) -> Int
  leaf 0
  node 1 + (height(l) if height(l) > height(r) else height(r))
rec bcap(T: Tree) -> Int
  leaf 1
  node bcap(l) if red else 2 * bcap(l)

# ---- lemmas (each proved by structural induction on every run)

lemma size_nonneg(T: Tree)
  option core
  induction T
  ensures size(T) >= 0 and iff(size(T) == 0, T == Leaf)
  pattern size(T)
lemma size_positive(T: Tree)
  option core
  ensures iff(size(T) == 0, T == Leaf)
  pattern size(T)
lemma rank_range(T: Tree, x: Real)
  option core
  induction T
  ensures 0 <= rank(T, x) and rank(T, x) <= size(T)
  pattern rank(T, x)
lemma mnmx(T: Tree)
  option core
  induction T
  requires bst(T) and T != Leaf
  ensures mn(T) <= mx(T)
  pattern bst(T), mn(T)
  pattern bst(T), mx(T)
lemma below(T: Tree, x: Real)
  option core
  induction T
  requires bst(T) and T != Leaf and x < mn(T)
  ensures not has(T, x) and rank(T, x) == 0
  pattern bst(T), has(T, x)
  pattern bst(T), rank(T, x)
lemma above(T: Tree, x: Real)
  option core
  induction T
  requires bst(T) and T != Leaf and x > mx(T)
  ensures not has(T, x) and rank(T, x) == size(T)
  pattern bst(T), has(T, x)
  pattern bst(T), rank(T, x)
lemma within(T: Tree, x: Real)
  option core
  induction T
  requires bst(T) and has(T, x)
  ensures mn(T) <= x and x <= mx(T) and rank(T, x) < size(T)
  pattern bst(T), has(T, x)
lemma recolour(a: ref, a2: ref, k: Any, v: Any, c: Bool, c2: Bool, n: Int, n2: Int, l: Tree, r: Tree, y: Real)
  option core
  ensures iff(has(NodeT(a, k, v, c, n, l, r), y), has(NodeT(a2, k, v, c2, n2, l, r), y)) and rank(NodeT(a, k, v, c, n, l, r), y) == rank(NodeT(a2, k, v, c2, n2, l, r), y) and keyat(NodeT(a, k, v, c, n, l, r), y) == keyat(NodeT(a2, k, v, c2, n2, l, r), y) and valat(NodeT(a, k, v, c, n, l, r), y) == valat(NodeT(a2, k, v, c2, n2, l, r), y)
  pattern NodeT(a, k, v, c, n, l, r), has(NodeT(a2, k, v, c2, n2, l, r), y)
  pattern NodeT(a, k, v, c, n, l, r), rank(NodeT(a2, k, v, c2, n2, l, r), y)
  pattern NodeT(a, k, v, c, n, l, r), keyat(NodeT(a2, k, v, c2, n2, l, r), y)
  pattern NodeT(a, k, v, c, n, l, r), valat(NodeT(a2, k, v, c2, n2, l, r), y)
lemma rotated(a: ref, a2: ref, b: ref, k: Any, k2: Any, v: Any, v2: Any, c: Bool, c2: Bool, c3: Bool, n: Int, n2: Int, n3: Int, l: Tree, l2: Tree, r: Tree, y: Real)
  option core
  ensures iff(has(NodeT(a, k, v, c, n, l, r), y), y == ord(k) or (y < ord(k) and has(l, y)) or (y > ord(k) and has(r, y))) and rank(NodeT(a, k, v, c, n, l, r), y) == (rank(l, y) if y <= ord(k) else size(l) + 1 + rank(r, y)) and keyat(NodeT(a, k, v, c, n, l, r), y) == (keyat(l, y) if y < ord(k) else (k if y == ord(k) else keyat(r, y))) and valat(NodeT(a, k, v, c, n, l, r), y) == (valat(l, y) if y < ord(k) else (v if y == ord(k) else valat(r, y)))
  pattern NodeT(a, k, v, c, n, l, r), has(NodeT(a2, k, v, c2, n2, NodeT(b, k2, v2, c3, n3, l2, l), r), y)
  pattern NodeT(a, k, v, c, n, l, r), rank(NodeT(a2, k, v, c2, n2, NodeT(b, k2, v2, c3, n3, l2, l), r), y)
  pattern NodeT(a, k, v, c, n, l, r), keyat(NodeT(a2, k, v, c2, n2, NodeT(b, k2, v2, c3, n3, l2, l), r), y)
  pattern NodeT(a, k, v, c, n, l, r), valat(NodeT(a2, k, v, c2, n2, NodeT(b, k2, v2, c3, n3, l2, l), r), y)
lemma notin(T: Tree, x: Real)
  option core
  induction T
  requires bst(T) and not has(T, x)
  ensures sizex(T, x) == size(T) and iff(lenok(T), lenx(T, x))
  pattern bst(T), sizex(T, x)
  pattern bst(T), lenx(T, x)
lemma isin(T: Tree, x: Real)
  option core
  induction T
  requires bst(T) and has(T, x)
  ensures sizex(T, x) == size(T) - 1
  pattern bst(T), has(T, x), sizex(T, x)
lemma nthbounds(T: Tree, i: Int)
  induction T
  requires bst(T) and 0 <= i and i < size(T)
  ensures mn(T) <= ord(nthk(T, i)) and ord(nthk(T, i)) <= mx(T) and good(nthk(T, i))
  pattern bst(T), nthk(T, i)
lemma nthrank(T: Tree, i: Int)
  induction T
  requires bst(T) and 0 <= i and i < size(T)
  ensures rank(T, ord(nthk(T, i))) == i and has(T, ord(nthk(T, i)))
  pattern bst(T), nthk(T, i)
lemma atnth(T: Tree, i: Int)
  induction T
  requires bst(T) and 0 <= i and i < size(T)
  ensures keyat(T, ord(nthk(T, i))) == nthk(T, i) and valat(T, ord(nthk(T, i))) == nthv(T, i)
  pattern bst(T), nthk(T, i)
  pattern bst(T), nthv(T, i)
lemma atrank(T: Tree, x: Real)
  induction T
  requires bst(T) and has(T, x)
  ensures rank(T, x) < size(T) and nthk(T, rank(T, x)) == keyat(T, x) and nthv(T, rank(T, x)) == valat(T, x) and ord(keyat(T, x)) == x
  pattern bst(T), keyat(T, x)
  pattern bst(T), valat(T, x)
lemma rankmono(T: Tree, x: Real, y: Real)
  induction T
  requires bst(T) and x < y
  ensures rank(T, x) <= rank(T, y) and imp(has(T, x), rank(T, x) < rank(T, y))
lemma nthsorted(T: Tree, i: Int, j: Int)
  induction T
  requires bst(T) and 0 <= i and i < j and j < size(T)
  ensures ord(nthk(T, i)) < ord(nthk(T, j))
lemma rankle(T: Tree, x: Real, i: Int)
  induction T
  requires bst(T) and 0 <= i and i < size(T)
  ensures iff(i < rank(T, x), ord(nthk(T, i)) < x)
  pattern rank(T, x), nthk(T, i)
lemma hasnth(T: Tree, x: Real)
  induction T
  requires bst(T)
  ensures iff(has(T, x), rank(T, x) < size(T) and ord(nthk(T, rank(T, x))) == x)
lemma first(T: Tree)
  option core
  induction T
  requires bst(T) and T != Leaf
  ensures ord(nthk(T, 0)) == mn(T)
  pattern bst(T), mn(T)
lemma bhnonneg(T: Tree)
  option core
  induction T
  ensures bh(T) >= 0
  pattern bh(T)
lemma blackpos(T: Tree)
  option core
  induction T
  requires T != Leaf and not isred(T)
  ensures bh(T) >= 1
  pattern bh(T), isred(T)
lemma rbrbw(T: Tree)
  option core
  induction T
  requires rb(T)
  ensures rbw(T)
  pattern rb(T)
lemma balance_height(T: Tree)
  induction T
  requires rb(T)
  ensures height(T) <= 2 * bh(T) + (1 if isred(T) else 0)
  pattern rb(T), height(T)
ghostfunc pow2(Int) -> Int
axiom pow2_def(n: Int): pow2(0) == 1 and imp(n >= 1, pow2(n) == 2 * pow2(n - 1) and pow2(n) >= 2)
  pattern pow2(n)
lemma bcap_pow(T: Tree)
  induction T
  requires rb(T)
  ensures bcap(T) == pow2(bh(T)) and bcap(T) >= 1
  pattern rb(T), bcap(T)
lemma balance_size(T: Tree)
  induction T
  requires rb(T)
  ensures size(T) + 1 >= bcap(T)
  pattern rb(T), bcap(T)

rec strip(T: Tree) -> Tree
  leaf Leaf
  node NodeT(ref, k, v, red, 0, strip(l), strip(r))
rec noval(T: Tree) -> Tree
  leaf Leaf
  node NodeT(ref, k, nilany, red, n, noval(l), noval(r))
lemma strip_same(T: Tree)
  induction T
  ensures size(strip(T)) == size(T) and iff(bst(strip(T)), bst(T)) and mn(strip(T)) == mn(T) and mx(strip(T)) == mx(T)
  ensures iff(rb(strip(T)), rb(T)) and iff(rbw(strip(T)), rbw(T)) and bh(strip(T)) == bh(T) and iff(isred(strip(T)), isred(T)) and iff(strip(T) == Leaf, T == Leaf)
  pattern strip(T)
lemma strip_nth(T: Tree, i: Int)
  induction T
  ensures nthk(strip(T), i) == nthk(T, i) and nthv(strip(T), i) == nthv(T, i)
  pattern strip(T), nthk(T, i)
  pattern strip(T), nthv(T, i)
  pattern nthk(strip(T), i)
  pattern nthv(strip(T), i)
lemma strip_x(T: Tree, x: Real)
  induction T
  ensures rank(strip(T), x) == rank(T, x) and iff(has(strip(T), x), has(T, x)) and sizex(strip(T), x) == sizex(T, x) and keyat(strip(T), x) == keyat(T, x) and valat(strip(T), x) == valat(T, x)
  pattern strip(T), rank(T, x)
  pattern strip(T), has(T, x)
  pattern strip(T), sizex(T, x)
  pattern rank(strip(T), x)
  pattern has(strip(T), x)
  pattern keyat(strip(T), x)
  pattern valat(strip(T), x)
  pattern strip(T), keyat(T, x)
  pattern strip(T), valat(T, x)
  pattern sizex(strip(T), x)
lemma noval_same(T: Tree)
  induction T
  ensures size(noval(T)) == size(T) and iff(bst(noval(T)), bst(T)) and mn(noval(T)) == mn(T) and mx(noval(T)) == mx(T)
  ensures iff(rb(noval(T)), rb(T)) and bh(noval(T)) == bh(T) and iff(isred(noval(T)), isred(T)) and iff(noval(T) == Leaf, T == Leaf) and iff(lenok(noval(T)), lenok(T))
  pattern noval(T)
lemma noval_nth(T: Tree, i: Int)
  induction T
  ensures nthk(noval(T), i) == nthk(T, i)
  pattern noval(T), nthk(T, i)
  pattern nthk(noval(T), i)
lemma noval_x(T: Tree, x: Real)
  induction T
  ensures rank(noval(T), x) == rank(T, x) and iff(has(noval(T), x), has(T, x))
  pattern noval(T), rank(T, x)
  pattern noval(T), has(T, x)
  pattern rank(noval(T), x)
  pattern has(noval(T), x)

# ---- macros
def ins(T2: Tree, T: Tree, x: Real, key: Key, value: Value): size(T2) == size(T) + 1 and has(T2, x) and keyat(T2, x) == key and valat(T2, x) == value and forall('y: Real', iff(has(T2, y), has(T, y) or y == x) and rank(T2, y) == rank(T, y) + (1 if x < y else 0) and imp(has(T, y) and y != x, keyat(T2, y) == keyat(T, y) and valat(T2, y) == valat(T, y)), has(T2, y), keyat(T2, y), valat(T2, y), rank(T2, y), has(T, y), keyat(T, y), valat(T, y), rank(T, y))
def delat(T2: Tree, T: Tree, x: Real): size(T2) == size(T) - 1 and forall('y: Real', iff(has(T2, y), has(T, y) and y != x) and rank(T2, y) == rank(T, y) - (1 if x < y else 0) and imp(has(T2, y), keyat(T2, y) == keyat(T, y) and valat(T2, y) == valat(T, y)), has(T2, y), keyat(T2, y), valat(T2, y), rank(T2, y), has(T, y), keyat(T, y), valat(T, y), rank(T, y))
def delbounds(T2: Tree, T: Tree): imp(T2 != Leaf, mn(T) <= mn(T2) and mx(T2) <= mx(T))
def insbounds(T2: Tree, T: Tree, x: Real): mn(T2) == (mn(T) if T != Leaf and mn(T) < x else x) and mx(T2) == (mx(T) if T != Leaf and mx(T) > x else x)
def kids(T: Tree): rb(T.l) and rb(T.r) and bh(T.l) == bh(T.r)
def treeinv(T: Tree): bst(T) and lenok(T) and rb(T) and not isred(T)

# ---- recursive functions

func llrbTreeStruct.insert
  consume T = oldNexusNode
  let x = ord(key)
  requires bst: bst(T)
  requires rb: rb(T)
  requires len: lenok(T)
  produce T2 = newNexusNode if err == 0 and ok else oldNexusNode
  decreases size(T)
  ensures err: iff(err != 0, T != Leaf and not good(key))
  ensures ok: imp(err == 0, iff(ok, not has(T, x)))
  ensures same: imp(err != 0 or not ok, T2 == T and not ok)
  ensures node: imp(err == 0 and ok, newNexusNode != nil)
  ensures ins: imp(err == 0 and ok, ins(T2, T, x, key, value))
  ensures bst: imp(err == 0 and ok and good(key), bst(T2))
  ensures bounds: imp(err == 0 and ok, insbounds(T2, T, x))
  ensures len: imp(err == 0 and ok, lenx(T2, x))
  ensures sizex: imp(err == 0 and ok, sizex(T2, x) == size(T))
  ensures bh: imp(err == 0 and ok, bh(T2) == bh(T))
  ensures rb: imp(err == 0 and ok, rb(T2) if not isred(T) else rbw(T2))

func llrbTreeStruct.postInsertAdjustLen
  consume T = node
  let x = ord(key)
  requires nonempty: T != Leaf
  requires bst: bst(T)
  requires good: good(key)
  requires has: has(T, x)
  requires len: lenx(T, x)
  produce T2 = node
  decreases size(T)
  ensures err: err == 0
  ensures same: strip(T2) == strip(T)
  ensures len: lenok(T2)

func llrbTreeStruct.preDeleteByIndexAdjustLen
  consume T = node
  requires bst: bst(T)
  requires len: lenok(T)
  requires range: 0 <= index and index < size(T)
  produce T2 = node
  decreases size(T)
  ensures key: key == nthk(T, index)
  ensures same: strip(T2) == strip(T)
  ensures len: lenx(T2, ord(key))

func llrbTreeStruct.preDeleteByKeyAdjustLen
  consume T = node
  let x = ord(key)
  requires bst: bst(T)
  requires len: lenok(T)
  produce T2 = node
  decreases size(T)
  ensures err: iff(err != 0, T != Leaf and not good(key))
  ensures ok: imp(err == 0, iff(ok, has(T, x)))
  ensures unchanged: imp(err != 0 or not ok, T2 == T and not ok)
  ensures same: strip(T2) == strip(T)
  ensures len: imp(err == 0 and ok, lenx(T2, x))

func llrbTreeStruct.delete
  consume T = oldNexusNode
  let x = ord(key)
  requires nonempty: T != Leaf
  requires bst: bst(T)
  requires good: good(key)
  requires has: has(T, x)
  requires len: lenx(T, x)
  requires kids: kids(T)
  requires shape: (T.red and not isred(T.l) and not isred(T.r)) or (not T.red and isred(T.l) and not isred(T.r)) or (not T.red and not isred(T.l) and isred(T.r) and x >= ord(T.k)) or (not T.red and not isred(T.l) and not isred(T.r))
  produce T2 = newNexusNode
  decreases size(T)
  ensures err: err == 0
  ensures del: delat(T2, T, x)
  ensures bst: bst(T2)
  ensures bounds: delbounds(T2, T)
  ensures len: lenok(T2)
  ensures rb: imp(T.red or isred(T.l) or isred(T.r), rb(T2) and bh(T2) == bh(T))
  ensures black: imp(not T.red and (isred(T.l) or isred(T.r)), not isred(T2))
  ensures top: rbw(T2)

func llrbTreeStruct.deleteMin
  consume T = oldNexusNode
  requires nonempty: T != Leaf
  requires bst: bst(T)
  requires len: lenok(T)
  requires rb: rb(T)
  requires shape: T.red != isred(T.l)
  produce T2 = newNexusNode
  decreases size(T)
  ensures min: ord(minKey) == mn(T) and good(minKey) and has(T, mn(T)) and minKey == keyat(T, mn(T)) and minValue == valat(T, mn(T))
  ensures del: delat(T2, T, mn(T))
  ensures bst: bst(T2)
  ensures bounds: delbounds(T2, T) and imp(T2 != Leaf, ord(minKey) < mn(T2))
  ensures len: lenok(T2)
  ensures rb: rb(T2) and bh(T2) == bh(T) and imp(not T.red, not isred(T2))

func llrbNodeStruct.validate
  option nilrecv
  consume T = node
  produce T2 = node
  decreases size(T)
  ensures same: T2 == T
  ensures exact: iff(err == 0, lenok(T))
