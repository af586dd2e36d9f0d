package sortedmap

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"
)

type vOp struct {
	Kind  string
	Tree  int
	A, B  int
	Fault int    // >0: that callback of this operation fails
	Mask  string // callbacks that count
}

type vCfg struct {
	Max       uint64
	Trees     int
	Cache     bool
	Low, High uint64
	Space     int  // key space
	Coarse    bool // several distinct keys compare equal
	Faults    bool
	Paging    bool
}

type vSnap struct {
	loc vLoc
	m   vModel
}

type vTree struct {
	id      int
	t       BPlusTree
	bt      *btreeTreeStruct
	cb      *vCB
	m       vModel
	faulted bool // an operation failed on an injected fault: occupancy no longer promised
	snaps   []vSnap
	twin    BPlusTree // same operations, never paged (C06 only)
	touched int
}

type vWorld struct {
	prop    string
	cfg     vCfg
	st      *vStore
	cache   BPlusTreeCache
	bc      *btreeNodeCacheStruct
	trees   []*vTree
	fails   []string
	cur     string
	seq     int
	nval    int
	counts  map[string]int
	rng     *rand.Rand
	broken  bool
	nextID  int
	maxH    int
	checked int
}

func (w *vWorld) fail(props string, msg string) {
	for _, p := range strings.Split(props, ",") {
		if p == w.prop {
			w.fails = append(w.fails, w.cur+": "+msg)
			return
		}
	}
}

func (w *vWorld) on(p string) bool { return w.prop == p }

func newWorld(prop string, cfg vCfg, seed int64) *vWorld {
	w := &vWorld{prop: prop, cfg: cfg, counts: map[string]int{}, rng: rand.New(rand.NewSource(seed))}
	w.st = &vStore{live: map[vLoc][]byte{}, owner: map[vLoc]int{}, complain: func(p, m string) { w.fail(p, m) }}
	if cfg.Cache {
		w.cache = NewBPlusTreeCache(cfg.Low, cfg.High)
		w.bc = w.cache.(*btreeNodeCacheStruct)
	}
	for i := 0; i < cfg.Trees; i++ {
		w.trees = append(w.trees, nil)
		w.fresh(i)
	}
	return w
}

func (w *vWorld) fresh(i int) {
	w.nextID++
	cb := &vCB{st: w.st, id: w.nextID}
	t := NewBPlusTree(w.cfg.Max, vCompare, cb, w.cache)
	w.trees[i] = &vTree{id: cb.id, t: t, bt: t.(*btreeTreeStruct), cb: cb}
	if w.on("C06") {
		st := &vStore{live: map[vLoc][]byte{}, owner: map[vLoc]int{}, complain: func(p, m string) {}}
		w.trees[i].twin = NewBPlusTree(w.cfg.Max, vCompare, &vCB{st: st}, nil)
	}
}

func (w *vWorld) key(a int) vKey {
	if w.cfg.Coarse {
		return vKey{a / 3, a}
	}
	return vKey{a, a}
}

type vRes struct {
	idx   int
	found bool
	ok    bool
	key   Key
	val   Value
	n     int
	err   error
}

func (r vRes) String() string {
	e := "nil"
	if r.err != nil {
		e = "error"
	}
	return fmt.Sprintf("{index:%d found:%v ok:%v key:%v value:%v n:%d err:%s}", r.idx, r.found, r.ok, r.key, r.val, r.n, e)
}

// mapOp performs a map operation; want is what a sorted map would answer.
func mapOp(t SortedMap, m *vModel, op vOp, key Key, idx int, val Value, apply bool) (got, want vRes, rejected bool, known bool) {
	known = true
	mm := *m
	vk, good := key.(vKey)
	pos, has := 0, false
	if good {
		pos, has = mm.find(vk.ord)
	}
	inr := idx >= 0 && idx < len(mm)
	ins := func() {
		mm = append(mm, vPair{})
		copy(mm[pos+1:], mm[pos:])
		mm[pos] = vPair{vk, val}
	}
	del := func(i int) { mm = append(append(vModel{}, mm[:i]...), mm[i+1:]...) }
	set := func(i int) { mm = mm.clone(); mm[i].v = val }
	refused := !good && (len(mm) > 0 || op.Kind == "put")
	switch op.Kind {
	case "put":
		got.ok, got.err = t.Put(key, val)
		want.ok = good && !has
		rejected = !want.ok
		if want.ok {
			mm = mm.clone()
			ins()
		}
	case "delk":
		got.ok, got.err = t.DeleteByKey(key)
		want.ok = has
		rejected = !has
		if has {
			del(pos)
		}
	case "deli":
		got.ok, got.err = t.DeleteByIndex(idx)
		want.ok = inr
		rejected = !inr
		if inr {
			del(idx)
		}
	case "getk":
		got.val, got.ok, got.err = t.GetByKey(key)
		want.ok = has
		rejected = !has
		if has {
			want.val = mm[pos].v
		}
	case "geti":
		got.key, got.val, got.ok, got.err = t.GetByIndex(idx)
		want.ok = inr
		rejected = !inr
		if inr {
			want.key, want.val = mm[idx].k, mm[idx].v
		}
	case "patk":
		got.ok, got.err = t.PatchByKey(key, val)
		want.ok = has
		rejected = !has
		if has {
			set(pos)
		}
	case "pati":
		got.ok, got.err = t.PatchByIndex(idx, val)
		want.ok = inr
		rejected = !inr
		if inr {
			set(idx)
		}
	case "bl":
		got.idx, got.found, got.err = t.BisectLeft(key)
		want.found = has
		want.idx = pos
		if !has {
			want.idx = pos - 1
		}
	case "br":
		got.idx, got.found, got.err = t.BisectRight(key)
		want.found = has
		want.idx = pos
	case "len":
		got.n, got.err = t.Len()
		want.n = len(mm)
		refused = false
	default:
		known = false
		return
	}
	if op.Kind == "geti" || op.Kind == "deli" || op.Kind == "pati" || op.Kind == "len" {
		refused = false
	} else if !good && !refused {
		// comparator is not needed on an empty map: any non-mutating answer will do
		want = got
		want.ok = false
		want.found = false
	}
	if refused {
		want = vRes{err: errRefused}
		rejected = true
	}
	if apply {
		*m = mm
	}
	return
}

func sameRes(kind string, got, want vRes) bool {
	if (got.err != nil) != (want.err != nil) {
		return false
	}
	if got.err != nil {
		return !got.ok && !got.found
	}
	if kind == "getk" && !got.ok && !want.ok {
		return true
	}
	if kind == "geti" && !got.ok && !want.ok {
		return true
	}
	return got.idx == want.idx && got.found == want.found && got.ok == want.ok && got.key == want.key && got.val == want.val && got.n == want.n
}

func (w *vWorld) badKey(a int) Key {
	switch a % 3 {
	case 0:
		return vBad(a)
	case 1:
		return nil
	}
	return "not a key"
}

func (w *vWorld) pickKey(vt *vTree, op vOp) Key {
	switch op.B % 16 {
	case 0, 1, 2, 3, 4, 5: // a present key
		if len(vt.m) > 0 {
			return vt.m[op.A%len(vt.m)].k
		}
	case 15:
		if w.cfg.Faults {
			return w.badKey(op.A)
		}
	}
	return w.key(op.A % w.cfg.Space)
}

func (w *vWorld) pickIdx(vt *vTree, op vOp) int {
	n := len(vt.m)
	switch op.B % 12 {
	case 0:
		return -1
	case 1:
		return n
	case 2:
		return n - 1
	case 3:
		return 0
	case 4:
		return []int{math.MinInt64, math.MaxInt64, n + 1, -2, math.MaxInt32}[op.A%5]
	}
	if n == 0 {
		return op.A % 3
	}
	return op.A % n
}

func (w *vWorld) walk(vt *vTree) (*vNode, vModel, error) {
	if w.bc != nil && !waitDrainer(w.bc) {
		w.fail("C09,C10", "eviction does not finish")
		w.broken = true
		return nil, nil, errors.New("eviction does not finish")
	}
	if vt.bt.root == nil {
		return nil, nil, nil
	}
	r, err := w.st.walk(vt.bt.root, 0, nil)
	if err != nil {
		return nil, nil, err
	}
	m, err := r.contents()
	return r, m, err
}

func locsOf(r *vNode) map[vLoc]int {
	s := map[vLoc]int{}
	r.each(func(v *vNode) {
		if v.loc.len != 0 {
			s[v.loc]++
		}
	})
	return s
}

// lists reads the two lists of the cache, checking the links.
func (w *vWorld) list(head, tail *btreeNodeStruct, items uint64, tag btreeNodeCacheTag, name string) (l []*btreeNodeStruct) {
	bad := func(f string, a ...interface{}) { w.fail("C09", name+" list: "+fmt.Sprintf(f, a...)) }
	var prev *btreeNodeStruct
	seen := map[*btreeNodeStruct]bool{}
	for n := head; n != nil; n = n.nextBTreeNode {
		if seen[n] {
			bad("cycle")
			return
		}
		seen[n] = true
		if n.btreeNodeCacheTag != tag {
			bad("node tagged %d", n.btreeNodeCacheTag)
		}
		if n.prevBTreeNode != prev {
			bad("back link of element %d broken", len(l))
		}
		l = append(l, n)
		prev = n
	}
	if tail != prev {
		bad("tail is not the last element")
	}
	if uint64(len(l)) != items {
		bad("%d elements, item count %d", len(l), items)
	}
	return
}

func (w *vWorld) lists() (clean, dirty []*btreeNodeStruct) {
	c := w.bc
	c.Lock()
	defer c.Unlock()
	clean = w.list(c.cleanLRUHead, c.cleanLRUTail, c.cleanLRUItems, cleanLRU, "clean")
	dirty = w.list(c.dirtyLRUHead, c.dirtyLRUTail, c.dirtyLRUItems, dirtyLRU, "dirty")
	return
}

func (w *vWorld) checkC09() {
	if w.bc == nil {
		return
	}
	if !waitDrainer(w.bc) {
		w.fail("C09,C10", "eviction does not finish")
		w.broken = true
		return
	}
	clean, dirty := w.lists()
	in := map[*btreeNodeStruct]int{}
	for _, n := range clean {
		in[n] |= 1
	}
	for _, n := range dirty {
		in[n] |= 2
	}
	resident := map[*btreeNodeStruct]bool{}
	for _, vt := range w.trees {
		r, _, err := w.walk(vt)
		if err != nil || r == nil {
			continue
		}
		r.each(func(v *vNode) {
			if v.n != nil && v.loaded {
				resident[v.n] = true
				want := 1
				if v.dirty {
					want = 2
				}
				if in[v.n] != want {
					w.fail("C09", fmt.Sprintf("tree %d: resident node (dirty=%v, depth %d) is in lists %d, expected %d (0 none, 1 clean, 2 dirty, 3 both)", vt.id, v.dirty, v.depth, in[v.n], want))
				}
			}
		})
	}
	for n := range in {
		if !resident[n] {
			w.fail("C09", "a listed node is not resident in any tree")
		}
	}
	s := w.cache.Stats()
	if s.CleanLRUItems != uint64(len(clean)) || s.DirtyLRUItems != uint64(len(dirty)) {
		w.fail("C09", fmt.Sprintf("Stats reports %d/%d, lists hold %d/%d", s.CleanLRUItems, s.DirtyLRUItems, len(clean), len(dirty)))
	}
}

// noteLists remembers the lists before an operation on tree vt; afterwards checkOrder demands
// that nodes of other trees, and nodes of vt off the touched path, keep their order.
func (w *vWorld) checkOrder(name string, before, after []*btreeNodeStruct, vt *vTree, path map[*btreeNodeStruct]bool) {
	posA := map[*btreeNodeStruct]int{}
	for i, n := range after {
		posA[n] = i
	}
	last := -1
	for _, n := range before {
		p, ok := posA[n]
		if !ok || n.tree == vt.bt && (path == nil || path[n]) {
			continue
		}
		if p < last {
			w.fail("C09", name+" list: an untouched node overtook another untouched node")
			return
		}
		last = p
	}
	// untouched nodes of other trees come before nodes newly placed on the list
	inB := map[*btreeNodeStruct]bool{}
	for _, n := range before {
		inB[n] = true
	}
	for _, n := range before {
		if p, ok := posA[n]; ok && n.tree != vt.bt {
			for q := 0; q < p; q++ {
				if !inB[after[q]] && after[q].tree == vt.bt {
					w.fail("C09", name+" list: a newly placed node is older than an untouched one")
					return
				}
			}
		}
	}
}

func pathTo(r *vNode, idx int) (p []*vNode) {
	for v := r; ; {
		p = append(p, v)
		if v.leaf {
			return
		}
		var next *vNode
		for _, k := range v.kids {
			if idx < int(k.items) {
				next = k
				break
			}
			idx -= int(k.items)
		}
		if next == nil {
			next = v.kids[len(v.kids)-1]
		}
		v = next
	}
}

func (w *vWorld) checkStructure(vt *vTree, r *vNode) {
	if !vt.faulted && (w.on("C05") || w.on("C04")) {
		ld := -1
		r.each(func(v *vNode) {
			if uint64(len(v.keys)) > w.cfg.Max {
				w.fail("C05", fmt.Sprintf("node at depth %d holds %d keys, maximum %d", v.depth, len(v.keys), w.cfg.Max))
			}
			if v.parent != nil && uint64(len(v.keys)) < w.cfg.Max/2 {
				w.fail("C05", fmt.Sprintf("non-root node at depth %d (leaf=%v) holds %d keys, minimum %d", v.depth, v.leaf, len(v.keys), w.cfg.Max/2))
			}
			if v.leaf {
				if ld >= 0 && ld != v.depth {
					w.fail("C05", fmt.Sprintf("leaves at depths %d and %d", ld, v.depth))
				}
				ld = v.depth
			}
		})
		if ld+1 > w.maxH {
			w.maxH = ld + 1
		}
	}
}

func (w *vWorld) checkC07(vt *vTree, r *vNode) {
	r.each(func(v *vNode) {
		if v.n == nil {
			return
		}
		if v.dirty {
			if !v.loaded {
				w.fail("C07", "a node with an unsaved change is not resident")
			}
			for p := v.parent; p != nil; p = p.parent {
				if !p.dirty {
					w.fail("C07", fmt.Sprintf("node at depth %d needs writing, its ancestor at depth %d is not marked", v.depth, p.depth))
					break
				}
			}
			return
		}
		if v.loc.len == 0 {
			w.fail("C07", fmt.Sprintf("node at depth %d has no stored copy and is not marked as needing to be written", v.depth))
			return
		}
		if !v.loaded {
			return
		}
		b, ok := w.st.live[v.loc]
		if !ok {
			w.fail("C07", "clean node's stored copy is missing")
			return
		}
		s, err := vDecode(b)
		if err != nil {
			w.fail("C07", err.Error())
			return
		}
		diff := ""
		if s.items != v.items {
			diff = fmt.Sprintf("items %d/%d", v.items, s.items)
		}
		if s.leaf != v.leaf || s.root != v.root {
			diff = "leaf/root flag"
		}
		if len(s.keys) != len(v.keys) {
			diff = fmt.Sprintf("%d keys, stored %d", len(v.keys), len(s.keys))
		} else {
			for i := range s.keys {
				if s.keys[i] != v.keys[i] {
					diff = fmt.Sprintf("key %d", i)
				}
				if v.leaf && s.vals[i] != v.vals[i] {
					diff = fmt.Sprintf("value %d", i)
				}
			}
		}
		if !v.leaf {
			if len(s.refs) != len(v.kids) {
				diff = "number of children"
			} else {
				for i, k := range v.kids {
					if s.refs[i] != k.loc || s.refItems[i] != k.items {
						diff = fmt.Sprintf("reference to child %d", i)
					}
				}
			}
		}
		if s.root && s.max != w.cfg.Max {
			diff = fmt.Sprintf("maximum %d", s.max)
		}
		if diff != "" {
			w.fail("C07", fmt.Sprintf("node at depth %d (leaf=%v) differs from its stored copy (%s) but is not marked as needing to be written", v.depth, v.leaf, diff))
		}
	})
}

func (w *vWorld) checkC08(vt *vTree, r *vNode, exact bool) {
	ref := locsOf(r)
	for l, n := range ref {
		if n > 1 {
			w.fail("C08", fmt.Sprintf("location %v is referred to by %d nodes", l, n))
		}
		if _, ok := w.st.live[l]; !ok {
			w.fail("C08", fmt.Sprintf("location %v is in use but was released", l))
		}
	}
	if exact {
		for l, o := range w.st.owner {
			if _, ok := w.st.live[l]; ok && o == vt.id && ref[l] == 0 {
				w.fail("C08", fmt.Sprintf("after Prune location %v is neither in use nor released: forgotten", l))
			}
		}
	}
}

var panicProps = map[string]string{
	"put": "C04,C11,C06", "delk": "C04,C11,C06", "deli": "C04,C11,C06", "getk": "C04,C11,C06", "geti": "C04,C11,C06", "patk": "C04,C11,C06", "pati": "C04,C11,C06",
	"bl": "C04,C11,C06", "br": "C04,C11,C06", "len": "C04,C11,C06", "burst": "C04,C06", "thin": "C04,C06", "seqdel": "C04,C06", "hurt": "C04,C06", "flush": "C06,C07,C11", "purge": "C06,C07", "touch": "C07", "touchitem": "C14", "sweep": "C14", "prune": "C08",
	"validate": "C12", "corrupt": "C12", "layout": "C13", "dims": "C05", "reopen": "C06", "snap": "C06", "discard": "C08", "limits": "C09,C06", "scan": "C04,C06",
}

// step performs op and checks what the active property says about it.
func (w *vWorld) step(op vOp) {
	w.seq++
	vt := w.trees[op.Tree%len(w.trees)]
	w.cur = fmt.Sprintf("step %d %s tree=%d a=%d b=%d fault=%d%s", w.seq, op.Kind, op.Tree%len(w.trees), op.A, op.B, op.Fault, op.Mask)
	w.counts[op.Kind]++
	r0, m0, err0 := w.walk(vt)
	var clean0, dirty0 []*btreeNodeStruct
	if w.bc != nil && w.on("C09") {
		waitDrainer(w.bc)
		clean0, dirty0 = w.lists()
	}
	cb := vt.cb
	cb.faultIn, cb.calls, cb.fired, cb.mask, cb.puts, cb.discs, cb.gets = 0, 0, false, op.Mask, nil, nil, 0
	if w.cfg.Faults {
		cb.faultIn = op.Fault
	}
	cb.onPut = func(l vLoc, b []byte) {
		if _, dup := w.st.live[l]; dup {
			return
		}
		s, err := vDecode(b)
		if err != nil {
			w.fail("C07,C06", "a node is written that cannot be read back: "+err.Error())
			return
		}
		for _, rf := range s.refs {
			if _, ok := w.st.live[rf]; !ok {
				w.fail("C07", fmt.Sprintf("a node is written that refers to %v, which is not stored: parent written before child", rf))
			}
		}
	}
	if op.Kind == "prune" && r0 != nil {
		inUse := locsOf(r0)
		cb.onDisc = func(l vLoc) {
			if inUse[l] > 0 {
				w.fail("C08", fmt.Sprintf("Prune releases %v, which the tree still refers to", l))
			}
		}
	} else if op.Kind == "discard" || op.Kind == "reopen" {
		cb.onDisc = nil
	} else {
		cb.onDisc = func(l vLoc) { w.fail("C08", fmt.Sprintf("%s releases %v", op.Kind, l)) }
	}
	nfail := len(w.fails)
	if p := guard(func() { w.perform(vt, op, r0, m0) }); p != nil {
		pp := panicProps[op.Kind]
		if strings.Contains(p.stack, "markNode") || strings.Contains(p.stack, "nodeCache") || strings.Contains(p.stack, "NodeCache") {
			pp += ",C09"
		}
		w.fail(pp, fmt.Sprintf("panic: %v", p.val))
		w.broken = true
	}
	cb.faultIn = 0
	if w.broken || len(w.fails) > nfail {
		return
	}
	if !vTryLock(&vt.bt.Mutex) {
		w.fail("C10", "the tree's lock is still held after "+op.Kind)
		w.broken = true
		return
	}
	vt.bt.Mutex.Unlock()
	if w.bc != nil {
		if !waitDrainer(w.bc) {
			w.fail("C09,C10", "eviction does not finish")
			w.broken = true
			return
		}
	}
	vt = w.trees[op.Tree%len(w.trees)]
	r, m, err := w.walk(vt)
	if err != nil {
		if err0 == nil {
			w.fail("C06,C07", "the tree can no longer be read: "+err.Error())
			w.fail("C04", "the tree can no longer be read: "+err.Error())
		}
		w.broken = true
		return
	}
	w.checked++
	if !sameModel(m, vt.m) {
		if op.Kind == "flush" || op.Kind == "purge" || op.Kind == "limits" || op.Kind == "reopen" || op.Kind == "snap" {
			w.fail("C06,C07", fmt.Sprintf("contents changed from %v to %v", vt.m, m))
		} else if !cb.fired {
			w.fail("C04", fmt.Sprintf("contents are %v, expected %v", m, vt.m))
		}
		vt.m = m
	}
	w.checkStructure(vt, r)
	if w.on("C05") && !vt.faulted {
		h := 0
		for v := r; ; v = v.kids[0] {
			h++
			if v.leaf {
				break
			}
		}
		d, err := vt.t.FetchDimensionsReport()
		if err != nil || d != (DimensionsReport{w.cfg.Max / 2, w.cfg.Max, uint64(len(m)), uint64(h)}) {
			w.fail("C05", fmt.Sprintf("dimensions reported as %+v (err %v), are min %d max %d items %d height %d", d, err, w.cfg.Max/2, w.cfg.Max, len(m), h))
		}
	}
	if w.on("C07") {
		w.checkC07(vt, r)
	}
	if w.on("C08") {
		w.checkC08(vt, r, false)
	}
	if w.on("C09") && w.bc != nil {
		w.checkC09()
		clean1, dirty1 := w.lists()
		read := map[string]bool{"getk": true, "geti": true, "bl": true, "br": true}
		var path map[*btreeNodeStruct]bool
		if read[op.Kind] && !cb.fired {
			path = map[*btreeNodeStruct]bool{}
			if idx, ok := w.accessed(vt, op); ok {
				pth := pathTo(r, idx)
				for _, v := range pth {
					path[v.n] = true
				}
				w.checkTail(pth, clean1, dirty1)
			} else {
				path = nil
			}
		}
		if (read[op.Kind] && cb.gets > 0 || op.Kind == "flush" && len(cb.puts) > 0) && !cb.fired {
			st := w.cache.Stats()
			if st.CleanLRUItems > 0 && st.CleanLRUItems+st.DirtyLRUItems > st.EvictHighLimit {
				w.fail("C09", fmt.Sprintf("%d clean and %d dirty nodes are resident, high limit %d: no eviction", st.CleanLRUItems, st.DirtyLRUItems, st.EvictHighLimit))
			}
		}
		w.checkOrder("clean", clean0, clean1, vt, path)
		w.checkOrder("dirty", dirty0, dirty1, vt, path)
	}
}

// vTryLock waits a while: eviction may hold the lock legitimately.
func vTryLock(m *sync.Mutex) bool {
	for i := 0; i < 3000; i++ {
		if m.TryLock() {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

// accessed tells which item index a read operation visited (keyed reads: position of the key).
func (w *vWorld) accessed(vt *vTree, op vOp) (int, bool) {
	if op.Kind == "geti" {
		i := w.pickIdx(vt, op)
		return i, i >= 0 && i < len(vt.m)
	}
	k, ok := w.pickKey(vt, op).(vKey)
	if !ok {
		return 0, false
	}
	i, has := vt.m.find(k.ord)
	return i, has
}

// checkTail: the nodes just visited are the most recently used of their list.
func (w *vWorld) checkTail(path []*vNode, clean, dirty []*btreeNodeStruct) {
	for _, l := range [][]*btreeNodeStruct{clean, dirty} {
		var want []*btreeNodeStruct
		in := map[*btreeNodeStruct]bool{}
		for _, n := range l {
			in[n] = true
		}
		for _, v := range path {
			if in[v.n] {
				want = append(want, v.n)
			}
		}
		for i := range want {
			if l[len(l)-len(want)+i] != want[i] {
				w.fail("C09", "the nodes just used are not at the most-recently-used end in order of use")
				return
			}
		}
	}
}

func (w *vWorld) perform(vt *vTree, op vOp, r0 *vNode, m0 vModel) {
	cb := vt.cb
	unchanged := func(props, what string) {
		_, m, err := w.walk(vt)
		if err != nil {
			w.fail(props, what+": tree can no longer be read: "+err.Error())
		} else if !sameModel(m, m0) {
			w.fail(props, fmt.Sprintf("%s changed the contents from %v to %v", what, m0, m))
		}
	}
	switch op.Kind {
	case "put", "delk", "deli", "getk", "geti", "patk", "pati", "bl", "br", "len":
		w.mapStep(vt, op, w.pickKey(vt, op), w.pickIdx(vt, op), m0, unchanged)
	case "bulk": // enough ascending insertions to fill the root's children
		base := 0
		if len(vt.m) > 0 {
			base = vt.m[len(vt.m)-1].k.ord + 1
		}
		m := vt.m.clone()
		for i := 0; i < int(w.cfg.Max/2)*(int(w.cfg.Max)*2/3)+op.A%int(w.cfg.Max); i++ {
			k := vKey{base + i, base + i}
			ok, err := vt.t.Put(k, nil)
			if err != nil && cb.fired {
				break
			}
			if !ok || err != nil {
				w.fail("C04", fmt.Sprintf("Put(%v) = %v %v", k, ok, err))
				break
			}
			m = append(m, vPair{k, nil})
			if vt.twin != nil {
				vt.twin.Put(k, nil)
			}
		}
		vt.m = m
		vt.touched = 0
	case "burst": // many insertions
		n := 1 + op.B%(8*int(w.cfg.Max))
		for i := 0; i < n && !w.broken; i++ {
			k := op.A + i
			if op.B%3 == 1 {
				k = op.A + 7*i
			} else if op.B%3 == 2 {
				k = op.A - i + 1000*w.cfg.Space
			}
			w.mapStep(vt, vOp{Kind: "put"}, w.key(k%w.cfg.Space), 0, nil, nil)
		}
	case "thin": // many deletions by index
		n := 1 + op.B%(8*int(w.cfg.Max))
		for i := 0; i < n && len(vt.m) > 0 && !w.broken; i++ {
			ix := (op.A + 5*i) % len(vt.m)
			if op.B%4 == 1 {
				ix = 0
			} else if op.B%4 == 2 {
				ix = len(vt.m) - 1
			}
			w.mapStep(vt, vOp{Kind: "deli"}, nil, ix, nil, nil)
		}
	case "seqdel":
		n := 1 + op.B%(8*int(w.cfg.Max))
		for i := 0; i < n && len(vt.m) > 0 && !w.broken; i++ {
			w.mapStep(vt, vOp{Kind: "delk"}, vt.m[op.A%len(vt.m)].k, 0, nil, nil)
		}
	case "hurt": // deletions that fail while loading a sibling
		for i := 0; i < 12 && len(vt.m) > 0 && !w.broken; i++ {
			if op.B%2 == 0 || i%2 == 0 {
				cb.faultIn = 0
				if _, _, _, err := vt.t.Flush(true); err != nil {
					w.fail("C07,C06", "Flush failed: "+err.Error())
					return
				}
			}
			cb.mask, cb.calls, cb.fired, cb.faultIn = "G", 0, false, 0
			if w.cfg.Faults {
				cb.faultIn = 2 + (op.A+i)%5
			}
			ix := op.A % len(vt.m)
			if op.B%3 == 0 {
				ix = (op.A + i*i) % len(vt.m)
			}
			k := []string{"deli", "delk"}[(op.A+i)%2]
			w.mapStep(vt, vOp{Kind: k}, vt.m[ix].k, ix, nil, nil)
		}
		vt.touched = 0
	case "scan":
		for i := range vt.m {
			k, v, ok, err := vt.t.GetByIndex(i)
			if err != nil && cb.fired {
				return
			}
			if err != nil || !ok || k != Key(vt.m[i].k) || v != Value(vt.m[i].v) {
				w.fail("C04", fmt.Sprintf("GetByIndex(%d) = %v %v %v %v, expected %v", i, k, v, ok, err, vt.m[i]))
				w.twinCheckIdx(vt, i, k, v, ok, err)
			}
		}
	case "flush":
		purge := op.A%2 == 1
		before := locsOf(r0)
		n, o, l, err := vt.t.Flush(purge)
		if cb.fired && err == nil {
			w.fail("C11,C07", "Flush hid a callback's error")
		}
		if err != nil {
			if !cb.fired {
				w.fail("C06,C07,C11", "Flush failed without cause: "+err.Error())
				return
			}
			unchanged("C11", "failed Flush")
			if !w.on("C10") {
				// retry: everything must still be written
				cb.faultIn = 0
				cb.fired = false
				_, _, _, err = vt.t.Flush(purge)
				if err != nil {
					w.fail("C07,C06", "Flush retried without faults failed: "+err.Error())
					return
				}
				n, o, l = vt.t.FetchLocation()
			} else {
				return
			}
		}
		loc := vLoc{n, o, l}
		if a, b, c := vt.t.FetchLocation(); loc != (vLoc{a, b, c}) {
			w.fail("C06", "FetchLocation disagrees with Flush")
		}
		s, e := w.st.walkStored(loc, 0, nil)
		if e != nil {
			w.fail("C06,C07", "Flush succeeded but the stored tree cannot be read: "+e.Error())
			return
		}
		sm, e := s.contents()
		if e != nil || !sameModel(sm, m0) {
			w.fail("C06,C07", fmt.Sprintf("Flush stored %v, the tree holds %v", sm, m0))
		}
		if s.max != w.cfg.Max {
			w.fail("C06", fmt.Sprintf("stored maximum is %d", s.max))
		}
		r1, _, e := w.walk(vt)
		if e == nil {
			r1.each(func(v *vNode) {
				if v.dirty {
					w.fail("C07", "Flush left a node marked as needing to be written")
				}
			})
		}
		if vt.touched == 1 {
			for l := range locsOf(s) {
				if before[l] > 0 {
					w.fail("C07", "a node touched before this Flush was not rewritten")
				}
			}
		}
		vt.touched = 0
		vt.snaps = append(vt.snaps, vSnap{loc, m0.clone()})
		_ = purge
	case "purge":
		err := vt.t.Purge(op.A%2 == 1)
		if err != nil && op.A%2 == 0 {
			w.fail("C06,C07", "Purge failed: "+err.Error())
		}
		unchanged("C06,C07", "Purge")
		r1, _, e := w.walk(vt)
		if e == nil && w.on("C07") {
			nd := func(r *vNode) (n int) {
				r.each(func(v *vNode) {
					if v.dirty {
						n++
					}
				})
				return
			}
			if nd(r0) != nd(r1) {
				w.fail("C07", "Purge changed which nodes need to be written")
			}
		}
	case "touch":
		err := vt.t.Touch()
		if err != nil {
			if !cb.fired {
				w.fail("C07", "Touch failed: "+err.Error())
			}
		} else {
			r1, _, e := w.walk(vt)
			if e == nil {
				r1.each(func(v *vNode) {
					if !v.dirty {
						w.fail("C07", fmt.Sprintf("Touch left a node at depth %d not marked", v.depth))
					}
				})
			}
			vt.touched = 1
			if w.on("C07") && op.B%2 == 0 { // the next Flush must rewrite every node
				before := locsOf(r0)
				vt.touched = 0
				n, o, l, err := vt.t.Flush(false)
				if err != nil {
					if !cb.fired {
						w.fail("C07", "Flush failed: "+err.Error())
					}
					return
				}
				s, e := w.st.walkStored(vLoc{n, o, l}, 0, nil)
				if e != nil {
					w.fail("C07", e.Error())
					return
				}
				for l := range locsOf(s) {
					if before[l] > 0 {
						w.fail("C07", "a touched node was not rewritten by Flush")
					}
				}
			}
		}
		unchanged("C07,C04", "Touch")
	case "touchitem":
		i := uint64(op.A)
		if op.B%4 != 0 && len(m0) > 0 {
			i = uint64(op.A % len(m0))
		} else if op.B%8 == 0 {
			i = math.MaxUint64 - uint64(op.A%3)
		}
		next, err := vt.t.TouchItem(i)
		if err != nil {
			if !cb.fired {
				w.fail("C14", "TouchItem failed: "+err.Error())
			}
		} else if i >= uint64(len(m0)) {
			if next != 0 {
				w.fail("C14", fmt.Sprintf("TouchItem(%d) of %d items returned %d", i, len(m0), next))
			}
		} else {
			r1, _, e := w.walk(vt)
			if e == nil {
				w.checkTouched(r1, int(i), next)
			}
		}
		unchanged("C14", "TouchItem")
		vt.touched = 0
	case "sweep":
		i := uint64(0)
		calls := 0
		touched := map[int]bool{}
		for len(m0) > 0 {
			next, err := vt.t.TouchItem(i)
			if err != nil {
				if !cb.fired {
					w.fail("C14", "TouchItem failed: "+err.Error())
				}
				return
			}
			calls++
			if i >= uint64(len(m0)) || calls > len(m0)+1 {
				if calls > len(m0)+1 {
					w.fail("C14", "the sweep does not end")
				}
				break
			}
			if next <= i {
				w.fail("C14", fmt.Sprintf("TouchItem(%d) of %d items returned %d: no progress", i, len(m0), next))
				return
			}
			touched[int(i)] = true
			i = next
		}
		r1, _, e := w.walk(vt)
		if e == nil && len(m0) > 0 {
			r1.each(func(v *vNode) {
				if !v.dirty {
					w.fail("C14", fmt.Sprintf("the sweep left a node at depth %d not marked", v.depth))
				}
			})
		}
		unchanged("C14", "TouchItem sweep")
		vt.touched = 0
	case "prune":
		err := vt.t.Prune()
		if cb.fired && err == nil {
			w.fail("C08", "Prune hid a callback's error")
		}
		if err != nil && !cb.fired {
			w.fail("C08", "Prune failed: "+err.Error())
			return
		}
		if err != nil && op.B%2 == 0 {
			cb.faultIn = 0
			err = vt.t.Prune()
			if err != nil {
				w.fail("C08", "Prune retried failed: "+err.Error())
				return
			}
		}
		vt.snaps = nil
		r1, _, e := w.walk(vt)
		if e == nil && w.on("C08") {
			w.checkC08(vt, r1, err == nil)
		}
	case "discard":
		var err error
		for try := 0; ; try++ {
			if try == 1 && op.B%2 == 0 {
				cb.faultIn, cb.calls = 1+op.A%3, 0
			}
			if try == 2 {
				cb.faultIn = 0
			}
			err = vt.t.Discard()
			if err == nil {
				break
			}
			if try == 0 && op.B%3 == 0 { // the tree must still be usable
				_, _, err2 := vt.t.GetByKey(w.key(op.A % w.cfg.Space))
				_ = err2
			}
			if try > 3 {
				w.fail("C08", "Discard keeps failing: "+err.Error())
				return
			}
		}
		for l, o := range w.st.owner {
			if _, ok := w.st.live[l]; ok && o == vt.id {
				w.fail("C08", fmt.Sprintf("Discard succeeded, location %v was not released", l))
			}
		}
		w.fresh(op.Tree % len(w.trees))
	case "validate":
		err := vt.t.Validate()
		if err != nil && !cb.fired && !vt.faulted {
			w.fail("C12", "Validate refuses a correct tree: "+err.Error())
		}
		unchanged("C12", "Validate")
	case "corrupt":
		if w.on("C12") && !vt.faulted {
			w.corrupt(vt, op)
		}
	case "layout":
		want := LayoutReport{}
		for l := range locsOf(r0) {
			want[l.num] += l.len
		}
		rep, err := vt.t.FetchLayoutReport()
		if err != nil {
			if !cb.fired {
				w.fail("C13", "FetchLayoutReport failed: "+err.Error())
			}
		} else if fmt.Sprint(rep) != fmt.Sprint(want) {
			w.fail("C13", fmt.Sprintf("layout reported %v, stored nodes are %v", rep, want))
		}
		unchanged("C13", "FetchLayoutReport")
	case "dims":
		_, err := vt.t.FetchDimensionsReport()
		if err != nil && !cb.fired {
			w.fail("C05", err.Error())
		}
	case "reopen": // continue with a tree opened at the flushed location
		if cb.faultIn = 0; true {
			n, o, l, err := vt.t.Flush(true)
			if err != nil {
				w.fail("C06,C07", "Flush failed: "+err.Error())
				w.broken = true
				return
			}
			if err = vt.t.Prune(); err != nil {
				w.fail("C08", "Prune failed: "+err.Error())
			}
			nt, err := OldBPlusTree(n, o, l, vCompare, cb, w.cache)
			if err != nil {
				w.fail("C06", "OldBPlusTree failed: "+err.Error())
				w.broken = true
				return
			}
			vt.t, vt.bt = nt, nt.(*btreeTreeStruct)
			vt.touched = 0
			vt.snaps = nil
			d, err := nt.FetchDimensionsReport()
			if err != nil || d.MaxKeysPerNode != w.cfg.Max || d.MinKeysPerNode != w.cfg.Max/2 || d.Items != uint64(len(m0)) {
				w.fail("C06", fmt.Sprintf("reopened tree reports %+v (err %v)", d, err))
			}
			_, m, err := w.walk(vt)
			if err != nil || !sameModel(m, m0) {
				w.fail("C06", fmt.Sprintf("reopened tree holds %v, was %v", m, m0))
			}
			w.readAll(nt, m0, "C06")
		}
	case "snap": // open some earlier flush on the side
		if len(vt.snaps) > 0 {
			cb.faultIn = 0
			s := vt.snaps[op.A%len(vt.snaps)]
			nt, err := OldBPlusTree(s.loc.num, s.loc.off, s.loc.len, vCompare, cb, nil)
			if err != nil {
				w.fail("C06", "OldBPlusTree of an earlier Flush failed: "+err.Error())
				return
			}
			w.readAll(nt, s.m, "C06")
		}
	case "limits":
		if w.bc != nil {
			w.limits(op)
		}
	}
}

func (w *vWorld) readAll(t SortedMap, m vModel, prop string) {
	n, err := t.Len()
	if err != nil || n != len(m) {
		w.fail(prop, fmt.Sprintf("reopened tree has Len %d (err %v), expected %d", n, err, len(m)))
		return
	}
	for i := range m {
		k, v, ok, err := t.GetByIndex(i)
		if err != nil || !ok || k != Key(m[i].k) || v != Value(m[i].v) {
			w.fail(prop, fmt.Sprintf("reopened tree: GetByIndex(%d) = %v %v %v %v, expected %v", i, k, v, ok, err, m[i]))
			return
		}
		gv, ok, err := t.GetByKey(m[i].k)
		if err != nil || !ok || gv != Value(m[i].v) {
			w.fail(prop, fmt.Sprintf("reopened tree: GetByKey(%v) = %v %v %v, expected %v", m[i].k, gv, ok, err, m[i].v))
			return
		}
	}
}

func (w *vWorld) checkTouched(r *vNode, i int, next uint64) {
	p := pathTo(r, i)
	for _, v := range p {
		if !v.dirty {
			w.fail("C14", fmt.Sprintf("TouchItem(%d) left the node at depth %d of the path not marked", i, v.depth))
		}
	}
	leaf := p[len(p)-1]
	end := 0
	done := false
	r.each(func(v *vNode) {
		if v.leaf && !done {
			end += len(v.keys)
			done = v == leaf
		}
	})
	if next != uint64(end) {
		w.fail("C14", fmt.Sprintf("TouchItem(%d) returned %d, the leaf ends before %d", i, next, end))
	}
}

func (w *vWorld) twinCheckIdx(vt *vTree, i int, k Key, v Value, ok bool, err error) {
	if vt.twin != nil {
		k2, v2, ok2, err2 := vt.twin.GetByIndex(i)
		if k2 != k || v2 != v || ok2 != ok || (err2 != nil) != (err != nil) {
			w.fail("C06", fmt.Sprintf("GetByIndex(%d) differs from the tree that was never paged", i))
		}
	}
}

func (w *vWorld) mapStep(vt *vTree, op vOp, key Key, idx int, m0 vModel, unchanged func(string, string)) {
	cb := vt.cb
	w.nval++
	val := vVal(fmt.Sprintf("v%d.%d", w.seq, len(vt.m)), w.nval)
	pre := vt.m
	got, want, rejected, _ := mapOp(vt.t, &vt.m, op, key, idx, val, true)
	faultErr := (cb.fired || vt.faulted) && got.err != nil && want.err == nil
	if faultErr {
		vt.m = pre
		if op.Kind == "delk" || op.Kind == "deli" {
			vt.faulted = true
			_, m, err := w.walk(vt)
			if err != nil {
				w.broken = true
				return
			}
			vt.m = m // the pair may be gone although rebalancing failed
			if want.ok {
				ok := sameModel(m, pre)
				after := pre
				if op.Kind == "deli" {
					after = append(append(vModel{}, pre[:idx]...), pre[idx+1:]...)
				} else if p, has := pre.find(key.(vKey).ord); has {
					after = append(append(vModel{}, pre[:p]...), pre[p+1:]...)
				}
				if !ok && !sameModel(m, after) {
					w.fail("C04", fmt.Sprintf("failed %s left %v, was %v", op.Kind, m, pre))
				}
			}
		}
		if vt.twin != nil { // keep the twin in step with what happened
			w.resyncTwin(vt)
		}
		return
	}
	if !sameRes(op.Kind, got, want) {
		if want.err != nil || rejected {
			w.fail("C11", fmt.Sprintf("%s(%v, %d) = %v, expected %v", op.Kind, key, idx, got, want))
		}
		w.fail("C04", fmt.Sprintf("%s(%v, %d) = %v, expected %v on %v", op.Kind, key, idx, got, want, pre))
	}
	if rejected && unchanged != nil {
		unchanged("C11", "rejected "+op.Kind)
	}
	if vt.twin != nil && cb.fired {
		w.resyncTwin(vt)
	} else if _, good := key.(vKey); vt.twin != nil && (good || len(pre) > 0) {
		m2 := pre
		g2, _, _, _ := mapOp(vt.twin, &m2, op, key, idx, val, false)
		if !sameRes(op.Kind, got, g2) && !(got.err != nil && g2.err != nil) {
			w.fail("C06", fmt.Sprintf("%s(%v, %d) = %v, the same tree without paging answers %v", op.Kind, key, idx, got, g2))
		}
	}
}

func (w *vWorld) resyncTwin(vt *vTree) {
	st := &vStore{live: map[vLoc][]byte{}, owner: map[vLoc]int{}, complain: func(p, m string) {}}
	vt.twin = NewBPlusTree(w.cfg.Max, vCompare, &vCB{st: st}, nil)
	for _, p := range vt.m {
		vt.twin.Put(p.k, p.v)
	}
}

// limits changes the limits and, when that triggers an eviction, checks what was evicted.
func (w *vWorld) limits(op vOp) {
	if !waitDrainer(w.bc) {
		return
	}
	clean, dirty := w.lists()
	low := uint64(op.A % (len(clean) + len(dirty) + 3))
	high := low + uint64(op.B%5)
	expect := map[*btreeNodeStruct]bool{}
	total := uint64(len(clean) + len(dirty))
	for _, n := range clean {
		expect[n] = true
	}
	nclean := len(clean)
	if total > high {
		kids := map[*btreeNodeStruct][]*btreeNodeStruct{}
		for _, vt := range w.trees {
			r, _, err := w.walk(vt)
			if err != nil || r == nil {
				return
			}
			r.each(func(v *vNode) {
				if v.n != nil && v.loaded && v.parent != nil {
					kids[v.parent.n] = append(kids[v.parent.n], v.n)
				}
			})
		}
		var drop func(n *btreeNodeStruct)
		drop = func(n *btreeNodeStruct) {
			for _, k := range kids[n] {
				drop(k)
			}
			if expect[n] {
				delete(expect, n)
				total--
				nclean--
			}
		}
		for _, n := range clean {
			if total <= low || nclean == 0 {
				break
			}
			if expect[n] {
				drop(n)
			}
		}
	}
	w.cache.UpdateLimits(low, high)
	if !waitDrainer(w.bc) {
		w.fail("C09,C10", "eviction does not finish")
		w.broken = true
		return
	}
	clean1, dirty1 := w.lists()
	s := w.cache.Stats()
	if s.EvictLowLimit != low || s.EvictHighLimit != high {
		w.fail("C09", "limits not reported back")
	}
	if len(dirty1) != len(dirty) {
		w.fail("C09", "eviction changed the dirty list")
	}
	if len(clean1) != len(expect) {
		w.fail("C09", fmt.Sprintf("limits %d/%d with %d clean and %d dirty nodes left %d clean nodes, expected %d", low, high, len(clean), len(dirty), len(clean1), len(expect)))
	}
	for _, n := range clean1 {
		if !expect[n] {
			w.fail("C09", "eviction kept a node older than one it removed")
			break
		}
	}
}

// corrupt breaks one thing in the resident tree, demands that Validate notices, and repairs it.
func (w *vWorld) corrupt(vt *vTree, op vOp) {
	vt.cb.faultIn = 0
	if err := vt.t.Validate(); err != nil { // also makes every node resident
		return
	}
	if w.bc != nil {
		// keep everything resident while corrupting
		w.cache.UpdateLimits(1<<40, 1<<40)
		waitDrainer(w.bc)
		if err := vt.t.Validate(); err != nil {
			return
		}
	}
	r, _, err := w.walk(vt)
	if err != nil {
		return
	}
	var ns []*vNode
	r.each(func(v *vNode) {
		if v.n != nil && v.loaded {
			ns = append(ns, v)
		}
	})
	for try := 0; try < 12; try++ {
		v := ns[(op.A+try*7)%len(ns)]
		n := v.n
		what := ""
		var undo func()
		u64 := func(p *uint64, name string, d uint64) {
			old := *p
			*p += d
			what = name
			undo = func() { *p = old }
		}
		ptr := func(p **btreeNodeStruct, to *btreeNodeStruct, name string) {
			if *p == to {
				return
			}
			old := *p
			*p = to
			what = name
			undo = func() { *p = old }
		}
		other := ns[(op.B+try*3)%len(ns)].n
		d := []uint64{1, ^uint64(0), 5}[(op.A+op.B+try)%3]
		switch (op.B + try) % 8 {
		case 0, 1:
			u64(&n.items, "items", d)
		case 2, 3:
			if v.parent != nil {
				u64(&n.prefixSumItems, "prefixSumItems", d)
			}
		case 4:
			if v.parent != nil {
				if n.prefixSumParent == nil {
					ptr(&n.prefixSumParent, other, "prefixSumParent")
				} else {
					ptr(&n.prefixSumParent, nil, "prefixSumParent")
				}
			}
		case 5:
			if v.parent != nil {
				if op.A%2 == 0 {
					other = nil
				}
				ptr(&n.parentNode, other, "parentNode")
			}
		case 6: // an item count inside the node's own key:value map
			lt := n.kvLLRB.(*llrbTreeStruct)
			if lt.root != nil {
				x := lt.root
				for i := op.A % 5; i > 0; i-- {
					if i%2 == 0 && x.left != nil {
						x = x.left
					} else if x.right != nil {
						x = x.right
					} else if x.left != nil {
						x = x.left
					}
				}
				x.len += 1
				what = "kvLLRB len"
				undo = func() { x.len -= 1 }
			}
		case 7: // occupancy, with all counts consistent
			if !v.leaf || v.parent == nil || len(v.keys) == 0 {
				continue
			}
			if uint64(len(v.keys)) == w.cfg.Max/2 {
				k, val, _, _ := n.kvLLRB.GetByIndex(0)
				n.kvLLRB.DeleteByIndex(0)
				w.bump(v, ^uint64(0))
				what = "too few keys"
				undo = func() { n.kvLLRB.Put(k, val); w.bump(v, 1) }
			} else if uint64(len(v.keys)) == w.cfg.Max {
				k := vKey{v.keys[len(v.keys)-1].(vKey).ord, 0}
				_ = k
				bigk := vKey{1 << 40, 1}
				n.kvLLRB.Put(bigk, "x")
				w.bump(v, 1)
				what = "too many keys"
				undo = func() { n.kvLLRB.DeleteByKey(bigk); w.bump(v, ^uint64(0)) }
			}
		}
		if what == "" || undo == nil {
			continue
		}
		err := vt.t.Validate()
		undo()
		w.counts["corrupt:"+what]++
		if err == nil {
			w.fail("C12", fmt.Sprintf("Validate accepts a tree whose node at depth %d (leaf=%v) has a wrong %s", v.depth, v.leaf, what))
			return
		}
	}
	if err := vt.t.Validate(); err != nil {
		w.fail("C12", "Validate refuses a correct tree: "+err.Error())
	}
	if w.bc != nil {
		w.cache.UpdateLimits(w.cfg.Low, w.cfg.High)
	}
}

// bump adds d to the counts of v and everything above it.
func (w *vWorld) bump(v *vNode, d uint64) {
	for ; v != nil; v = v.parent {
		v.n.items += d
		if v.parent == nil {
			return
		}
		for p := v.n; p != nil; p = p.prefixSumParent {
			p.prefixSumItems += d
		}
	}
}

var _ = sort.Ints
var _ = errors.New
