package sortedmap

// In-package replay engine of /verif: a reference model, an in-memory store with fault
// injection, and a walker over the resident and stored parts of a B+Tree. It is laid over
// /repo with "go test -overlay"; it never touches anything outside its own memory and the
// file named by VERIF_OUT.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/NVIDIA/cstruct"
)

// ---- keys, values, comparator ----

type vBad int // refused by the comparator

var errRefused = errors.New("verif: key refused")

var errInjected = errors.New("verif: injected fault")

type vKey struct{ ord, id int } // keys of equal ord compare equal

func vCompare(a Key, b Key) (int, error) {
	ka, ok := a.(vKey)
	if !ok {
		return 0, errRefused
	}
	kb, ok := b.(vKey)
	if !ok {
		return 0, errRefused
	}
	// results of varying magnitude: only the sign may matter
	return 3 * (ka.ord - kb.ord), nil
}

// ---- store ----

type vLoc struct{ num, off, len uint64 }

type vStore struct {
	nextNum  uint64
	nextOff  uint64
	live     map[vLoc][]byte
	owner    map[vLoc]int
	complain func(prop, msg string)
}

type vCB struct {
	st      *vStore
	id      int  // tree id
	faultIn int  // >0: the faultIn-th callback from now fails
	calls   int  // callbacks made in the current operation
	fired   bool // a fault was injected in the current operation
	firedOn string
	puts    []vLoc // PutNode results of the current operation
	discs   []vLoc
	gets    int
	onDisc  func(vLoc)
	onPut   func(vLoc, []byte)
	mask    string // kinds that count for faults ("" = all)
}

func (c *vCB) hit(kind string) bool {
	if c.mask != "" && !strings.Contains(c.mask, kind) {
		return false
	}
	c.calls++
	if c.faultIn > 0 && c.calls == c.faultIn {
		c.fired = true
		c.firedOn = kind
		return true
	}
	return false
}

func (c *vCB) DumpKey(key Key) (string, error)       { return fmt.Sprint(key), nil }
func (c *vCB) DumpValue(value Value) (string, error) { return fmt.Sprint(value), nil }

func (c *vCB) GetNode(n uint64, o uint64, l uint64) ([]byte, error) {
	if c.hit("G") {
		return nil, errInjected
	}
	c.gets++
	b, ok := c.st.live[vLoc{n, o, l}]
	if !ok {
		c.st.complain("C08,C06", fmt.Sprintf("GetNode(%d,%d,%d): no such stored node (released or never written)", n, o, l))
		return nil, errors.New("verif: no such node")
	}
	return append([]byte{}, b...), nil
}

func (c *vCB) PutNode(b []byte) (uint64, uint64, error) {
	if c.hit("P") {
		return 0, 0, errInjected
	}
	// several nodes share an object; object numbers may be reused with new offsets
	c.st.nextOff += uint64(len(b)) + 1
	n := 1 + (c.st.nextOff/777)%5
	loc := vLoc{n, c.st.nextOff, uint64(len(b))}
	cp := append([]byte{}, b...)
	if c.onPut != nil {
		c.onPut(loc, cp)
	}
	c.st.live[loc] = cp
	c.st.owner[loc] = c.id
	c.puts = append(c.puts, loc)
	return loc.num, loc.off, nil
}

func (c *vCB) DiscardNode(n uint64, o uint64, l uint64) error {
	if c.hit("D") {
		return errInjected
	}
	loc := vLoc{n, o, l}
	if _, ok := c.st.live[loc]; !ok {
		c.st.complain("C08", fmt.Sprintf("DiscardNode(%d,%d,%d): location is not live (released twice or never written)", n, o, l))
		return nil
	}
	if c.st.owner[loc] != c.id {
		c.st.complain("C08", "DiscardNode of another tree's location")
	}
	if c.onDisc != nil {
		c.onDisc(loc)
	}
	delete(c.st.live, loc)
	c.discs = append(c.discs, loc)
	return nil
}

func (c *vCB) PackKey(key Key) ([]byte, error) {
	if c.hit("k") {
		return nil, errInjected
	}
	k := key.(vKey)
	b := make([]byte, 16)
	binary.BigEndian.PutUint64(b, uint64(int64(k.ord)))
	binary.BigEndian.PutUint64(b[8:], uint64(int64(k.id)))
	return b, nil
}

func vUnpackKey(b []byte) (Key, uint64, error) {
	if len(b) < 16 {
		return nil, 0, errors.New("verif: short key")
	}
	return vKey{int(int64(binary.BigEndian.Uint64(b))), int(int64(binary.BigEndian.Uint64(b[8:])))}, 16, nil
}

func (c *vCB) UnpackKey(b []byte) (Key, uint64, error) {
	if c.hit("u") {
		return nil, 0, errInjected
	}
	return vUnpackKey(b)
}

// A value is nil (one zero byte) or a string (its length plus one, then its bytes).
func vPackValue(v Value) []byte {
	if v == nil {
		return []byte{0}
	}
	s := v.(string)
	return append([]byte{byte(len(s) + 1)}, s...)
}

// vVal makes every third value nil or empty.
func vVal(s string, n int) Value {
	switch n % 6 {
	case 1:
		return nil
	case 4:
		return ""
	}
	return s
}

func (c *vCB) PackValue(v Value) ([]byte, error) {
	if c.hit("v") {
		return nil, errInjected
	}
	return vPackValue(v), nil
}

func vUnpackValue(b []byte) (Value, uint64, error) {
	if len(b) < 1 || len(b) < int(b[0]) {
		return nil, 0, errors.New("verif: short value")
	}
	if b[0] == 0 {
		return nil, 1, nil
	}
	return string(b[1:int(b[0])]), uint64(b[0]), nil
}

func (c *vCB) UnpackValue(b []byte) (Value, uint64, error) {
	if c.hit("w") {
		return nil, 0, errInjected
	}
	return vUnpackValue(b)
}

// ---- model ----

type vPair struct {
	k vKey
	v Value
}

type vModel []vPair // sorted by ord, unique ord

func (m vModel) find(ord int) (int, bool) {
	i := sort.Search(len(m), func(i int) bool { return m[i].k.ord >= ord })
	return i, i < len(m) && m[i].k.ord == ord
}

func (m vModel) clone() vModel { return append(vModel{}, m...) }

func (m vModel) String() string {
	var s []string
	for _, p := range m {
		s = append(s, fmt.Sprintf("%d/%d=%v", p.k.ord, p.k.id, p.v))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func sameModel(a, b vModel) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- walker: the logical tree, resident parts from memory, the rest from the store ----

type vNode struct {
	n                         *btreeNodeStruct // nil when reached only through the store
	loaded, dirty, root, leaf bool
	items                     uint64
	loc                       vLoc
	keys                      []Key
	vals                      []Value
	kids                      []*vNode
	depth                     int
	parent                    *vNode
	max                       uint64
	inMem                     bool // n != nil
}

func llrbPairs(t LLRBTree) (ks []Key, vs []Value) {
	var rec func(n *llrbNodeStruct)
	rec = func(n *llrbNodeStruct) {
		if n == nil {
			return
		}
		rec(n.left)
		ks = append(ks, n.Key)
		vs = append(vs, n.Value)
		rec(n.right)
	}
	rec(t.(*llrbTreeStruct).root)
	return
}

type vStored struct {
	items      uint64
	root, leaf bool
	max        uint64
	keys       []Key
	vals       []Value
	refs       []vLoc
	refItems   []uint64
}

func vDecode(b []byte) (s vStored, err error) {
	var od onDiskNodeStruct
	if _, err = cstruct.Unpack(b, &od, OnDiskByteOrder); err != nil {
		return
	}
	s.items, s.root, s.leaf = od.Items, od.Root, od.Leaf
	p := od.Payload
	u64 := func() (v uint64) {
		if len(p) < 8 {
			err = errors.New("verif: short stored node")
			return 0
		}
		v = OnDiskByteOrder.Uint64(p)
		p = p[8:]
		return
	}
	if s.root {
		s.max = u64()
	}
	cnt := u64()
	if err != nil {
		return
	}
	key := func() {
		k, n, e := vUnpackKey(p)
		if e != nil {
			err = e
			return
		}
		s.keys = append(s.keys, k)
		p = p[n:]
	}
	ref := func() {
		l := vLoc{u64(), u64(), u64()}
		s.refs = append(s.refs, l)
		s.refItems = append(s.refItems, u64())
	}
	for i := uint64(0); i < cnt && err == nil; i++ {
		if s.leaf {
			key()
			if err != nil {
				return
			}
			v, n, e := vUnpackValue(p)
			if e != nil {
				return s, e
			}
			p = p[n:]
			s.vals = append(s.vals, v)
		} else {
			if i > 0 {
				key()
			}
			ref()
		}
	}
	if err == nil && len(p) != 0 {
		err = errors.New("verif: trailing bytes in stored node")
	}
	return
}

func (st *vStore) walkStored(loc vLoc, depth int, parent *vNode) (*vNode, error) {
	if depth > 64 {
		return nil, errors.New("tree is deeper than 64 levels")
	}
	b, ok := st.live[loc]
	if !ok {
		return nil, fmt.Errorf("stored node %v is missing", loc)
	}
	s, err := vDecode(b)
	if err != nil {
		return nil, fmt.Errorf("stored node %v: %v", loc, err)
	}
	v := &vNode{root: s.root, leaf: s.leaf, items: s.items, loc: loc, keys: s.keys, vals: s.vals, depth: depth, parent: parent, max: s.max}
	for i, r := range s.refs {
		k, err := st.walkStored(r, depth+1, v)
		if err != nil {
			return nil, err
		}
		if k.items != s.refItems[i] {
			return nil, fmt.Errorf("stored node %v says child %v has %d items, it has %d", loc, r, s.refItems[i], k.items)
		}
		v.kids = append(v.kids, k)
	}
	return v, nil
}

func (st *vStore) walk(n *btreeNodeStruct, depth int, parent *vNode) (*vNode, error) {
	if n == nil {
		return nil, errors.New("nil child node")
	}
	if depth > 64 {
		return nil, errors.New("tree is deeper than 64 levels")
	}
	loc := vLoc{n.objectNumber, n.objectOffset, n.objectLength}
	if !n.loaded {
		v, err := st.walkStored(loc, depth, parent)
		if err != nil {
			return nil, err
		}
		v.n, v.inMem, v.dirty = n, true, n.dirty
		if v.items != n.items {
			return nil, fmt.Errorf("unloaded node claims %d items, its stored copy has %d", n.items, v.items)
		}
		return v, nil
	}
	v := &vNode{n: n, inMem: true, loaded: true, dirty: n.dirty, root: n.root, leaf: n.leaf, items: n.items, loc: loc, depth: depth, parent: parent}
	ks, vs := llrbPairs(n.kvLLRB)
	v.keys = ks
	if n.leaf {
		v.vals = vs
		return v, nil
	}
	kids := []*btreeNodeStruct{n.nonLeafLeftChild}
	for _, x := range vs {
		c, ok := x.(*btreeNodeStruct)
		if !ok {
			return nil, fmt.Errorf("non-leaf holds a %T", x)
		}
		kids = append(kids, c)
	}
	for _, c := range kids {
		k, err := st.walk(c, depth+1, v)
		if err != nil {
			return nil, err
		}
		v.kids = append(v.kids, k)
	}
	return v, nil
}

func (v *vNode) each(f func(*vNode)) {
	f(v)
	for _, k := range v.kids {
		k.each(f)
	}
}

func (v *vNode) contents() (m vModel, err error) {
	v.each(func(x *vNode) {
		if x.leaf {
			for i := range x.keys {
				k, ok := x.keys[i].(vKey)
				_, ok2 := x.vals[i].(string)
				if !ok || !ok2 && x.vals[i] != nil {
					err = fmt.Errorf("leaf holds %T:%T", x.keys[i], x.vals[i])
					return
				}
				m = append(m, vPair{k, x.vals[i]})
			}
		}
	})
	return
}

// ---- running one operation ----

type vPanic struct {
	val   interface{}
	stack string
}

func guard(f func()) (p *vPanic) {
	defer func() {
		if r := recover(); r != nil {
			p = &vPanic{r, string(debug.Stack())}
		}
	}()
	f()
	return nil
}

func waitDrainer(c *btreeNodeCacheStruct) bool {
	for i := 0; i < 20000; i++ {
		c.Lock()
		a := c.drainerActive
		c.Unlock()
		if !a {
			return true
		}
		if i < 50 {
			time.Sleep(20 * time.Microsecond)
		} else {
			time.Sleep(500 * time.Microsecond)
		}
	}
	return false
}
