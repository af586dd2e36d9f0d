package sortedmap

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"strings"
	"time"
)

// ---- C01 ----

type vCmpCase struct {
	name string
	cmp  Compare
	gen  func(r *rand.Rand) (interface{}, interface{})
	less func(a, b interface{}) int
}

func vSign(x int) int {
	if x < 0 {
		return -1
	} else if x > 0 {
		return 1
	}
	return 0
}

func vU64(r *rand.Rand) uint64 {
	switch r.Intn(6) {
	case 0:
		return uint64(r.Intn(4))
	case 1:
		return math.MaxUint64 - uint64(r.Intn(4))
	case 2:
		return 1<<63 + uint64(r.Intn(5)) - 2
	case 3:
		return 1<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1
	}
	return r.Uint64()
}

func vNear(r *rand.Rand, a uint64) uint64 {
	switch r.Intn(5) {
	case 0:
		return a
	case 1:
		return a + uint64(r.Intn(5)) - 2
	case 2:
		return a ^ 1<<uint(r.Intn(64))
	}
	return vU64(r)
}

func ord64(a, b uint64) int {
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}

func vStr(r *rand.Rand) string {
	n := r.Intn(6)
	b := make([]byte, n)
	for i := range b {
		b[i] = []byte{0, 'a', 'b', 0x7f, 0x80, 0xff}[r.Intn(6)]
	}
	return string(b)
}

func vTimeGen(r *rand.Rand) time.Time {
	var t time.Time
	switch r.Intn(4) {
	case 0:
		t = time.Time{}
	case 1:
		t = time.Unix(r.Int63()-r.Int63(), r.Int63n(1e9))
	case 2:
		t = time.Unix(int64(r.Intn(3)), int64(r.Intn(3)))
	case 3:
		t = time.Now().Add(time.Duration(r.Intn(3)))
	}
	if r.Intn(2) == 0 {
		t = t.In(time.FixedZone("x", r.Intn(7)*3600-7200))
	}
	return t
}

func vCmpCases() []vCmpCase {
	u := func(f func(uint64) interface{}) func(r *rand.Rand) (interface{}, interface{}) {
		return func(r *rand.Rand) (interface{}, interface{}) {
			a := vU64(r)
			return f(a), f(vNear(r, a))
		}
	}
	return []vCmpCase{
		{"CompareInt", CompareInt, u(func(x uint64) interface{} { return int(x) }), func(a, b interface{}) int {
			x, y := a.(int), b.(int)
			if x < y {
				return -1
			} else if x > y {
				return 1
			}
			return 0
		}},
		{"CompareUint16", CompareUint16, u(func(x uint64) interface{} { return uint16(x) }), func(a, b interface{}) int { return ord64(uint64(a.(uint16)), uint64(b.(uint16))) }},
		{"CompareUint32", CompareUint32, u(func(x uint64) interface{} { return uint32(x) }), func(a, b interface{}) int { return ord64(uint64(a.(uint32)), uint64(b.(uint32))) }},
		{"CompareUint64", CompareUint64, u(func(x uint64) interface{} { return x }), func(a, b interface{}) int { return ord64(a.(uint64), b.(uint64)) }},
		{"CompareString", CompareString, func(r *rand.Rand) (interface{}, interface{}) { return vStr(r), vStr(r) }, func(a, b interface{}) int {
			x, y := a.(string), b.(string)
			if x < y {
				return -1
			} else if x > y {
				return 1
			}
			return 0
		}},
		{"CompareByteSlice", CompareByteSlice, func(r *rand.Rand) (interface{}, interface{}) {
			a, b := []byte(vStr(r)), []byte(vStr(r))
			if r.Intn(10) == 0 {
				a = nil
			}
			return a, b
		}, func(a, b interface{}) int { return bytes.Compare(a.([]byte), b.([]byte)) }},
		{"CompareTime", CompareTime, func(r *rand.Rand) (interface{}, interface{}) {
			a := vTimeGen(r)
			if r.Intn(3) == 0 {
				return a, a.Add(time.Duration(r.Intn(3) - 1)).UTC()
			}
			return a, vTimeGen(r)
		}, func(a, b interface{}) int {
			x, y := a.(time.Time), b.(time.Time)
			if x.Unix() != y.Unix() {
				if x.Unix() < y.Unix() {
					return -1
				}
				return 1
			}
			return vSign(x.Nanosecond() - y.Nanosecond())
		}},
	}
}

type vInt int
type vString string

func runC01(seed int64, stop func() bool) (fails []string, n int) {
	r := rand.New(rand.NewSource(seed))
	cases := vCmpCases()
	wrong := []interface{}{nil, 1.5, true, vInt(1), vString("x"), struct{}{}, []int{1}, map[string]int{}, int8(1), int16(1), int32(1), int64(1), uint8(1), uint(1), uintptr(1), &r, func() {}, [2]byte{}, make(chan int), (*time.Time)(nil), (error)(nil), time.Second}
	for _, c := range cases {
		a, _ := c.gen(r)
		for _, d := range cases {
			if d.name != c.name {
				b, _ := d.gen(r)
				wrong = append(wrong, b)
			}
		}
		for _, x := range wrong {
			if fmt.Sprintf("%T", x) == fmt.Sprintf("%T", a) {
				continue
			}
			for _, p := range [][2]interface{}{{a, x}, {x, a}, {x, x}} {
				n++
				var err error
				if pn := guard(func() { _, err = c.cmp(p[0], p[1]) }); pn != nil {
					fails = append(fails, fmt.Sprintf("%s(%T, %T) panics: %v", c.name, p[0], p[1], pn.val))
				} else if err == nil {
					fails = append(fails, fmt.Sprintf("%s(%T, %T) returns no error", c.name, p[0], p[1]))
				}
			}
		}
	}
	for k := 0; k < 200 || !stop(); k++ {
		for i := 0; i < 1000; i++ {
			c := cases[i%len(cases)]
			a, b := c.gen(r)
			n++
			var res int
			var err error
			if pn := guard(func() { res, err = c.cmp(a, b) }); pn != nil {
				fails = append(fails, fmt.Sprintf("%s(%#v, %#v) panics: %v", c.name, a, b, pn.val))
				return
			}
			if err != nil || vSign(res) != c.less(a, b) {
				fails = append(fails, fmt.Sprintf("%s(%#v, %#v) = %d, %v; natural order gives %d", c.name, a, b, res, err, c.less(a, b)))
				return
			}
		}
	}
	return
}

// ---- C02, C03, and the in-memory side of C10, C11, C12 ----

type lWorld struct {
	prop   string
	t      LLRBTree
	lt     *llrbTreeStruct
	m      vModel
	coarse bool
	space  int
	fails  []string
	cur    string
	n      int
}

func (l *lWorld) fail(props, msg string) {
	for _, p := range strings.Split(props, ",") {
		if p == l.prop {
			l.fails = append(l.fails, l.cur+": "+msg)
		}
	}
}

func newLWorld(prop string, space int, coarse bool) *lWorld {
	t := NewLLRBTree(vCompare, &vCB{})
	return &lWorld{prop: prop, t: t, lt: t.(*llrbTreeStruct), space: space, coarse: coarse}
}

func (l *lWorld) key(a int) vKey {
	if l.coarse {
		return vKey{a / 3, a}
	}
	return vKey{a, a}
}

func (l *lWorld) contents() (m vModel, bad bool) {
	ks, vs := llrbPairs(l.t)
	for i := range ks {
		k, ok := ks[i].(vKey)
		if !ok {
			return nil, true
		}
		m = append(m, vPair{k, vs[i]})
	}
	return
}

func (l *lWorld) balance() string {
	msg := ""
	deepest := 0
	var rec func(n *llrbNodeStruct, d int) int
	rec = func(n *llrbNodeStruct, d int) int {
		if n == nil {
			if d > deepest {
				deepest = d
			}
			return 0
		}
		if n.right != nil && n.right.color == RED {
			msg = "a right link is red"
		}
		if n.color == RED && n.left != nil && n.left.color == RED {
			msg = "two red links in a row"
		}
		a, b := rec(n.left, d+1), rec(n.right, d+1)
		if a != b {
			msg = fmt.Sprintf("black heights %d and %d", a, b)
		}
		if n.color == BLACK {
			a++
		}
		return a
	}
	rec(l.lt.root, 0)
	if l.lt.root != nil && l.lt.root.color == RED {
		msg = "the root is red"
	}
	n := len(l.m)
	if float64(deepest) > 2*math.Log2(float64(n+1))+1e-9 {
		msg = fmt.Sprintf("search path of %d nodes through %d items", deepest, n)
	}
	return msg
}

func (l *lWorld) step(op vOp) {
	l.n++
	var key Key = l.key(op.A % l.space)
	if op.B%3 == 0 && len(l.m) > 0 {
		key = l.m[op.A%len(l.m)].k
	}
	if op.B%16 == 15 && (l.prop == "C11" || l.prop == "C10") {
		key = []Key{vBad(1), nil, "bad"}[op.A%3]
	}
	idx := 0
	n := len(l.m)
	switch op.B % 12 {
	case 0:
		idx = []int{-1, n, math.MinInt64, math.MaxInt64, n + 1, -2}[op.A%6]
	default:
		idx = op.A % (n + 1)
	}
	l.cur = fmt.Sprintf("step %d %s key=%v index=%d items=%d", l.n, op.Kind, key, idx, n)
	m0, bad0 := l.contents()
	val := vVal(fmt.Sprintf("v%d", l.n), l.n)
	if p := guard(func() {
		switch op.Kind {
		case "reset":
			l.t.Reset()
			l.m = nil
		case "validate":
			if err := l.t.Validate(); err != nil {
				l.fail("C12", "Validate refuses a correct map: "+err.Error())
			}
		case "corrupt":
			if l.prop == "C12" && l.lt.root != nil {
				x := l.lt.root
				for i := 0; i < op.B%6; i++ {
					y := x.left
					if (op.A>>uint(i))&1 == 1 {
						y = x.right
					}
					if y == nil {
						break
					}
					x = y
				}
				old := x.len
				x.len += []int{1, -1, 7}[op.A%3]
				if err := l.t.Validate(); err == nil {
					l.fail("C12", "Validate accepts a wrong subtree count")
				}
				x.len = old
			}
		default:
			pre := l.m
			got, want, rejected, known := mapOp(l.t, &l.m, op, key, idx, val, true)
			if !known {
				return
			}
			if !sameRes(op.Kind, got, want) {
				if rejected {
					l.fail("C11", fmt.Sprintf("%v, expected %v", got, want))
				}
				l.fail("C02", fmt.Sprintf("%v, expected %v on %v", got, want, pre))
			}
			if rejected {
				if m, bad := l.contents(); !bad0 && (bad || !sameModel(m, m0)) {
					l.fail("C11", fmt.Sprintf("rejected operation changed %v to %v", m0, m))
				}
			}
		}
	}); p != nil {
		l.fail("C02,C11", fmt.Sprintf("panic: %v", p.val))
		if op.Kind == "validate" || op.Kind == "corrupt" {
			l.fail("C12", fmt.Sprintf("panic: %v", p.val))
		}
		if !l.lt.Mutex.TryLock() {
			l.lt.Mutex.Unlock()
		} else {
			l.lt.Mutex.Unlock()
		}
		l.t = NewLLRBTree(vCompare, &vCB{})
		l.lt = l.t.(*llrbTreeStruct)
		l.m = nil
		return
	}
	if !l.lt.Mutex.TryLock() {
		l.fail("C10", "the map's lock is still held after "+op.Kind)
		l.lt.Mutex.Unlock()
	} else {
		l.lt.Mutex.Unlock()
	}
	m, bad := l.contents()
	if bad || !sameModel(m, l.m) {
		l.fail("C02", fmt.Sprintf("contents are %v, expected %v", m, l.m))
		if op.Kind == "validate" {
			l.fail("C12", "Validate changed the contents")
		}
		l.m = m
	}
	if l.prop == "C02" && (op.A+op.B)%7 == 0 {
		for i := range l.m {
			k, v, ok, err := l.t.GetByIndex(i)
			if err != nil || !ok || k != Key(l.m[i].k) || v != Value(l.m[i].v) {
				l.fail("C02", fmt.Sprintf("GetByIndex(%d) = %v %v %v %v, expected %v", i, k, v, ok, err, l.m[i]))
				break
			}
		}
	}
	if l.prop == "C03" {
		if msg := l.balance(); msg != "" {
			l.fail("C03", msg)
		}
	}
	if l.prop == "C12" && len(l.fails) == 0 && l.n%5 == 0 {
		if err := l.t.Validate(); err != nil {
			l.fail("C12", "Validate refuses a correct map: "+err.Error())
		}
	}
}

var lKinds = []string{"put", "put", "put", "put", "delk", "delk", "deli", "getk", "geti", "patk", "pati", "bl", "br", "len", "reset", "validate", "corrupt"}

func lOps(r *rand.Rand, n int, space int) (ops []vOp) {
	grow := 0
	for len(ops) < n {
		if grow == 0 {
			grow = 1 + r.Intn(3)
			if r.Intn(12) == 0 {
				ops = append(ops, vOp{Kind: "reset"})
			}
			mode := r.Intn(4)
			for i := r.Intn(2 * space); i > 0; i-- {
				a := r.Intn(space)
				if mode == 1 {
					a = i
				} else if mode == 2 {
					a = space - i + 2*space
				}
				k := "put"
				if r.Intn(4) == 0 {
					k = "patk"
				}
				if mode == 3 {
					k = []string{"delk", "deli"}[r.Intn(2)]
				}
				ops = append(ops, vOp{Kind: k, A: a, B: 1})
			}
		}
		grow--
		for i := 0; i < 10; i++ {
			k := lKinds[r.Intn(len(lKinds))]
			if k == "reset" && r.Intn(20) != 0 {
				k = "getk"
			}
			ops = append(ops, vOp{Kind: k, A: r.Intn(1 << 20), B: r.Intn(1 << 20)})
		}
	}
	return
}

func runLLRBOps(prop string, space int, coarse bool, ops []vOp) *lWorld {
	l := newLWorld(prop, space, coarse)
	for _, op := range ops {
		l.step(op)
		if len(l.fails) > 0 {
			break
		}
	}
	return l
}

// small scope: every insertion order of n keys, then for each every single deletion by key and by index
func runLLRBExhaustive(prop string, n int, part, parts int) (fails []string, cases int) {
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	idx := 0
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == n {
			idx++
			if idx%parts != part {
				return true
			}
			for d := 0; d < 2*n; d++ {
				l := newLWorld(prop, 4*n+4, false)
				for _, p := range perm {
					l.step(vOp{Kind: "put", A: 2*p + 1, B: 1})
				}
				seq := []int{d % n, (d + idx) % n, (d * 3) % n}
				for j, x := range seq {
					if d < n {
						l.step(vOp{Kind: "delk", A: 2*x + 1, B: 1})
					} else {
						l.step(vOp{Kind: "deli", A: x, B: 1})
					}
					if j == 0 {
						for _, q := range []string{"bl", "br", "getk", "patk"} {
							for a := 0; a <= 2*n; a++ {
								l.step(vOp{Kind: q, A: a, B: 1})
							}
						}
						for a := 0; a < n; a++ {
							l.step(vOp{Kind: "geti", A: a, B: 1})
							l.step(vOp{Kind: "pati", A: a, B: 1})
						}
					}
				}
				cases++
				if len(l.fails) > 0 {
					fails = append(fails, fmt.Sprintf("insert order %v, deletions %v: %s", perm, seq, l.fails[0]))
					return false
				}
			}
			return true
		}
		for i := k; i < n; i++ {
			perm[k], perm[i] = perm[i], perm[k]
			if !rec(k + 1) {
				return false
			}
			perm[k], perm[i] = perm[i], perm[k]
		}
		return true
	}
	rec(0)
	return
}
