package sortedmap

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type vReplay struct {
	Property string   `json:"property"`
	Engine   string   `json:"engine"`
	Seed     int64    `json:"seed"`
	Cfg      *vCfg    `json:"cfg,omitempty"`
	Space    int      `json:"space,omitempty"`
	Coarse   bool     `json:"coarse,omitempty"`
	Ops      []vOp    `json:"ops,omitempty"`
	Fails    []string `json:"fails"`
}

type vSummary struct {
	Cases    int            `json:"cases"`
	Steps    int            `json:"steps"`
	Distinct int            `json:"distinct"`
	Counts   map[string]int `json:"counts"`
	MaxH     int            `json:"max_height"`
	Sample   interface{}    `json:"sample"`
}

func vEnvInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func vWrite(path string, x interface{}) {
	b, _ := json.MarshalIndent(x, "", " ")
	if path != "" {
		os.WriteFile(path, b, 0644)
	}
}

func vMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var vProgress int64

func vWatchdog(out string, cur *atomic.Value, prop string) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		p := atomic.LoadInt64(&vProgress)
		if p != last {
			last, since = p, time.Now()
			continue
		}
		if time.Since(since) > 40*time.Second {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			r := vReplay{Property: prop, Engine: "hang"}
			if c, ok := cur.Load().(vReplay); ok {
				r = c
			}
			r.Fails = []string{"an operation does not return (deadlock or endless loop)", string(buf)}
			vWrite(out, r)
			os.Exit(3)
		}
	}
}

func bOps(r *rand.Rand, prop string, cfg *vCfg) (ops []vOp) {
	n := 20 + r.Intn(60)
	mapk := []string{"put", "put", "delk", "deli", "getk", "geti", "patk", "pati", "bl", "br", "len"}
	page := []string{"flush", "flush", "purge", "prune", "touch", "touchitem", "reopen", "snap", "layout", "validate", "dims", "limits", "discard", "sweep", "scan"}
	special := map[string][]string{
		"C04": {"burst", "thin", "seqdel", "scan"}, "C05": {"burst", "thin", "seqdel"}, "C06": {"flush", "reopen", "snap", "purge", "limits", "thin", "burst"},
		"C07": {"flush", "touch", "purge", "limits", "patk", "pati", "thin"}, "C08": {"flush", "prune", "discard", "thin", "burst", "touch"}, "C09": {"limits", "flush", "thin", "burst", "purge"},
		"C10": {"flush", "limits"}, "C11": {"flush", "put", "patk", "deli", "pati", "geti"}, "C12": {"corrupt", "corrupt", "validate", "flush", "burst", "thin"}, "C13": {"layout", "layout", "flush", "purge"}, "C14": {"touchitem", "touchitem", "sweep", "flush"}}[prop]
	quiet := r.Intn(6) == 0
	if cfg.Max >= 32 {
		n = 12
		ops = append(ops, vOp{Kind: "bulk", A: r.Intn(1 << 20)})
	}
	for len(ops) < n {
		op := vOp{Tree: r.Intn(cfg.Trees), A: r.Intn(1 << 20), B: r.Intn(1 << 20)}
		switch x := r.Intn(20); {
		case x < 9 || quiet && x < 17:
			op.Kind = mapk[r.Intn(len(mapk))]
		case x < 12 && cfg.Paging:
			op.Kind = page[r.Intn(len(page))]
			if op.Kind == "discard" && prop != "C08" && r.Intn(4) != 0 {
				op.Kind = "flush"
			}
		case x < 14:
			op.Kind = []string{"burst", "thin", "burst", "seqdel"}[r.Intn(4)]
		default:
			op.Kind = special[r.Intn(len(special))]
		}
		if cfg.Faults && r.Intn(12) == 0 {
			op.Kind = "hurt"
		}
		if !cfg.Paging {
			switch op.Kind {
			case "flush", "purge", "reopen", "snap", "discard", "limits", "prune", "hurt":
				op.Kind = "scan"
			}
		}
		if cfg.Faults && r.Intn(5) == 0 {
			op.Fault = 1 + r.Intn(6)
			if r.Intn(3) == 0 {
				op.Fault = 1 + r.Intn(60)
			}
			op.Mask = []string{"", "", "G", "P", "D", "kv", "uw", "PD"}[r.Intn(8)]
		}
		ops = append(ops, op)
	}
	return
}

func bCfg(r *rand.Rand, prop string) vCfg {
	c := vCfg{Max: []uint64{4, 4, 4, 6, 6, 8, 12}[r.Intn(7)], Trees: 1, Paging: true, Space: []int{12, 30, 100, 400}[r.Intn(4)], Coarse: r.Intn(4) == 0}
	if r.Intn(12) == 0 {
		c.Max = []uint64{14, 16, 20, 26, 32, 64, 66, 80, 128, 260}[r.Intn(10)]
		c.Space = 100 * int(c.Max)
	}
	switch prop {
	case "C04":
		c.Paging = r.Intn(3) != 0
	case "C09":
		c.Trees = 1 + r.Intn(3)
	default:
		c.Trees = 1 + r.Intn(2)
	}
	if prop == "C09" || r.Intn(2) == 0 {
		c.Cache = true
		c.Low = uint64(r.Intn(20))
		c.High = c.Low + uint64(r.Intn(10))
		if r.Intn(4) == 0 {
			c.Low, c.High = 1000, 2000
		}
	}
	if prop != "C05" && prop != "C14" && r.Intn(3) == 0 {
		c.Faults = true
	}
	if prop == "C11" || prop == "C08" && r.Intn(2) == 0 {
		c.Faults = true
	}
	return c
}

func runB(prop string, cfg vCfg, ops []vOp, seed int64) *vWorld {
	w := newWorld(prop, cfg, seed)
	for _, op := range ops {
		atomic.AddInt64(&vProgress, 1)
		w.step(op)
		if len(w.fails) > 0 || w.broken {
			break
		}
	}
	if w.bc != nil && !w.broken {
		waitDrainer(w.bc)
	}
	return w
}

func shrink(ops []vOp, bad func([]vOp) bool, limit time.Duration) []vOp {
	end := time.Now().Add(limit)
	for chunk := len(ops) / 2; chunk >= 1; {
		removed := false
		for i := 0; i+chunk <= len(ops) && time.Now().Before(end); {
			cand := append(append([]vOp{}, ops[:i]...), ops[i+chunk:]...)
			if bad(cand) {
				ops = cand
				removed = true
			} else {
				i += chunk
			}
		}
		if !removed || time.Now().After(end) {
			chunk /= 2
		}
	}
	return ops
}

func TestVerif(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip()
	}
	out, sum := os.Getenv("VERIF_OUT"), os.Getenv("VERIF_SUMMARY")
	curf := os.Getenv("VERIF_CUR")
	var cur atomic.Value
	go vWatchdog(out, &cur, prop)
	found := func(r vReplay) {
		r.Property = prop
		vWrite(out, r)
		fmt.Println("VERIF-FAIL", r.Fails[0])
		t.Fail()
	}
	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		b, err := os.ReadFile(rp)
		if err != nil {
			t.Fatal(err)
		}
		var r vReplay
		if err := json.Unmarshal(b, &r); err != nil {
			t.Fatal(err)
		}
		r.Fails = nil
		switch r.Engine {
		case "btree":
			r.Fails = runB(prop, *r.Cfg, r.Ops, r.Seed).fails
		case "llrb":
			r.Fails = runLLRBOps(prop, r.Space, r.Coarse, r.Ops).fails
		case "comparators":
			r.Fails, _ = runC01(r.Seed, func() bool { return true })
		case "llrb-exhaustive":
			r.Fails, _ = runLLRBExhaustive(prop, int(r.Seed), 0, 1)
		case "concurrent", "hang":
			r.Fails = runC10(r.Seed, func() bool { return false }, 3*time.Second)
		}
		if len(r.Fails) > 0 {
			found(r)
		}
		return
	}
	seed := int64(vEnvInt("VERIF_SEED", 1))*1000003 + int64(vEnvInt("VERIF_PART", 0))*7919
	part, parts := vEnvInt("VERIF_PART", 0), vEnvInt("VERIF_PARTS", 1)
	budget := time.Duration(vEnvInt("VERIF_BUDGET_MS", 5000)) * time.Millisecond
	maxCases := vEnvInt("VERIF_CASES", 1<<30)
	end := time.Now().Add(budget)
	stop := func() bool { return time.Now().After(end) }
	s := vSummary{Counts: map[string]int{}}
	defer func() { vWrite(sum, &s) }()
	seen := map[string]bool{}
	note := func(key string, nontrivial bool) {
		if nontrivial && !seen[key] {
			seen[key] = true
			s.Distinct++
		}
	}
	switch prop {
	case "C01":
		cur.Store(vReplay{Engine: "comparators", Seed: seed})
		f, n := runC01(seed, stop)
		s.Cases, s.Steps, s.Distinct = n, n, n
		s.Sample = "CompareInt(MinInt, 1), CompareTime(zero, now), CompareUint16(nil, 3), ..."
		if len(f) > 0 {
			found(vReplay{Engine: "comparators", Seed: seed, Fails: f})
		}
		return
	case "C10":
		f := runC10(seed, stop, budget*2/3)
		if len(f) > 0 {
			found(vReplay{Engine: "concurrent", Seed: seed, Fails: f})
			return
		}
		end = time.Now().Add(budget / 3)
	}
	if prop == "C02" || prop == "C03" {
		for n := 1; n <= vEnvInt("VERIF_EXH", 6); n++ {
			cur.Store(vReplay{Engine: "llrb-exhaustive", Seed: int64(n)})
			atomic.AddInt64(&vProgress, 1)
			f, c := runLLRBExhaustive(prop, n, part, parts)
			s.Cases += c
			s.Distinct += c
			s.Counts["exhaustive"] += c
			if len(f) > 0 {
				found(vReplay{Engine: "llrb-exhaustive", Seed: int64(n), Fails: f})
				return
			}
		}
	}
	// regression histories first
	for c := 0; (c < 3 || !stop()) && c < maxCases; c++ {
		cs := seed + int64(c)*104729
		r := rand.New(rand.NewSource(cs))
		useL := prop == "C02" || prop == "C03" || (prop == "C10" || prop == "C11" || prop == "C12") && c%3 == 0
		if useL {
			space := []int{5, 12, 40, 200}[r.Intn(4)]
			coarse := r.Intn(4) == 0
			ops := lOps(r, 60+r.Intn(150), space)
			rep := vReplay{Engine: "llrb", Seed: cs, Space: space, Coarse: coarse, Ops: ops}
			cur.Store(rep)
			if curf != "" && c%64 == 0 {
				vWrite(curf, rep)
			}
			atomic.AddInt64(&vProgress, 1)
			l := runLLRBOps(prop, space, coarse, ops)
			s.Cases++
			s.Steps += l.n
			note(fmt.Sprint("l", cs), len(l.m) > 2)
			if s.Sample == nil {
				s.Sample = rep.Ops[:vMin(8, len(ops))]
			}
			if len(l.fails) > 0 {
				ops = ops[:l.n]
				ops = shrink(ops, func(o []vOp) bool {
					atomic.AddInt64(&vProgress, 1)
					return len(runLLRBOps(prop, space, coarse, o).fails) > 0
				}, 5*time.Second)
				rep.Ops = ops
				rep.Fails = runLLRBOps(prop, space, coarse, ops).fails
				found(rep)
				return
			}
			continue
		}
		cfg := bCfg(r, prop)
		ops := bOps(r, prop, &cfg)
		rep := vReplay{Engine: "btree", Seed: cs, Cfg: &cfg, Ops: ops}
		cur.Store(rep)
		if curf != "" {
			vWrite(curf, rep)
		}
		w := runB(prop, cfg, ops, cs)
		s.Cases++
		s.Steps += w.checked
		for k, v := range w.counts {
			s.Counts[k] += v
		}
		if w.maxH > s.MaxH {
			s.MaxH = w.maxH
		}
		note(fmt.Sprint("b", cs), w.checked > 10)
		if s.Sample == nil {
			s.Sample = map[string]interface{}{"cfg": cfg, "ops": ops[:vMin(8, len(ops))]}
		}
		if len(w.fails) > 0 {
			if w.seq < len(ops) {
				ops = ops[:w.seq]
			}
			ops = shrink(ops, func(o []vOp) bool {
				return len(runB(prop, cfg, o, cs).fails) > 0
			}, 8*time.Second)
			rep.Ops = ops
			rep.Fails = runB(prop, cfg, ops, cs).fails
			if len(rep.Fails) == 0 {
				rep.Fails = w.fails
			}
			found(rep)
			return
		}
	}
}

// ---- C10: concurrency, under the race detector ----

type cCB struct {
	sync.Mutex
	vCB
	n int64
}

func (c *cCB) bad() bool { return atomic.AddInt64(&c.n, 1)%97 == 0 }

func (c *cCB) GetNode(n uint64, o uint64, l uint64) ([]byte, error) {
	if c.bad() {
		return nil, errInjected
	}
	c.Lock()
	defer c.Unlock()
	return c.vCB.GetNode(n, o, l)
}
func (c *cCB) PutNode(b []byte) (uint64, uint64, error) {
	if c.bad() {
		return 0, 0, errInjected
	}
	c.Lock()
	defer c.Unlock()
	return c.vCB.PutNode(b)
}
func (c *cCB) DiscardNode(n uint64, o uint64, l uint64) error {
	if c.bad() {
		return errInjected
	}
	c.Lock()
	defer c.Unlock()
	return c.vCB.DiscardNode(n, o, l)
}
func (c *cCB) PackKey(k Key) ([]byte, error) {
	c.Lock()
	defer c.Unlock()
	return c.vCB.PackKey(k)
}
func (c *cCB) UnpackKey(b []byte) (Key, uint64, error) {
	c.Lock()
	defer c.Unlock()
	return c.vCB.UnpackKey(b)
}
func (c *cCB) PackValue(v Value) ([]byte, error) {
	c.Lock()
	defer c.Unlock()
	return c.vCB.PackValue(v)
}
func (c *cCB) UnpackValue(b []byte) (Value, uint64, error) {
	c.Lock()
	defer c.Unlock()
	return c.vCB.UnpackValue(b)
}

func runC10(seed int64, stop func() bool, budget time.Duration) (fails []string) {
	end := time.Now().Add(budget)
	var mu sync.Mutex
	fail := func(m string) {
		mu.Lock()
		fails = append(fails, m)
		mu.Unlock()
	}
	// Dump prints; keep it out of the check's output
	so := os.Stdout
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null
	defer func() { os.Stdout = so; null.Close() }()
	for round := 0; round < 2 || time.Now().Before(end); round++ {
		atomic.AddInt64(&vProgress, 1)
		if len(fails) > 0 {
			return
		}
		st := &vStore{live: map[vLoc][]byte{}, owner: map[vLoc]int{}, complain: func(p, m string) {}}
		var cache BPlusTreeCache
		if round%4 != 3 {
			cache = NewBPlusTreeCache(uint64(round%7), uint64(round%11))
		}
		cb := &cCB{vCB: vCB{st: st}}
		var maps []SortedMap
		b1 := NewBPlusTree(4, vCompare, cb, cache)
		b2 := NewBPlusTree(4, vCompare, cb, cache)
		l := NewLLRBTree(vCompare, cb)
		maps = append(maps, b1, b2, l)
		var wins [3][40]int64
		var dels [3][40]int64
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed + int64(round)*31 + int64(g)))
				defer func() {
					if p := recover(); p != nil {
						fail(fmt.Sprintf("panic in a concurrent operation: %v", p))
					}
				}()
				for i := 0; i < 150; i++ {
					atomic.AddInt64(&vProgress, 1)
					mi := r.Intn(len(maps))
					m := maps[mi]
					k := r.Intn(40)
					var key Key = vKey{k, k}
					if r.Intn(12) == 0 {
						key = vBad(1)
					}
					switch r.Intn(13) {
					case 0, 1, 2:
						ok, _ := m.Put(key, "x")
						if ok {
							atomic.AddInt64(&wins[mi][k], 1)
						}
					case 3, 4:
						ok, _ := m.DeleteByKey(key)
						if ok {
							atomic.AddInt64(&dels[mi][k], 1)
						}
					case 5:
						m.GetByIndex(r.Intn(20) - 1)
					case 6:
						m.GetByKey(key)
					case 7:
						m.PatchByKey(key, "y")
					case 8:
						m.PatchByIndex(r.Intn(20)-1, "z")
					case 9:
						m.BisectLeft(key)
						m.BisectRight(key)
					case 10:
						m.Len()
						m.Validate()
					case 11:
						if i%10 == 0 {
							m.Dump()
						}
					case 12:
						if b, ok := m.(BPlusTree); ok {
							switch r.Intn(9) {
							case 0, 1:
								b.Flush(r.Intn(2) == 0)
							case 2:
								b.Purge(r.Intn(2) == 0)
							case 3:
								b.Touch()
							case 4:
								b.TouchItem(uint64(r.Intn(20)))
							case 5:
								b.Prune()
							case 6:
								b.FetchLayoutReport()
							case 7:
								b.FetchDimensionsReport()
								b.FetchLocation()
							case 8:
								if cache != nil {
									cache.UpdateLimits(uint64(r.Intn(6)), uint64(r.Intn(9)))
									cache.Stats()
								}
							}
						} else if i == 149 && g == 0 && round%3 == 0 {
							m.(LLRBTree).Reset()
						}
					}
				}
			}(g)
		}
		done := make(chan bool)
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			fail("concurrent operations do not finish (deadlock)")
			return
		}
		if cache != nil && !waitDrainer(cache.(*btreeNodeCacheStruct)) {
			fail("eviction does not finish (deadlock)")
			return
		}
		for i, m := range maps {
			var mx *sync.Mutex
			if b, ok := m.(*btreeTreeStruct); ok {
				mx = &b.Mutex
			} else {
				mx = &m.(*llrbTreeStruct).Mutex
			}
			if !vTryLock(mx) {
				fail("a map's lock is held after all operations returned")
				return
			}
			mx.Unlock()
			if i < 2 {
				// atomicity: a key's successful insertions and deletions alternate
				atomic.StoreInt64(&cb.n, 1)
				for k := 0; k < 40; k++ {
					atomic.StoreInt64(&cb.n, 1)
					_, ok, err := m.GetByKey(vKey{k, k})
					if err != nil {
						continue
					}
					d := wins[i][k] - dels[i][k]
					if d != 0 && d != 1 || ok != (d == 1) {
						fail(fmt.Sprintf("key %d was inserted %d times and deleted %d times, present=%v: no one-at-a-time order explains it", k, wins[i][k], dels[i][k], ok))
					}
				}
			}
		}
	}
	return
}

var _ = io.Discard
var _ = errors.New
var _ = strings.Split
