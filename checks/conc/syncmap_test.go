package conc

import (
	"fmt"
	"testing"

	"github.com/anishathalye/porcupine"
	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

type mop struct {
	Op   string
	K    int
	Old  int   // which earlier value a compare expects: 0 the key's last known, otherwise arbitrary
	Body []mop // what a Range callback does, one per visited key
	Stop int   // Range stops after this many
}

type mapPlan struct {
	Prep    []mop
	Workers [][]mop
	Sched   sched
	Strs    bool
}

type mIn struct {
	Op       string
	K        int
	Old, New int
}

type mOut struct {
	V  int
	OK bool
}

// state of one key: 0 absent, otherwise the value
func mapStep(state, in, out any) (bool, any) {
	st, i, o := state.(int), in.(mIn), out.(mOut)
	had := mOut{st, st != 0}
	switch i.Op {
	case "load":
		return o == had, st
	case "absent": // some moment without the key
		return st == 0, st
	case "store":
		return true, i.New
	case "swap":
		return o == had, i.New
	case "los":
		if st != 0 {
			return o == had, st
		}
		return o == mOut{i.New, false}, i.New
	case "lad":
		return o == had, 0
	case "delete":
		return true, 0
	case "cas":
		if st != 0 && st == i.Old {
			return o.OK, i.New
		}
		return !o.OK, st
	case "cad":
		if st != 0 && st == i.Old {
			return o.OK, 0
		}
		return !o.OK, st
	}
	panic(i.Op)
}

var mapModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		by := map[int][]porcupine.Operation{}
		var keys []int
		for _, o := range h {
			k := o.Input.(mIn).K
			if by[k] == nil {
				keys = append(keys, k)
			}
			by[k] = append(by[k], o)
		}
		var out [][]porcupine.Operation
		for _, k := range keys {
			out = append(out, by[k])
		}
		return out
	},
	Init:              func() any { return 0 },
	Step:              mapStep,
	Equal:             func(a, b any) bool { return a == b },
	DescribeOperation: func(in, out any) string { return fmt.Sprintf("%+v -> %+v", in, out) },
}

var mopKinds = []string{"load", "load", "load", "store", "store", "swap", "los", "los", "lad", "delete", "cas", "cas", "cad", "range"}

func genMop(t *rapid.T, keys, depth int) mop {
	o := mop{Op: rapid.SampledFrom(mopKinds[:len(mopKinds)-1]).Draw(t, "op"), K: rapid.IntRange(0, keys-1).Draw(t, "k"), Old: rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "old")}
	if depth > 0 && rapid.IntRange(0, 9).Draw(t, "range") == 0 {
		o.Op = "range"
		o.Stop = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "stop")
		if depth > 1 {
			n := rapid.IntRange(0, 3).Draw(t, "nbody")
			for i := 0; i < n; i++ {
				o.Body = append(o.Body, genMop(t, keys, depth-1))
			}
		}
	}
	return o
}

// mapRun drives one map and records.
type mapRun[K comparable, V comparable] struct {
	m     gsync.Map[K, V]
	h     history
	key   func(int) K
	unkey map[K]int
	val   func(int) V
	unval map[V]int
	keys  int
	next  func() int
	last  []int // last value known to have been given to a key (a hint only)
}

func (r *mapRun[K, V]) do(w int, o mop) error {
	k := r.key(o.K)
	old, v := 0, 0
	if o.Op != "load" && o.Op != "lad" && o.Op != "delete" && o.Op != "range" {
		v = r.next()
	}
	if o.Op == "cas" || o.Op == "cad" {
		old = r.hint(o.K)
		if o.Old != 0 || old == 0 {
			old = 1 // an early value
		}
	}
	num := func(x V, ok bool) (mOut, error) {
		if x == *new(V) {
			return mOut{0, ok}, nil
		}
		n, known := r.unval[x]
		if !known {
			return mOut{}, pbt.Errf("a value nobody stored: %v", x)
		}
		return mOut{n, ok}, nil
	}
	point()
	call := r.h.now()
	var out mOut
	var err error
	switch o.Op {
	case "load":
		out, err = num(r.m.Load(k))
	case "store":
		r.m.Store(k, r.val(v))
	case "swap":
		out, err = num(r.m.Swap(k, r.val(v)))
	case "los":
		out, err = num(r.m.LoadOrStore(k, r.val(v)))
	case "lad":
		out, err = num(r.m.LoadAndDelete(k))
	case "delete":
		r.m.Delete(k)
	case "cas":
		out.OK = r.m.CompareAndSwap(k, r.val(old), r.val(v))
	case "cad":
		out.OK = r.m.CompareAndDelete(k, r.val(old))
	case "range":
		return r.doRange(w, o, call)
	}
	if err != nil {
		return err
	}
	r.h.add(w, mIn{o.Op, o.K, old, v}, call, out)
	switch o.Op {
	case "store", "swap", "los":
		r.setHint(o.K, v)
	case "cas":
		if out.OK {
			r.setHint(o.K, v)
		}
	}
	return nil
}

func (r *mapRun[K, V]) hint(k int) int {
	r.h.mu.Lock()
	defer r.h.mu.Unlock()
	return r.last[k]
}

func (r *mapRun[K, V]) setHint(k, v int) {
	r.h.mu.Lock()
	r.last[k] = v
	r.h.mu.Unlock()
}

// doRange records each visit as a load answered at some moment since the call,
// and each key not visited as a moment of absence before the return.
func (r *mapRun[K, V]) doRange(w int, o mop, call int64) error {
	seen := map[int]bool{}
	var err error
	n := 0
	stopped := false
	r.m.Range(func(k K, v V) bool {
		i, ok := r.unkey[k]
		if !ok {
			err = pbt.Errf("Range visits the unknown key %v", k)
			return false
		}
		if stopped {
			err = pbt.Errf("Range goes on after the callback returned false")
		}
		if seen[i] {
			err = pbt.Errf("Range visits key %d twice", i)
			return false
		}
		seen[i] = true
		x, known := r.unval[v]
		if !known {
			err = pbt.Errf("Range reports for key %d a value nobody stored: %v", i, v)
			return false
		}
		r.h.add(w, mIn{Op: "load", K: i}, call, mOut{x, true})
		n++
		if n <= len(o.Body) {
			if e := r.do(w, o.Body[n-1]); e != nil {
				err = e
				return false
			}
		}
		point()
		if n == o.Stop {
			stopped = true
			return false
		}
		return true
	})
	if err != nil {
		return err
	}
	if !stopped {
		for i := 0; i < r.keys; i++ {
			if !seen[i] {
				r.h.add(w, mIn{Op: "absent", K: i}, call, mOut{})
			}
		}
	}
	return nil
}

func runMap[K comparable, V comparable](t *testing.T, c *pbt.Ctx, p mapPlan, keys int, key func(int) K, val func(int) V) error {
	r := &mapRun[K, V]{key: key, val: val, unkey: map[K]int{}, unval: map[V]int{}, keys: keys, last: make([]int, keys)}
	for i := 0; i < keys; i++ {
		r.unkey[key(i)] = i
	}
	total := 2000
	for i := 1; i < total; i++ {
		r.unval[val(i)] = i
	}
	var n history
	r.next = func() int { return int(n.now()) }
	err := runWorkers(t, p.Sched, len(p.Workers), func() error {
		for _, o := range p.Prep {
			if err := r.do(1000, o); err != nil {
				return err
			}
		}
		return nil
	}, func(w int) error {
		for _, o := range p.Workers[w] {
			if err := r.do(w, o); err != nil {
				return err
			}
		}
		return nil
	}, func() error {
		for i := 0; i < keys; i++ {
			if err := r.do(1001, mop{Op: "load", K: i}); err != nil {
				return err
			}
		}
		return r.do(1001, mop{Op: "range"})
	})
	if err != nil {
		return pbt.Errf("%v\n%s", err, r.h.describe(mapModel.DescribeOperation))
	}
	if r.h.overlaps() {
		c.NonTrivial()
	}
	return r.h.linearizable(c, mapModel)
}

func genMapPlan(t *rapid.T, rng bool) mapPlan {
	var p mapPlan
	keys := rapid.SampledFrom([]int{1, 2, 2, 3, 4, 1, 2, 3, 4, 14}).Draw(t, "keys")
	p.Strs = rapid.Bool().Draw(t, "strs")
	p.Prep = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) mop { return genMop(t, keys, 1) }), 0, 14).Draw(t, "prep")
	if keys > 4 { // most of them there from the start
		for k := rapid.IntRange(6, keys-1).Draw(t, "fill"); k > 0; k-- {
			p.Prep = append(p.Prep, mop{Op: "store", K: k})
		}
	}
	n := rapid.IntRange(2, 4).Draw(t, "workers")
	depth := 1
	if rng {
		depth = 2
	}
	for i := 0; i < n; i++ {
		ops := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) mop { return genMop(t, keys, depth) }), 1, 6).Draw(t, "ops")
		if rng && i == 0 {
			o := mop{Op: "range", Stop: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "stop")}
			for j := rapid.IntRange(0, 3).Draw(t, "nbody"); j > 0; j-- {
				o.Body = append(o.Body, genMop(t, keys, 2))
			}
			at := rapid.IntRange(0, len(ops)).Draw(t, "at")
			ops = append(ops[:at:at], append([]mop{o}, ops[at:]...)...)
		}
		p.Workers = append(p.Workers, ops)
	}
	p.Sched = genSched(t, n, 60)
	return p
}

func mapKeys(p mapPlan) int {
	n := 4
	var look func(ops []mop)
	look = func(ops []mop) {
		for _, o := range ops {
			n = max(n, o.K+1)
			look(o.Body)
		}
	}
	look(p.Prep)
	for _, w := range p.Workers {
		look(w)
	}
	return n
}

func runMapPlan(t *testing.T, c *pbt.Ctx, p mapPlan) error {
	if p.Strs {
		return runMap(t, c, p, mapKeys(p), func(i int) string { return fmt.Sprint("k", i) }, func(i int) any {
			if i%2 == 0 {
				return i
			}
			return fmt.Sprint(i)
		})
	}
	return runMap(t, c, p, mapKeys(p), func(i int) int { return i }, func(i int) int { return i })
}

const mapRule = "2..4 workers with 1..6 calls each on one map of up to 4 keys, now and then 14 with most of them stored, after a sequential prefix of up to 14 calls, "

func TestC02_Sched(t *testing.T) {
	only(t, true)
	pbt.Check(t, pbt.Prop[mapPlan]{
		Rule:  mapRule + "every statement of the map a scheduling point, schedules from lock-step to long stalls; the history must be linearizable key by key; non-trivial: calls of different workers overlapped",
		Cases: 6000,
		Gen:   func(t *rapid.T) mapPlan { return genMapPlan(t, false) },
		Run:   func(c *pbt.Ctx, p mapPlan) error { return runMapPlan(t, c, p) },
	})
}

func TestC02_Race(t *testing.T) {
	only(t, false)
	pbt.Check(t, pbt.Prop[mapPlan]{
		Rule:  mapRule + "on real threads under the race detector; the history must be linearizable key by key; non-trivial: calls of different workers overlapped",
		Cases: 4000, NoShrink: true, Repeats: 2000,
		Gen: func(t *rapid.T) mapPlan { return genMapPlan(t, false) },
		Run: func(c *pbt.Ctx, p mapPlan) error { return runMapPlan(t, c, p) },
	})
}

func TestC03_Sched(t *testing.T) {
	only(t, true)
	pbt.Check(t, pbt.Prop[mapPlan]{
		Rule:  mapRule + "at least one of them iterating, with callbacks that call the map (also iterate) and stop early; each visit counts as a load since the call, each key not visited as a moment of absence, and the whole history must be linearizable key by key; non-trivial: calls of different workers overlapped",
		Cases: 6000,
		Gen:   func(t *rapid.T) mapPlan { return genMapPlan(t, true) },
		Run:   func(c *pbt.Ctx, p mapPlan) error { return runMapPlan(t, c, p) },
	})
}

func TestC03_Race(t *testing.T) {
	only(t, false)
	pbt.Check(t, pbt.Prop[mapPlan]{
		Rule:  mapRule + "at least one of them iterating, on real threads under the race detector, same oracle; non-trivial: calls of different workers overlapped",
		Cases: 3000, NoShrink: true, Repeats: 2000,
		Gen: func(t *rapid.T) mapPlan { return genMapPlan(t, true) },
		Run: func(c *pbt.Ctx, p mapPlan) error { return runMapPlan(t, c, p) },
	})
}

// ---- sequential ---------------------------------------------------------------

type seqMapPlan struct {
	Keys  int
	Types int
	Ops   []mop
}

func TestC01_Sequential(t *testing.T) {
	only(t, false)
	pbt.Check(t, pbt.Prop[seqMapPlan]{
		Rule:  "up to 150 calls one after another (iterations with callbacks included) on a map of 1..80 keys with int, string, struct, pointer or mixed interface keys and values, repeated values included; every result compared with a plain map; non-trivial: a deletion, an iteration and a successful compare",
		Cases: 8000,
		Gen: func(t *rapid.T) seqMapPlan {
			p := seqMapPlan{Keys: rapid.SampledFrom([]int{1, 2, 3, 3, 5, 5, 12, 12, 80}).Draw(t, "keys"), Types: rapid.IntRange(0, 4).Draw(t, "types")}
			p.Ops = pbt.Ops(t, 150, func(t *rapid.T) mop {
				o := genMop(t, p.Keys, 2)
				o.Old = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "oldkind")
				return o
			})
			var first []mop
			for _, k := range pbt.Fill(t, p.Keys) {
				first = append(first, mop{Op: "store", K: k})
			}
			p.Ops = append(first, p.Ops...)
			return p
		},
		Run: func(c *pbt.Ctx, p seqMapPlan) error {
			switch p.Types {
			case 0:
				return runSeqMap(c, p, func(i int) int { return i * 100 }, func(i int) string { return fmt.Sprint(i) })
			case 1:
				return runSeqMap(c, p, func(i int) string { return fmt.Sprint(i) }, func(i int) int { return i % 5 })
			case 2:
				type s struct {
					A int
					B string
				}
				return runSeqMap(c, p, func(i int) [2]int { return [2]int{i / 2, i % 2} }, func(i int) s { return s{i % 3, ""} })
			case 3:
				ptr := make([]int, 300)
				return runSeqMap(c, p, func(i int) *int { return &ptr[i] }, func(i int) *int {
					if i%4 == 0 {
						return nil
					}
					return &ptr[i%300]
				})
			default:
				kinds := func(i int) any {
					switch i % 5 {
					case 0:
						return i / 5
					case 1:
						return fmt.Sprint(i / 5)
					case 2:
						return int8(i / 5)
					case 3:
						return float64(i/5) + 0.0
					}
					return [1]int{i / 5}
				}
				return runSeqMap(c, p, kinds, func(i int) any {
					if i%7 == 0 {
						return nil
					}
					return kinds(i % 20)
				})
			}
		},
	})
}

func runSeqMap[K comparable, V comparable](c *pbt.Ctx, p seqMapPlan, key func(int) K, val func(int) V) error {
	var m gsync.Map[K, V]
	model := map[K]V{}
	gen, dels, ranges, compares := 0, 0, 0, 0
	var do func(what string, o mop, depth int) error
	do = func(what string, o mop, depth int) error {
		k := key(o.K)
		gen++
		v := val(gen)
		cur, in := model[k]
		what = fmt.Sprintf("%s %s(%v)", what, o.Op, k)
		old := cur
		switch o.Old {
		case 1:
			old = val(gen / 2)
		case 2:
			old = *new(V)
		}
		match := in && old == cur
		switch o.Op {
		case "load":
			if g, ok := m.Load(k); g != cur || ok != in {
				return pbt.Errf("%s = %v %v, want %v %v", what, g, ok, cur, in)
			}
		case "store":
			m.Store(k, v)
			model[k] = v
		case "swap":
			if g, ok := m.Swap(k, v); g != cur || ok != in {
				return pbt.Errf("%s = %v %v, want %v %v", what, g, ok, cur, in)
			}
			model[k] = v
		case "los":
			want := cur
			if !in {
				want = v
				model[k] = v
			}
			if g, ok := m.LoadOrStore(k, v); g != want || ok != in {
				return pbt.Errf("%s = %v %v, want %v %v", what, g, ok, want, in)
			}
		case "lad":
			if g, ok := m.LoadAndDelete(k); g != cur || ok != in {
				return pbt.Errf("%s = %v %v, want %v %v", what, g, ok, cur, in)
			}
			delete(model, k)
			dels++
		case "delete":
			m.Delete(k)
			delete(model, k)
			dels++
		case "cas":
			if g := m.CompareAndSwap(k, old, v); g != match {
				return pbt.Errf("%s(%v->%v) = %v with %v (%v) there", what, old, v, g, cur, in)
			}
			if match {
				model[k] = v
				compares++
			}
		case "cad":
			if g := m.CompareAndDelete(k, old); g != match {
				return pbt.Errf("%s(%v) = %v with %v (%v) there", what, old, g, cur, in)
			}
			if match {
				delete(model, k)
				compares++
			}
		case "range":
			ranges++
			start := map[K]V{}
			for k, v := range model {
				start[k] = v
			}
			touched := map[K]bool{}
			seen := map[K]bool{}
			n := 0
			var err error
			m.Range(func(k K, v V) bool {
				if n == o.Stop && n > 0 {
					err = pbt.Errf("%s goes on after its callback returned false", what)
				}
				if seen[k] {
					err = pbt.Errf("%s visits %v twice", what, k)
					return false
				}
				seen[k] = true
				was, there := start[k]
				now, in := model[k]
				if !(there && was == v) && !(in && now == v) && !touched[k] {
					err = pbt.Errf("%s reports %v for %v, which is %v (%v)", what, v, k, now, in)
					return false
				}
				n++
				if n <= len(o.Body) {
					b := o.Body[n-1]
					if b.Op == "range" {
						b.Body = nil
					}
					touched[key(b.K)] = true
					if e := do(what, b, depth+1); e != nil {
						err = e
						return false
					}
				}
				return n != o.Stop
			})
			if err != nil {
				return err
			}
			if n != o.Stop || n == 0 {
				for k := range start {
					if !seen[k] && !touched[k] {
						return pbt.Errf("%s misses %v", what, k)
					}
				}
			}
		}
		return nil
	}
	for n, o := range p.Ops {
		if err := do(fmt.Sprintf("op %d", n), o, 0); err != nil {
			return err
		}
	}
	for i := 0; i < p.Keys; i++ {
		if err := do("at the end", mop{Op: "load", K: i}, 0); err != nil {
			return err
		}
	}
	if err := do("at the end", mop{Op: "range"}, 0); err != nil {
		return err
	}
	if dels > 0 && ranges > 1 && compares > 0 {
		c.NonTrivial()
	}
	return nil
}
