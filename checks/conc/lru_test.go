package conc

import (
	"fmt"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/miniLCT/gosb/library/cachex"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

type lruOp struct {
	Op   string
	Keys []int
	Dead bool // set with a time to live that is over
}

type lruPlan struct {
	Cap, MaxUsed int
	Wide         int // each key stands for so many, which are set and read in one batch
	Prep         []lruOp
	Workers      [][]lruOp
	Sched        sched
}

// lruState lists the entries from most to least recently set or hit.
type lruEnt struct {
	K, V, Used int
	Dead       bool
}

type lruState struct {
	n int
	l [4]lruEnt
}

func (s lruState) find(k int) int {
	for i := 0; i < s.n; i++ {
		if s.l[i].K == k {
			return i
		}
	}
	return -1
}

func (s *lruState) del(i int) lruEnt {
	e := s.l[i]
	copy(s.l[i:], s.l[i+1:])
	s.n--
	s.l[s.n] = lruEnt{}
	return e
}

func (s *lruState) front(e lruEnt) {
	copy(s.l[1:], s.l[:])
	s.l[0] = e
	s.n++
}

func (s *lruState) get(k, maxUsed int) (int, bool) {
	i := s.find(k)
	if i < 0 {
		return 0, false
	}
	e := s.del(i)
	if e.Dead || maxUsed > 0 && e.Used >= maxUsed {
		return 0, false
	}
	if maxUsed > 0 {
		e.Used++
	}
	s.front(e)
	return e.V, true
}

func (s *lruState) set(k, v, cap int, dead bool) {
	if i := s.find(k); i >= 0 {
		s.del(i)
	}
	s.front(lruEnt{k, v, 0, dead})
	for s.n > cap {
		s.del(s.n - 1)
	}
}

type lruIn struct {
	lruOp
	Vals []int
}

type lruOut struct {
	Vals []int
	OKs  []bool
}

func lruModel(cap, maxUsed int) porcupine.Model {
	m := porcupine.NondeterministicModel{
		Init: func() []any { return []any{lruState{}} },
		Step: func(state, in, out any) []any {
			s, i, o := state.(lruState), in.(lruIn), out.(lruOut)
			switch i.Op {
			case "get", "mget":
				for n, k := range i.Keys {
					v, ok := s.get(k, maxUsed)
					if v != o.Vals[n] || ok != o.OKs[n] {
						return nil
					}
				}
				return []any{s}
			case "delete":
				for _, k := range i.Keys {
					if at := s.find(k); at >= 0 {
						s.del(at)
					}
				}
				return []any{s}
			}
			// set and mset: a batch is applied in some order
			var res []any
			seen := map[lruState]bool{}
			var perm func(s lruState, left []int)
			perm = func(s lruState, left []int) {
				if len(left) == 0 {
					if !seen[s] {
						seen[s] = true
						res = append(res, s)
					}
					return
				}
				for x := range left {
					t := s
					t.set(i.Keys[left[x]], i.Vals[left[x]], cap, i.Dead)
					rest := append(append([]int{}, left[:x]...), left[x+1:]...)
					perm(t, rest)
				}
			}
			var all []int
			for n := range i.Keys {
				all = append(all, n)
			}
			perm(s, all)
			return res
		},
		Equal:             func(a, b any) bool { return a == b },
		DescribeOperation: func(in, out any) string { return fmt.Sprintf("%+v -> %+v", in, out) },
	}
	return m.ToModel()
}

func genLRUOp(t *rapid.T) lruOp {
	o := lruOp{Op: rapid.SampledFrom([]string{"get", "get", "get", "mget", "mget", "set", "set", "set", "mset", "delete"}).Draw(t, "op")}
	n := 1
	switch o.Op {
	case "mget", "delete":
		n = rapid.IntRange(1, 3).Draw(t, "n")
	case "mset":
		n = rapid.IntRange(2, 3).Draw(t, "n")
	}
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		k := rapid.IntRange(0, 3).Draw(t, "k")
		if o.Op == "mset" && used[k] {
			continue
		}
		used[k] = true
		o.Keys = append(o.Keys, k)
	}
	if o.Op == "set" || o.Op == "mset" {
		o.Dead = rapid.IntRange(0, 5).Draw(t, "dead") == 0
	}
	return o
}

func genLRU(t *rapid.T) lruPlan {
	p := lruPlan{Cap: rapid.IntRange(1, 3).Draw(t, "cap"), MaxUsed: rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "maxused")}
	p.Prep = rapid.SliceOfN(rapid.Custom(genLRUOp), 0, 4).Draw(t, "prep")
	n, most := rapid.IntRange(2, 4).Draw(t, "workers"), 5
	if rapid.IntRange(0, 19).Draw(t, "wide") == 19 {
		p.Cap, p.MaxUsed, p.Wide = 4, 0, rapid.IntRange(20, 110).Draw(t, "width")
		most = 3
	}
	for i := 0; i < n; i++ {
		p.Workers = append(p.Workers, rapid.SliceOfN(rapid.Custom(genLRUOp), 1, most).Draw(t, "ops"))
	}
	p.Sched = genSched(t, n, 60)
	return p
}

func runLRU(t *testing.T, c *pbt.Ctx, p lruPlan) error {
	wide := max(p.Wide, 1)
	c.LabelIf(p.Wide > 0, "wide")
	cache := cachex.NewLRUCacheV2[int, int](p.Cap*wide, p.MaxUsed)
	// group lists what the keys stand for.
	group := func(keys []int) (out []int) {
		for _, k := range keys {
			for i := 0; i < wide; i++ {
				out = append(out, k*wide+i)
			}
		}
		return
	}
	var h, vals history
	do := func(client int, o lruOp) error {
		point()
		ttl := time.Hour
		if o.Dead {
			ttl = -time.Hour
		}
		in := lruIn{lruOp: o}
		var out lruOut
		var err error
		op, all := o.Op, group(o.Keys)
		if wide > 1 && (op == "get" || op == "set") {
			op = "m" + op
		}
		if wide > 1 {
			in.Op = op
		}
		call := h.now()
		switch op {
		case "get":
			v, ok, e := cache.Get(ctx, o.Keys[0])
			out, err = lruOut{[]int{v}, []bool{ok}}, e
		case "mget":
			vs, oks, e := cache.MGet(ctx, all...)
			err = e
			if len(vs) != len(all) || len(oks) != len(all) {
				return pbt.Errf("MGet of %d keys: %d values, %d flags", len(all), len(vs), len(oks))
			}
			for i := range all {
				if i%wide == 0 {
					out.Vals, out.OKs = append(out.Vals, vs[i]), append(out.OKs, oks[i])
				}
				if first := i / wide * wide; vs[i] != vs[first] || oks[i] != oks[first] {
					return pbt.Errf("MGet of %d keys: %d %v for key %d but %d %v for key %d, which are always set and deleted together", len(all), vs[i], oks[i], all[i], vs[first], oks[first], all[first])
				}
			}
		case "set":
			in.Vals = []int{int(vals.now())}
			err = cache.Set(ctx, o.Keys[0], in.Vals[0], ttl)
		case "mset":
			kvs := map[int]int{}
			for _, k := range o.Keys {
				v := int(vals.now())
				for _, x := range group([]int{k}) {
					kvs[x] = v
				}
				in.Vals = append(in.Vals, v)
			}
			err = cache.MSet(ctx, kvs, ttl)
		case "delete":
			err = cache.Delete(ctx, all...)
		}
		if err != nil {
			return pbt.Errf("%+v: %v", o, err)
		}
		h.add(client, in, call, out)
		return nil
	}
	err := runWorkers(t, p.Sched, len(p.Workers), func() error {
		for _, o := range p.Prep {
			if err := do(1000, o); err != nil {
				return err
			}
		}
		return nil
	}, func(w int) error {
		for _, o := range p.Workers[w] {
			if err := do(w, o); err != nil {
				return err
			}
		}
		return nil
	}, func() error {
		held := 0
		for k := 0; k < 4; k++ {
			if err := do(1001, lruOp{Op: "get", Keys: []int{k}}); err != nil {
				return err
			}
			if h.ops[len(h.ops)-1].Output.(lruOut).OKs[0] {
				held++
			}
		}
		if held > p.Cap {
			return pbt.Errf("the cache of capacity %d holds %d entries", p.Cap, held)
		}
		return nil
	})
	m := lruModel(p.Cap, p.MaxUsed)
	if err != nil {
		return pbt.Errf("%v\n%s", err, h.describe(m.DescribeOperation))
	}
	writes := false
	for _, ops := range p.Workers {
		for _, o := range ops {
			writes = writes || o.Op == "set" || o.Op == "mset"
		}
	}
	if writes && h.overlaps() {
		c.NonTrivial()
	}
	return h.linearizable(c, m)
}

const lruRule = "2..4 workers with 1..5 calls each (get, batch get with repeats, set, batch set, delete; live and already dead entries) on one cache of capacity 1..3 and use limit 0..2 over 4 keys, after up to 4 sequential calls; in one case of 20 each key stands for 20..110 keys that are set, read and deleted together, without eviction; the history must be linearizable against the cache model with batches atomic (a batch set in any order of its entries); non-trivial: a set and overlapping calls"

func TestC23_Sched(t *testing.T) {
	only(t, true)
	pbt.Check(t, pbt.Prop[lruPlan]{
		Rule: lruRule + "; every statement a scheduling point", Cases: 6000, Gen: genLRU,
		Run: func(c *pbt.Ctx, p lruPlan) error { return runLRU(t, c, p) },
	})
}

func TestC23_Race(t *testing.T) {
	only(t, false)
	pbt.Check(t, pbt.Prop[lruPlan]{
		Rule: lruRule + "; real threads under the race detector", Cases: 4000, NoShrink: true, Repeats: 2000, Gen: genLRU,
		Run: func(c *pbt.Ctx, p lruPlan) error { return runLRU(t, c, p) },
	})
}
