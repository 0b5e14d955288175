package conc

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// Keys below chStable are only read by the workers, the others also written.
const (
	chStable = 3
	chKeys   = 6
)

type chLevel struct {
	Cap, MaxUsed int
	Brief        bool // its entries are over at once
	Chain        bool // a chain of its own around the cache
}

type chPlan struct {
	Levels  []chLevel // above the last one, which keeps everything
	Wide    int       // batches also have so many keys, of which every other is only read
	Prep    []lruOp
	Workers [][]lruOp
	Sched   sched
}

func genChOp(prep bool) func(t *rapid.T) lruOp {
	return func(t *rapid.T) lruOp {
		o := lruOp{Op: rapid.SampledFrom([]string{"get", "get", "get", "mget", "mget", "mget", "set", "mset", "delete"}).Draw(t, "op")}
		n, from := 1, 0
		switch o.Op {
		case "mget", "mset", "delete":
			n = rapid.IntRange(1, 4).Draw(t, "n")
		}
		if o.Op != "get" && o.Op != "mget" && !prep {
			from = chStable
		}
		for i := 0; i < n; i++ {
			o.Keys = append(o.Keys, rapid.IntRange(from, chKeys-1).Draw(t, "k"))
		}
		return o
	}
}

func genCh(t *rapid.T) chPlan {
	p := chPlan{}
	for i := rapid.IntRange(1, 3).Draw(t, "levels"); i > 0; i-- {
		p.Levels = append(p.Levels, chLevel{Cap: rapid.SampledFrom([]int{1, 1, 2, 3, 10, 100}).Draw(t, "cap"), MaxUsed: rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "used"),
			Brief: rapid.IntRange(0, 3).Draw(t, "brief") == 0, Chain: rapid.IntRange(0, 4).Draw(t, "chain") == 0})
	}
	p.Prep = rapid.SliceOfN(rapid.Custom(genChOp(true)), 0, 6).Draw(t, "prep")
	n, most := rapid.IntRange(2, 4).Draw(t, "workers"), 5
	if rapid.IntRange(0, 19).Draw(t, "wide") == 19 {
		p.Wide, most = rapid.IntRange(20, 110).Draw(t, "width"), 3
	}
	for i := 0; i < n; i++ {
		p.Workers = append(p.Workers, rapid.SliceOfN(rapid.Custom(genChOp(false)), 1, most).Draw(t, "ops"))
	}
	p.Sched = genSched(t, n, 120)
	return p
}

func onlyRead(k int) bool { return k < chStable || k >= chKeys && k%2 == 0 }

func runCh(t *testing.T, c *pbt.Ctx, p chPlan) error {
	chain := &cachex.Chain[int, int]{}
	for _, l := range p.Levels {
		ttl := time.Hour
		if l.Brief {
			ttl = 1
		}
		var level cachex.Cache[int, int] = cachex.NewLRUCacheV2[int, int](l.Cap, l.MaxUsed)
		if l.Chain {
			level = &cachex.Chain[int, int]{Caches: []*cachex.ChainItem[int, int]{{Cache: &cachex.NoCache[int, int]{}, TTL: time.Hour}, {Cache: level, TTL: ttl}}}
		}
		chain.Caches = append(chain.Caches, &cachex.ChainItem[int, int]{Cache: level, TTL: ttl})
	}
	last := cachex.NewLRUCacheV2[int, int](200, 0)
	chain.Caches = append(chain.Caches, &cachex.ChainItem[int, int]{Cache: last, TTL: 1000 * time.Hour})
	// the values are those of the key times a million and counted up
	var vals history
	var mu sync.Mutex
	begun := map[int]bool{} // values whose set has begun
	stable := map[int]int{} // what the prefix left in the stable keys
	hit, miss := false, false
	fresh := func(k int) int {
		v := k*1_000_000 + int(vals.now())
		mu.Lock()
		begun[v] = true
		mu.Unlock()
		return v
	}
	var h history
	do := func(client int, o lruOp) error {
		point()
		call := h.now()
		what := fmt.Sprintf("worker %d %s %v", client, o.Op, o.Keys)
		if p.Wide > 0 && (o.Op == "mget" || o.Op == "mset" || o.Op == "delete") {
			what += fmt.Sprintf(" and %d more", p.Wide)
			o.Keys = append([]int{}, o.Keys...)
			for i := 0; i < p.Wide; i++ {
				if k := chKeys + i; o.Op == "mget" || client == 1000 || !onlyRead(k) {
					o.Keys = append(o.Keys, k)
				}
			}
		}
		switch o.Op {
		case "get", "mget":
			var vs []int
			var oks []bool
			var err error
			if o.Op == "get" {
				var v int
				var ok bool
				v, ok, err = chain.Get(ctx, o.Keys[0])
				vs, oks = []int{v}, []bool{ok}
			} else {
				vs, oks, err = chain.MGet(ctx, o.Keys...)
			}
			if err != nil || len(vs) != len(o.Keys) || len(oks) != len(o.Keys) {
				return pbt.Errf("%s: %v %v %v", what, vs, oks, err)
			}
			mu.Lock()
			defer mu.Unlock()
			for i, k := range o.Keys {
				want, is := stable[k]
				switch {
				case oks[i] && (vs[i]/1_000_000 != k || !begun[vs[i]]):
					return pbt.Errf("%s: %d for key %d, which was never set for it", what, vs[i], k)
				case onlyRead(k) && is && (!oks[i] || vs[i] != want):
					return pbt.Errf("%s: %d %v for key %d, which nobody writes and holds %d", what, vs[i], oks[i], k, want)
				case onlyRead(k) && !is && oks[i]:
					return pbt.Errf("%s: %d for key %d, which nobody set", what, vs[i], k)
				}
				hit, miss = hit || oks[i], miss || !oks[i]
			}
		case "set":
			v := fresh(o.Keys[0])
			if err := chain.Set(ctx, o.Keys[0], v, time.Hour); err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
			if client == 1000 && onlyRead(o.Keys[0]) {
				stable[o.Keys[0]] = v
			}
		case "mset":
			kvs := map[int]int{}
			for _, k := range o.Keys {
				kvs[k] = fresh(k)
			}
			if err := chain.MSet(ctx, kvs, time.Hour); err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
			for k, v := range kvs {
				if client == 1000 && onlyRead(k) {
					stable[k] = v
				}
			}
		case "delete":
			if err := chain.Delete(ctx, o.Keys...); err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
			for _, k := range o.Keys {
				if client == 1000 && onlyRead(k) {
					delete(stable, k)
				}
			}
		}
		h.add(client, o, call, nil)
		return nil
	}
	all := lruOp{Op: "mget"}
	for k := 0; k < chKeys; k++ {
		all.Keys = append(all.Keys, k)
	}
	err := runWorkers(t, p.Sched, len(p.Workers), func() error {
		for k := 0; k < chStable; k++ {
			if err := do(1000, lruOp{Op: "set", Keys: []int{k}}); err != nil {
				return err
			}
		}
		for _, o := range p.Prep {
			if err := do(1000, o); err != nil {
				return err
			}
		}
		return nil
	}, func(w int) error {
		for _, o := range p.Workers[w] {
			if err := do(w, o); err != nil {
				return err
			}
		}
		return nil
	}, func() error {
		if err := do(1001, all); err != nil {
			return err
		}
		for k := 0; k < chKeys; k++ {
			if err := do(1001, lruOp{Op: "get", Keys: []int{k}}); err != nil {
				return err
			}
		}
		return nil
	})
	if err != nil {
		return pbt.Errf("%v\n%s", err, h.describe(func(in, out any) string { return fmt.Sprintf("%+v", in) }))
	}
	if hit && miss && h.overlaps() {
		c.NonTrivial()
	}
	return nil
}

const chRule = "2..4 workers with 1..5 calls each (get, batch get with repeats, set, batch set, delete) on one chain of 1..3 small LRU levels (also wrapped in chains, with use limits and entries that are over at once) above one that keeps everything, 6 keys of which 3 are only read, and in one case of 20 up to 110 more keys in each batch; every answer is a value set for that key, and for the keys only read the one they hold; non-trivial: hits, misses and overlapping calls"

func TestC45_Sched(t *testing.T) {
	only(t, true)
	pbt.Check(t, pbt.Prop[chPlan]{
		Rule: chRule + "; every statement a scheduling point", Cases: 4000, Gen: genCh,
		Run: func(c *pbt.Ctx, p chPlan) error { return runCh(t, c, p) },
	})
}

func TestC45_Race(t *testing.T) {
	only(t, false)
	pbt.Check(t, pbt.Prop[chPlan]{
		Rule: chRule + "; real threads under the race detector", Cases: 4000, NoShrink: true, Repeats: 2000, Gen: genCh,
		Run: func(c *pbt.Ctx, p chPlan) error { return runCh(t, c, p) },
	})
}
