package cachex

import (
	"container/list"
	"slices"
	"testing"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// Large caches and batches: thousands of keys expanded from a seed.

type lruLarge struct {
	Cap, MaxUsed, Range int
	Seed                uint64
	Ops                 int
}

func TestC22_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[lruLarge]{
		Rule: "capacity 33..10000, use limit 0..3, up to 30000 single gets, sets and deletes over up to three times as many keys, some with a time to live of an hour, two hours passing, then batches of the whole capacity written and read in another order; every answer and the final content compared with a linked-list model under virtual time; " +
			"non-trivial: capacity above 1000",
		Cases: 20,
		Gen: func(t *rapid.T) lruLarge {
			p := lruLarge{Cap: pbt.Large(t, 10000, "cap"), MaxUsed: rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "mu"), Seed: rapid.Uint64Range(0, 1<<20).Draw(t, "seed")}
			p.Range = p.Cap*rapid.IntRange(1, 12).Draw(t, "range")/4 + 1
			p.Ops = min(30000, p.Cap*rapid.IntRange(1, 8).Draw(t, "ops"))
			return p
		},
		Run: func(c *pbt.Ctx, p lruLarge) error {
			return pbt.Bubble(t, func() error {
				if p.Cap > 1000 {
					c.NonTrivial()
				}
				type ent struct {
					k, v, used int
					exp        time.Time
				}
				r := pbt.Rand(p.Seed)
				cache := cachex.NewLRUCacheV2[int, int](p.Cap, p.MaxUsed)
				order := list.New() // front: most recent
				at := map[int]*list.Element{}
				set := func(k, v int, d time.Duration) {
					if e := at[k]; e != nil {
						order.Remove(e)
					}
					at[k] = order.PushFront(&ent{k, v, 0, time.Now().Add(d)})
					if order.Len() > p.Cap {
						e := order.Back()
						delete(at, e.Value.(*ent).k)
						order.Remove(e)
						c.Label("evicted")
					}
				}
				get := func(k int) (int, bool) {
					e := at[k]
					if e == nil {
						return 0, false
					}
					x := e.Value.(*ent)
					if p.MaxUsed > 0 && x.used >= p.MaxUsed || time.Now().After(x.exp) {
						order.Remove(e)
						delete(at, k)
						return 0, false
					}
					x.used++
					order.MoveToFront(e)
					return x.v, true
				}
				check := func(what string, k int) error {
					wv, wok := get(k)
					if v, ok, err := cache.Get(ctx, k); v != wv || ok != wok || err != nil {
						return pbt.Errf("%s: Get(%d) = %d %v %v, want %d %v", what, k, v, ok, err, wv, wok)
					}
					return nil
				}
				phase := func(what string) error {
					for i := range p.Ops {
						k := r.IntN(p.Range)
						if r.IntN(8) == 0 {
							k = i % p.Range
						}
						switch x := r.IntN(10); {
						case x < 4:
							d := 100 * time.Hour
							if r.IntN(4) == 0 {
								d = time.Hour
							}
							if err := cache.Set(ctx, k, i, d); err != nil {
								return pbt.Errf("Set: %v", err)
							}
							set(k, i, d)
						case x < 9:
							if err := check(what, k); err != nil {
								return err
							}
						default:
							if err := cache.Delete(ctx, k); err != nil {
								return pbt.Errf("Delete: %v", err)
							}
							if e := at[k]; e != nil {
								order.Remove(e)
								delete(at, k)
							}
						}
					}
					return nil
				}
				if err := phase("at first"); err != nil {
					return err
				}
				time.Sleep(2 * time.Hour)
				if err := phase("after two hours"); err != nil {
					return err
				}
				if r.IntN(2) == 0 { // a whole new content in one batch, its recency settled by reads
					m, keys := map[int]int{}, []int{}
					base := r.IntN(p.Range)
					for i := range p.Cap {
						k := base + i
						m[k] = i
						keys = append(keys, k)
					}
					if err := cache.MSet(ctx, m, time.Hour); err != nil {
						return pbt.Errf("MSet: %v", err)
					}
					for _, k := range keys {
						set(k, m[k], time.Hour)
					}
					r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
					keys = append(keys, -1, keys[0])
					vs, oks, err := cache.MGet(ctx, keys...)
					if err != nil || len(vs) != len(keys) || len(oks) != len(keys) {
						return pbt.Errf("MGet of %d keys: %d, %d, %v", len(keys), len(vs), len(oks), err)
					}
					for i, k := range keys {
						if v, ok := get(k); vs[i] != v || oks[i] != ok {
							return pbt.Errf("MGet of %d keys: position %d (key %d) is %d %v, want %d %v", len(keys), i, k, vs[i], oks[i], v, ok)
						}
					}
					if err := phase("after a batch"); err != nil {
						return err
					}
					var gone []int
					for k := range p.Range {
						if r.IntN(2) == 0 {
							gone = append(gone, k)
							if e := at[k]; e != nil {
								order.Remove(e)
								delete(at, k)
							}
						}
					}
					if err := cache.Delete(ctx, gone...); err != nil {
						return pbt.Errf("Delete of %d keys: %v", len(gone), err)
					}
				}
				for k := -1; k <= p.Range+p.Cap; k++ {
					if err := check("at the end", k); err != nil {
						return err
					}
				}
				return nil
			})
		},
	})
}

type chainLarge struct {
	N      int
	Levels []int // one in that many keys is there
	Seed   uint64
	Inner  bool
}

func TestC27_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[chainLarge]{
		Rule:  "1..4 LRU levels with random parts of 33..10000 keys each (any density from all to hardly any), one batch lookup of all of them in random order with repetitions and unknown keys, then the content of every level, a batch write and a batch delete; non-trivial: more than 1000 keys and several levels",
		Cases: 20,
		Gen: func(t *rapid.T) chainLarge {
			return chainLarge{pbt.Large(t, 10000, "n"), rapid.SliceOfN(rapid.SampledFrom([]int{1, 1, 2, 3, 5, 100000}), 1, 4).Draw(t, "levels"), rapid.Uint64Range(0, 1<<20).Draw(t, "seed"), rapid.Bool().Draw(t, "inner")}
		},
		Run: func(c *pbt.Ctx, p chainLarge) error {
			if p.N > 1000 && len(p.Levels) > 1 {
				c.NonTrivial()
			}
			r := pbt.Rand(p.Seed)
			ch := &cachex.Chain[int, int]{}
			var levels []cachex.Cache[int, int]
			model := make([]map[int]int, len(p.Levels))
			for i, d := range p.Levels {
				l := cachex.NewLRUCacheV2[int, int](p.N+10, 0)
				levels = append(levels, l)
				model[i] = map[int]int{}
				ch.Caches = append(ch.Caches, &cachex.ChainItem[int, int]{Cache: l, TTL: 1000 * time.Hour})
				for k := range p.N {
					if r.IntN(d) == 0 {
						model[i][k] = k*10 + i + 1
						_ = l.Set(ctx, k, k*10+i+1, 1000*time.Hour)
					}
				}
			}
			keys := r.Perm(p.N)
			for range p.N / 5 {
				keys = append(keys, r.IntN(p.N))
			}
			keys = append(keys, -1, p.N+1, keys[0])
			if p.Inner {
				r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
			}
			in := slices.Clone(keys)
			vs, oks, err := ch.MGet(ctx, in...)
			if err != nil || len(vs) != len(keys) || len(oks) != len(keys) || !slices.Equal(in, keys) {
				return pbt.Errf("MGet of %d keys: %d, %d, %v, or its arguments changed", len(keys), len(vs), len(oks), err)
			}
			for i, k := range keys {
				want, from := 0, -1
				for l := range model {
					if v, ok := model[l][k]; ok {
						want, from = v, l
						break
					}
				}
				if vs[i] != want || oks[i] != (from >= 0) {
					return pbt.Errf("MGet of %d keys: position %d (key %d) is %d %v, want %d from level %d", len(keys), i, k, vs[i], oks[i], want, from)
				}
				for l := 0; l < from; l++ {
					model[l][k] = want
				}
			}
			content := func(what string) error {
				for l, x := range levels {
					for k := -1; k <= p.N+1; k++ {
						v, ok, err := x.Get(ctx, k)
						if w, wok := model[l][k]; v != w || ok != wok || err != nil {
							return pbt.Errf("%s, level %d: key %d is %d %v %v, want %d %v", what, l, k, v, ok, err, w, wok)
						}
					}
				}
				return nil
			}
			if err := content("after a batch lookup"); err != nil {
				return err
			}
			batch, gone := map[int]int{}, []int{}
			for k := range p.N {
				switch r.IntN(3) {
				case 0:
					batch[k] = -k
					for l := range model {
						model[l][k] = -k
					}
				case 1:
					gone = append(gone, k)
					for l := range model {
						delete(model[l], k)
					}
				}
			}
			if err := ch.MSet(ctx, batch, time.Hour); err != nil {
				return pbt.Errf("MSet: %v", err)
			}
			if err := ch.Delete(ctx, gone...); err != nil {
				return pbt.Errf("Delete: %v", err)
			}
			return content("after a batch write and delete")
		},
	})
}

func TestC28_Large(t *testing.T) {
	type plan struct {
		N, Keys, Stop int
		Seed          uint64
		Source        string
	}
	pbt.Check(t, pbt.Prop[plan]{
		Rule:  "33..10000 requested keys of a few or many with any hit pattern, callbacks stopping anywhere; non-trivial: at least one hit, one miss and a repeated key",
		Cases: 30,
		Gen: func(t *rapid.T) plan {
			n := pbt.Large(t, 10000, "n")
			return plan{n, rapid.SampledFrom([]int{3, 200, 10000, 1 << 28}).Draw(t, "keys"), rapid.IntRange(1, n+1).Draw(t, "stop"), rapid.Uint64Range(0, 1<<20).Draw(t, "seed"), rapid.SampledFrom([]string{"raw", "raw", "lru", "chain"}).Draw(t, "src")}
		},
		Run: func(c *pbt.Ctx, p plan) error {
			r := pbt.Rand(p.Seed)
			in := mgPlan{Source: p.Source, Stop: p.Stop}
			for range p.N {
				in.Keys, in.Hits, in.Vals = append(in.Keys, r.IntN(p.Keys)), append(in.Hits, r.IntN(5) > 0), append(in.Vals, r.IntN(1000))
			}
			return runMG(c, in)
		},
	})
}
