package conc

import (
	"testing"

	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

type seqLarge struct {
	N, Ops int
	Seed   uint64
	Phases []int // mixes of operations
}

// A map of thousands of keys used sequentially: promotions of the dirty map,
// expunged entries and iterations at sizes the operation sequences do not reach.
func TestC01_Large(t *testing.T) {
	only(t, false)
	pbt.Check(t, pbt.Prop[seqLarge]{
		Rule:  "a map of 33..20000 keys, half of them there at first, through 2..6 phases of up to 30000 calls, each phase with its own mix (filling, mostly reading, deleting, compare-and-act, refilling, sweeps that delete or store most keys), a complete iteration after most; every result compared with a plain map; non-trivial: more than 1000 keys",
		Cases: 25,
		Gen: func(t *rapid.T) seqLarge {
			p := seqLarge{N: pbt.Large(t, 20000, "n"), Seed: rapid.Uint64Range(0, 1<<20).Draw(t, "seed")}
			p.Ops = min(30000, p.N*rapid.IntRange(1, 3).Draw(t, "ops"))
			p.Phases = rapid.SliceOfN(rapid.IntRange(0, 6), 2, 6).Draw(t, "phases")
			return p
		},
		Run: func(c *pbt.Ctx, p seqLarge) error {
			if p.N > 1000 {
				c.NonTrivial()
			}
			var m gsync.Map[int, int]
			model := map[int]int{}
			r := pbt.Rand(p.Seed)
			mixes := [][]string{
				{"store"},
				{"load", "load", "load", "load", "load", "load", "store", "los"},
				{"delete", "lad", "lad", "load", "los"},
				{"cas", "cad", "swap", "load", "store"},
				{"los", "swap", "store", "load", "delete"},
				{"delete", "delete", "delete", "lad", "cad", "load"},
				{"store", "store", "los", "swap", "cas"},
			}
			for n, ph := range append([]int{0}, p.Phases...) {
				mix, sweep, off := mixes[ph%len(mixes)], n == 0 || ph >= 5, r.IntN(p.N)
				for i := range p.Ops {
					k := r.IntN(p.N)
					if n == 0 {
						k = i % (p.N/2 + 1)
					} else if sweep {
						k = (i + off) % p.N
					}
					cur, in := model[k]
					v := 1 + r.IntN(5)
					if r.IntN(3) == 0 {
						v = i + 10
					}
					fail := func(op string, got, ok any) error {
						return pbt.Errf("phase %d, call %d: %s(%d) = %v %v with %d %v there, %d keys in all", n, i, op, k, got, ok, cur, in, len(model))
					}
					switch op := mix[r.IntN(len(mix))]; op {
					case "store":
						m.Store(k, v)
						model[k] = v
					case "load":
						if g, ok := m.Load(k); g != cur || ok != in {
							return fail(op, g, ok)
						}
					case "los":
						want := cur
						if !in {
							want = v
							model[k] = v
						}
						if g, ok := m.LoadOrStore(k, v); g != want || ok != in {
							return fail(op, g, ok)
						}
					case "lad":
						if g, ok := m.LoadAndDelete(k); g != cur || ok != in {
							return fail(op, g, ok)
						}
						delete(model, k)
					case "delete":
						m.Delete(k)
						delete(model, k)
					case "swap":
						if g, ok := m.Swap(k, v); g != cur || ok != in {
							return fail(op, g, ok)
						}
						model[k] = v
					case "cas":
						old := cur
						if r.IntN(3) == 0 {
							old = r.IntN(6)
						}
						match := in && old == cur
						if g := m.CompareAndSwap(k, old, v); g != match {
							return fail(op, g, old)
						}
						if match {
							model[k] = v
						}
					case "cad":
						old := cur
						if r.IntN(3) == 0 {
							old = r.IntN(6)
						}
						match := in && old == cur
						if g := m.CompareAndDelete(k, old); g != match {
							return fail(op, g, old)
						}
						if match {
							delete(model, k)
						}
					}
				}
				if r.IntN(4) == 0 {
					continue // the promotion is left to the misses
				}
				seen := map[int]bool{}
				var bad error
				m.Range(func(k, v int) bool {
					w, in := model[k]
					if !in || v != w || seen[k] {
						bad = pbt.Errf("phase %d: Range reports %d for %d, which is %d (%v), seen before: %v", n, v, k, w, in, seen[k])
						return false
					}
					seen[k] = true
					return true
				})
				if bad != nil {
					return bad
				}
				if len(seen) != len(model) {
					return pbt.Errf("phase %d: Range visits %d of %d keys", n, len(seen), len(model))
				}
				visits, stop := 0, 1+r.IntN(p.N)
				m.Range(func(k, v int) bool {
					visits++
					if r.IntN(4) == 0 {
						m.Delete(k)
						delete(model, k)
					}
					return visits < stop
				})
				if w := min(stop, len(seen)); visits != w {
					return pbt.Errf("phase %d: Range over %d keys told to stop after %d makes %d visits", n, len(seen), stop, visits)
				}
			}
			for k := range p.N {
				w, in := model[k]
				if g, ok := m.Load(k); g != w || ok != in {
					return pbt.Errf("at the end: Load(%d) = %d %v, want %d %v", k, g, ok, w, in)
				}
			}
			return nil
		},
	})
}
