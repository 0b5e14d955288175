package ds

import (
	"fmt"
	"math/bits"
	"slices"
	"testing"

	rbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// Large trees and lists: up to tens of thousands of keys, expanded from a seed.

type largePlan struct {
	N     int
	Seed  uint64
	Kind  int // order of the insertions
	Order int // ordering of the keys
	Del   int // what is deleted
	Segs  int
}

func genLarge(max int) func(t *rapid.T) largePlan {
	return func(t *rapid.T) largePlan {
		return largePlan{N: pbt.Large(t, max, "n"), Seed: rapid.Uint64Range(0, 1<<20).Draw(t, "seed"), Kind: rapid.IntRange(0, 5).Draw(t, "kind"),
			Order: rapid.IntRange(0, 2).Draw(t, "order"), Del: rapid.IntRange(0, 5).Draw(t, "del"), Segs: rapid.IntRange(1, 3).Draw(t, "segs")}
	}
}

const largePrime = 100003

// rank is an ordering of the keys 0..100002.
func (p largePlan) rank(k int) int {
	switch p.Order {
	case 0:
		return k
	case 1:
		return -k
	}
	return (k*4099 + 7) % largePrime
}

// keys is one phase of keys in 0..N-1, nearly all of them, in some order.
func (p largePlan) keys(kind int, seed uint64) []int {
	r := pbt.Rand(seed)
	out := make([]int, p.N)
	for i := range out {
		switch kind {
		case 0, 1: // a permutation
			out[i] = i
		case 2:
			out[i] = i
		case 3:
			out[i] = p.N - 1 - i
		case 4: // from both ends to the middle
			out[i] = i / 2
			if i%2 == 1 {
				out[i] = p.N - 1 - i/2
			}
		default: // with repetitions
			out[i] = r.IntN(p.N)
		}
	}
	if kind < 2 {
		r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	return out
}

// doomed is a phase of deletions.
func (p largePlan) doomed(seed uint64) []int {
	r := pbt.Rand(seed)
	switch p.Del {
	case 0: // about half, at random
		ks := p.keys(0, seed)
		return ks[:len(ks)/2]
	case 1: // all but a few
		ks := p.keys(0, seed)
		return ks[:max(1, len(ks)-r.IntN(20))]
	case 2: // a stretch, ascending
		ks := p.keys(2, seed)
		i := r.IntN(len(ks))
		return ks[i : i+r.IntN(len(ks)-i)+1]
	case 3: // a stretch, descending
		ks := p.keys(3, seed)
		i := r.IntN(len(ks))
		return ks[i : i+r.IntN(len(ks)-i)+1]
	case 4: // every other key
		var ks []int
		for k := 0; k < p.N; k += 2 {
			ks = append(ks, k)
		}
		return ks
	}
	return []int{r.IntN(p.N), p.N / 2, 0, p.N - 1, p.N + 5}
}

func (p largePlan) note(c *pbt.Ctx) {
	if p.N > 1000 {
		c.NonTrivial()
		c.Label("above 1000 keys")
	}
	c.LabelIf(p.N > 10000, "above 10000 keys")
	c.Label(fmt.Sprintf("order %d", p.Order))
}

func sortedKeys(m map[int]int, rank func(int) int) []int {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	slices.SortFunc(ks, func(a, b int) int { return rank(a) - rank(b) })
	return ks
}

func TestC08_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[largePlan]{
		Rule: "trees of 33..20000 keys under three orderings, filled in six orders, phases of deletions, updates and repeated insertions, and after each the sub-trees cut at random keys, which are then changed themselves; everything compared with sorted maps after each phase; " +
			"non-trivial: more than 1000 keys",
		Cases: 12,
		Gen:   genLarge(20000),
		Run: func(c *pbt.Ctx, p largePlan) error {
			p.note(c)
			type tree struct {
				t *rbt.RbTree[int, int]
				m map[int]int
			}
			gen := 0
			check := func(what string, x tree) error {
				ks := sortedKeys(x.m, p.rank)
				gk, gv, gn := x.t.Keys(), x.t.Values(), x.t.Nodes()
				if x.t.Len() != len(ks) || x.t.Empty() != (len(ks) == 0) || len(gk) != len(ks) || len(gv) != len(ks) || len(gn) != len(ks) {
					return pbt.Errf("%s: Len %d, %d keys, %d values, %d nodes, want %d", what, x.t.Len(), len(gk), len(gv), len(gn), len(ks))
				}
				for i, k := range ks {
					nk, nv := gn[i].Unpack()
					if v := x.m[k]; gk[i] != k || nk != k || gv[i] != v || nv != v {
						return pbt.Errf("%s: entry %d is key %v value %v node (%v,%v), want (%v,%v)", what, i, gk[i], gv[i], nk, nv, k, v)
					}
				}
				var want []int
				pred := func(k int) bool { return k%5 == 2 }
				for _, k := range ks {
					if pred(k) {
						want = append(want, x.m[k])
					}
				}
				if got := x.t.GetIf(pred); !slices.Equal(got, want) {
					return pbt.Errf("%s: GetIf gives %d values, want %d, or others", what, len(got), len(want))
				}
				for k := -1; k <= p.N; k++ {
					if k < 0 && p.Order == 2 {
						continue
					}
					v, in := x.m[k]
					if x.t.Search(k) != in || x.t.Get(k) != v {
						return pbt.Errf("%s: Search(%d) %v Get %d, want %v %d", what, k, x.t.Search(k), x.t.Get(k), in, v)
					}
				}
				return nil
			}
			insert := func(x tree, k int) error {
				gen++
				if got := x.t.Insert(k, gen); got != x.m[k] {
					return pbt.Errf("Insert(%d) into %d returned %d, want %d", k, len(x.m), got, x.m[k])
				}
				x.m[k] = gen
				return nil
			}
			del := func(x tree, k int) error {
				if got := x.t.Delete(k); got != x.m[k] {
					return pbt.Errf("Delete(%d) from %d returned %d, want %d", k, len(x.m), got, x.m[k])
				}
				delete(x.m, k)
				return nil
			}
			less := func(a, b int) bool { return p.rank(a) < p.rank(b) }
			x := tree{rbt.New[int, int](less), map[int]int{}}
			r := pbt.Rand(p.Seed)
			for seg := 0; seg < p.Segs; seg++ {
				for _, k := range p.keys((p.Kind+seg)%6, p.Seed+uint64(seg)) {
					if err := insert(x, k); err != nil {
						return err
					}
				}
				if err := check("filled", x); err != nil {
					return err
				}
				for _, k := range p.doomed(p.Seed + 10 + uint64(seg)) {
					if err := del(x, k); err != nil {
						return err
					}
				}
				for i := 0; i < 200; i++ {
					gen++
					k := r.IntN(p.N + 2)
					old, in := x.m[k]
					if got, ok := x.t.Update(k, gen); ok != in || got != old {
						return pbt.Errf("Update(%d) in %d = %d, %v, want %d, %v", k, len(x.m), got, ok, old, in)
					}
					if in {
						x.m[k] = gen
					}
				}
				if err := check("thinned", x); err != nil {
					return err
				}
				a, b := r.IntN(p.N), r.IntN(p.N)
				if p.rank(b) < p.rank(a) {
					a, b = b, a
				}
				fi, ti := r.IntN(2) == 0, r.IntN(2) == 0
				if a == b {
					ti = fi
				}
				var y tree
				lo, hi := p.rank(a), p.rank(b)
				keep := func(q int) bool { return q > lo && q < hi || q == lo && fi || q == hi && ti }
				switch cut := r.IntN(4); cut {
				case 0:
					y.t = x.t.LeftSubTree(a, fi)
					keep = func(q int) bool { return q < lo || q == lo && fi }
				case 1:
					y.t = x.t.RightSubTree(a, fi)
					keep = func(q int) bool { return q > lo || q == lo && fi }
				default:
					y.t = x.t.SubTree(a, fi, b, ti)
				}
				y.m = map[int]int{}
				for k, v := range x.m {
					if keep(p.rank(k)) {
						y.m[k] = v
					}
				}
				if err := check(fmt.Sprintf("the sub-tree at %d, %d (%v, %v)", a, b, fi, ti), y); err != nil {
					return err
				}
				for i := 0; i < 300; i++ {
					k := r.IntN(p.N)
					if f := []func(tree, int) error{insert, del}[r.IntN(2)]; true {
						if err := f(y, k); err != nil {
							return pbt.Errf("in a sub-tree: %v", err)
						}
					}
				}
				if err := check("a changed sub-tree", y); err != nil {
					return err
				}
				if err := check("the tree of a changed sub-tree", x); err != nil {
					return err
				}
				if r.IntN(3) == 0 {
					x = y
				}
			}
			x.t.Clear()
			clear(x.m)
			return check("cleared", x)
		},
	})
}

func TestC09_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[largePlan]{
		Rule:  "histories over 33..20000 keys: filled in six orders, thinned in six ways, cut, and filled again; the cost of each operation counted, the tree rebuilt and checked after each phase; non-trivial: more than 1000 keys",
		Cases: 8,
		Gen:   genLarge(20000),
		Run: func(c *pbt.Ctx, p largePlan) error {
			p.note(c)
			w := newWatched(p.rank)
			r := pbt.Rand(p.Seed)
			step := func(what string, k int, f func()) error {
				size, before := len(w.m), w.calls
				f()
				if err := w.cost(fmt.Sprint(what, " ", k), size, w.calls-before); err != nil {
					return err
				}
				before = w.calls
				w.t.Search(k)
				return w.cost(fmt.Sprint("search ", k), size, w.calls-before)
			}
			for seg := 0; seg < p.Segs; seg++ {
				for _, k := range p.keys((p.Kind+seg)%6, p.Seed+uint64(seg)) {
					if err := step("insert", k, func() { w.t.Insert(k, k); w.m[k] = true }); err != nil {
						return err
					}
				}
				if err := w.verify("filled"); err != nil {
					return err
				}
				for _, k := range p.doomed(p.Seed + 10 + uint64(seg)) {
					if err := step("delete", k, func() { w.t.Delete(k); delete(w.m, k) }); err != nil {
						return err
					}
				}
				if err := w.verify("thinned"); err != nil {
					return err
				}
				if r.IntN(2) == 0 {
					k, left, incl := r.IntN(p.N), r.IntN(2) == 0, r.IntN(2) == 0
					if left {
						w.t = w.t.LeftSubTree(k, incl)
					} else {
						w.t = w.t.RightSubTree(k, incl)
					}
					for q := range w.m {
						if !(q == k && incl) && (q == k || (p.rank(q) < p.rank(k)) != left) {
							delete(w.m, q)
						}
					}
					if err := w.verify("cut"); err != nil {
						return err
					}
				}
			}
			return nil
		},
	})
}

func TestC07_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[largePlan]{
		Rule:  "lists of 33..20000 keys with geometric, mixed or tall levels, filled in six orders, thinned in six ways, changed and filled again; every lookup, greater-or-equal search and both traversals compared with a sorted map after each phase; non-trivial: more than 1000 keys",
		Cases: 16,
		Gen:   genLarge(20000),
		Run: func(c *pbt.Ctx, p largePlan) error {
			p.note(c)
			r := pbt.Rand(p.Seed)
			words := make([]uint64, 3*p.N)
			for i := range words {
				switch p.Order {
				case 0:
					words[i] = r.Uint64()
				case 1:
					words[i] = 1 << r.IntN(8)
				default:
					words[i] = r.Uint64()
					if r.IntN(50) == 0 {
						words[i] = 0
					}
				}
			}
			defer script(words)()
			l := gskiplist.New[int, int]()
			m := map[int]int{}
			gen := 0
			check := func(what string) error {
				ks := sortedKeys(m, func(k int) int { return k })
				if l.GetNodeCount() != len(ks) || l.IsEmpty() != (len(ks) == 0) {
					return pbt.Errf("%s: count %d empty %v, want %d keys", what, l.GetNodeCount(), l.IsEmpty(), len(ks))
				}
				for k := -2; k <= 2*p.N+1; k++ { // even keys only
					want, in := m[k]
					if got, ok := l.Find(k); ok != in || got != want {
						return pbt.Errf("%s: Find(%d) among %d = %d %v, want %d %v", what, k, len(ks), got, ok, want, in)
					}
					at, _ := slices.BinarySearch(ks, k)
					e, ok := l.FindGreaterOrEqual(k)
					if ok != (at < len(ks)) || (e == nil) == ok || ok && e.GetValue() != m[ks[at]] {
						return pbt.Errf("%s: FindGreaterOrEqual(%d) among %d is wrong (found %v)", what, k, len(ks), ok)
					}
				}
				if len(ks) == 0 {
					if l.GetSmallestNode() != nil || l.GetLargestNode() != nil {
						return pbt.Errf("%s: an empty list has a smallest or largest node", what)
					}
					return nil
				}
				e := l.GetSmallestNode()
				for i := 0; i < len(ks)+2; i++ {
					if w := m[ks[i%len(ks)]]; e.GetValue() != w {
						return pbt.Errf("%s: step %d of %d forwards is %d, want %d", what, i, len(ks), e.GetValue(), w)
					}
					e = l.Next(e)
				}
				e = l.GetLargestNode()
				for i := 0; i < len(ks)+2; i++ {
					if w := m[ks[(2*len(ks)-1-i%len(ks))%len(ks)]]; e.GetValue() != w {
						return pbt.Errf("%s: step %d of %d backwards is %d, want %d", what, i, len(ks), e.GetValue(), w)
					}
					e = l.Prev(e)
				}
				return nil
			}
			for seg := 0; seg < p.Segs; seg++ {
				for _, k := range p.keys((p.Kind+seg)%6, p.Seed+uint64(seg)) {
					gen++
					l.Insert(2*k, gen)
					m[2*k] = gen
				}
				if err := check("filled"); err != nil {
					return err
				}
				for _, k := range p.doomed(p.Seed + 10 + uint64(seg)) {
					l.Delete(2 * k)
					delete(m, 2*k)
				}
				for i := 0; i < 200; i++ {
					gen++
					k := r.IntN(2*p.N + 2)
					_, in := m[k]
					if ok := l.ChangeValue(k, gen); ok != in {
						return pbt.Errf("ChangeValue(%d) among %d = %v", k, len(m), ok)
					}
					if in {
						m[k] = gen
					}
				}
				if err := check("thinned"); err != nil {
					return err
				}
			}
			c.Label(fmt.Sprintf("2^%d keys", bits.Len(uint(len(m)))))
			return nil
		},
	})
}
