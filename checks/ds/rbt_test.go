package ds

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"testing"

	rbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

type rbOp struct {
	Op     string
	T      int // which tree
	K, K2  int
	Fi, Ti bool
	N      int // for the segment operations of C09
	Step   int
}

type rbPlan struct {
	Order int // 0 natural, 1 reversed, otherwise a multiplicative permutation
	Range int
	Str   bool
	Ops   []rbOp
}

// rank defines the ordering of keys.
func (p rbPlan) rank(k int) int {
	switch p.Order {
	case 0:
		return k
	case 1:
		return -k
	default:
		return (k*p.Order + 7) % 1009 // 1009 is prime and above every key: injective
	}
}

func runRbt[K comparable](c *pbt.Ctx, p rbPlan, key func(int) K, rank func(K) int) error {
	type tree struct {
		t *rbt.RbTree[K, int]
		m map[K]int
	}
	less := func(a, b K) bool { return rank(a) < rank(b) }
	trees := []*tree{{rbt.New[K, int](less), map[K]int{}}}
	gen := 0
	subs, dels := 0, 0
	check := func(what string, x *tree) error {
		ks := make([]K, 0, len(x.m))
		for k := range x.m {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return less(ks[i], ks[j]) })
		if x.t.Len() != len(ks) || x.t.Empty() != (len(ks) == 0) {
			return pbt.Errf("%s: Len %d Empty %v, want %d", what, x.t.Len(), x.t.Empty(), len(ks))
		}
		gk, gv, gn := x.t.Keys(), x.t.Values(), x.t.Nodes()
		if len(gk) != len(ks) || len(gv) != len(ks) || len(gn) != len(ks) {
			return pbt.Errf("%s: %d keys %d values %d nodes, want %d", what, len(gk), len(gv), len(gn), len(ks))
		}
		for i, k := range ks {
			nk, nv := gn[i].Unpack()
			if gk[i] != k || nk != k || gv[i] != x.m[k] || nv != x.m[k] {
				return pbt.Errf("%s: entry %d is key %v value %v node (%v,%v), want (%v,%v)", what, i, gk[i], gv[i], nk, nv, k, x.m[k])
			}
		}
		for i := 0; i < p.Range; i++ {
			k := key(i)
			v, in := x.m[k]
			if x.t.Search(k) != in || x.t.Get(k) != v {
				return pbt.Errf("%s: Search(%v) %v Get %v, want %v %v", what, k, x.t.Search(k), x.t.Get(k), in, v)
			}
		}
		var want []int
		pred := func(k K) bool { return rank(k)%3 == 0 }
		for _, k := range ks {
			if pred(k) {
				want = append(want, x.m[k])
			}
		}
		if got := x.t.GetIf(pred); fmt.Sprint(got) != fmt.Sprint(append([]int{}, want...)) {
			return pbt.Errf("%s: GetIf = %v, want %v", what, got, want)
		}
		return nil
	}
	for n, o := range p.Ops {
		x := trees[o.T%len(trees)]
		k, k2 := key(o.K), key(o.K2)
		gen++
		old, in := x.m[k]
		what := fmt.Sprintf("op %d %s on tree %d (%v, %v, %v, %v)", n, o.Op, o.T%len(trees), k, k2, o.Fi, o.Ti)
		sub := func(t *rbt.RbTree[K, int], keep func(r int) bool) error {
			y := &tree{t, map[K]int{}}
			for kk, v := range x.m {
				if keep(rank(kk)) {
					y.m[kk] = v
				}
			}
			if err := check(what+": result", y); err != nil {
				return err
			}
			if len(y.m) > 1 && len(y.m) < len(x.m) {
				subs++
			}
			if len(trees) < 4 {
				trees = append(trees, y)
			} else {
				trees[1+n%3] = y
			}
			return nil
		}
		switch o.Op {
		case "insert":
			if got := x.t.Insert(k, gen); got != old {
				return pbt.Errf("%s: returned %v, want %v", what, got, old)
			}
			x.m[k] = gen
		case "update":
			got, ok := x.t.Update(k, gen)
			if ok != in || (in && got != old) || (!in && got != 0) {
				return pbt.Errf("%s: returned %v %v, want %v %v", what, got, ok, old, in)
			}
			if in {
				x.m[k] = gen
			}
		case "delete":
			if got := x.t.Delete(k); got != old {
				return pbt.Errf("%s: returned %v, want %v", what, got, old)
			}
			if in {
				dels++
			}
			delete(x.m, k)
		case "clear":
			x.t.Clear()
			x.m = map[K]int{}
		case "sub":
			fi, ti := o.Fi, o.Ti
			if k == k2 {
				ti = fi
			}
			lo, hi := rank(k), rank(k2)
			if hi < lo {
				v, did := pbt.Panics(func() { x.t.SubTree(k, fi, k2, ti) })
				if !did {
					return pbt.Errf("%s: inverted range does not panic", what)
				}
				c.Label("inverted range")
				_ = v
				break
			}
			if err := sub(x.t.SubTree(k, fi, k2, ti), func(r int) bool {
				return r > lo && r < hi || r == lo && fi || r == hi && ti
			}); err != nil {
				return err
			}
		case "left":
			if err := sub(x.t.LeftSubTree(k, o.Fi), func(r int) bool { return r < rank(k) || r == rank(k) && o.Fi }); err != nil {
				return err
			}
		case "right":
			if err := sub(x.t.RightSubTree(k, o.Fi), func(r int) bool { return r > rank(k) || r == rank(k) && o.Fi }); err != nil {
				return err
			}
		}
		for i, y := range trees {
			if err := check(fmt.Sprintf("tree %d after %s", i, what), y); err != nil {
				return err
			}
		}
	}
	c.LabelIf(subs > 0, "proper sub-tree")
	if subs > 0 && dels > 1 {
		c.NonTrivial()
	}
	return nil
}

func TestC08_RbTree(t *testing.T) {
	pbt.Check(t, pbt.Prop[rbPlan]{
		Rule: "up to 60 inserts, updates, deletes, clears and sub-tree extractions over up to 4 trees (results join in), 4..150 int or string keys under natural, reversed and permuted orderings, all trees compared with sorted maps after each step; " +
			"non-trivial: a proper sub-tree of at least two entries was cut and two keys were deleted",
		Cases: 4000,
		Gen: func(t *rapid.T) rbPlan {
			p := rbPlan{Order: rapid.SampledFrom([]int{0, 0, 1, 3, 17, 500}).Draw(t, "order"), Range: rapid.SampledFrom([]int{4, 8, 8, 16, 16, 16, 40, 40, 150}).Draw(t, "range"), Str: rapid.IntRange(0, 3).Draw(t, "str") == 0}
			p.Ops = pbt.Ops(t, 60, func(t *rapid.T) rbOp {
				return rbOp{Op: rapid.SampledFrom([]string{"insert", "insert", "insert", "insert", "insert", "update", "delete", "delete", "delete", "sub", "left", "right", "clear"}).Draw(t, "op"),
					T: rapid.IntRange(0, 3).Draw(t, "t"), K: rapid.IntRange(0, p.Range-1).Draw(t, "k"), K2: rapid.IntRange(0, p.Range-1).Draw(t, "k2"),
					Fi: rapid.Bool().Draw(t, "fi"), Ti: rapid.Bool().Draw(t, "ti")}
			})
			if rapid.IntRange(0, 3).Draw(t, "filled") == 0 {
				var first []rbOp
				for _, k := range pbt.Fill(t, p.Range) {
					first = append(first, rbOp{Op: "insert", K: k})
				}
				p.Ops = append(first, p.Ops...)
			}
			// clears are rare: keep at most the last one
			seen := false
			for i := len(p.Ops) - 1; i >= 0; i-- {
				if p.Ops[i].Op == "clear" {
					if seen {
						p.Ops[i].Op = "insert"
					}
					seen = true
				}
			}
			return p
		},
		Run: func(c *pbt.Ctx, p rbPlan) error {
			if p.Str {
				return runRbt(c, p, func(i int) string { return strconv.Itoa(i) }, func(s string) int { i, _ := strconv.Atoi(s); return p.rank(i) })
			}
			return runRbt(c, p, func(i int) int { return i }, p.rank)
		},
	})
}

// ---- C09 --------------------------------------------------------------------

// shape rebuilds the tree from what can be observed: the keys a search compares
// with are the ancestors of the key sought, and String gives the colours.
type shape struct {
	black  map[int]bool
	parent map[int]int
	kids   map[int][2]int // -1: none
	root   int
}

type watched struct {
	t     *rbt.RbTree[int, int]
	calls int
	log   [][2]int
	rec   bool
	rank  func(int) int
	m     map[int]bool
}

func newWatched(rank func(int) int) *watched {
	w := &watched{rank: rank, m: map[int]bool{}}
	w.t = rbt.New[int, int](w.less)
	return w
}

func (w *watched) less(a, b int) bool {
	w.calls++
	if w.rec {
		w.log = append(w.log, [2]int{a, b})
	}
	return w.rank(a) < w.rank(b)
}

func (w *watched) verify(what string) error {
	n := w.t.Len()
	if n != len(w.m) {
		return pbt.Errf("%s: Len %d, want %d", what, n, len(w.m))
	}
	// colours
	colour := map[int]bool{}
	str := strings.TrimSuffix(strings.TrimPrefix(w.t.String(), "{"), "}")
	for _, part := range strings.Split(str, ") (") {
		part = strings.Trim(part, "()")
		if part == "" {
			continue
		}
		f := strings.Split(part, ", ")
		k, err := strconv.Atoi(f[0])
		if err != nil || len(f) != 3 {
			return pbt.Errf("%s: unexpected rendering %q", what, part)
		}
		colour[k] = f[2] == "B"
	}
	if len(colour) != n {
		return pbt.Errf("%s: rendering shows %d nodes of %d", what, len(colour), n)
	}
	maxHeight := int(math.Floor(2*math.Log2(float64(n+1)) + 1e-9))
	kids := map[int][2]int{}
	root := -1
	paths := map[int][]int{}
	for k := range w.m {
		w.log, w.rec = w.log[:0], true
		ok := w.t.Search(k)
		w.rec = false
		if !ok {
			return pbt.Errf("%s: key %d is gone", what, k)
		}
		var path []int
		seen := map[int]bool{k: true}
		for _, e := range w.log {
			if e[0] == k && e[1] == k {
				break // below the key sought
			}
			for _, a := range e {
				if !seen[a] {
					seen[a] = true
					path = append(path, a)
				}
			}
		}
		if len(path)+1 > maxHeight {
			return pbt.Errf("%s: key %d is at depth %d of a tree of %d keys (height bound %d)", what, k, len(path)+1, n, maxHeight)
		}
		paths[k] = path
	}
	for k := range w.m {
		if _, ok := kids[k]; !ok {
			kids[k] = [2]int{-1, -1}
		}
		if len(paths[k]) == 0 {
			if root != -1 {
				return pbt.Errf("%s: both %d and %d are found without a comparison", what, root, k)
			}
			root = k
			continue
		}
		par := paths[k][len(paths[k])-1]
		if !w.m[par] {
			return pbt.Errf("%s: the search for %d compares with %d, which is not in the tree", what, k, par)
		}
		ch, ok := kids[par]
		if !ok {
			ch = [2]int{-1, -1}
		}
		side := 0
		if w.rank(par) < w.rank(k) {
			side = 1
		}
		if ch[side] != -1 {
			return pbt.Errf("%s: %d and %d are both child %d of %d", what, ch[side], k, side, par)
		}
		ch[side] = k
		kids[par] = ch
		if !colour[par] && !colour[k] {
			return pbt.Errf("%s: red node %d has the red child %d", what, par, k)
		}
	}
	if n == 0 {
		return nil
	}
	var blackHeight func(k int) (int, error)
	blackHeight = func(k int) (int, error) {
		if k == -1 {
			return 0, nil
		}
		l, err := blackHeight(kids[k][0])
		if err != nil {
			return 0, err
		}
		r, err := blackHeight(kids[k][1])
		if err != nil {
			return 0, err
		}
		if l != r {
			return 0, pbt.Errf("%s: below %d there are %d black nodes on the left and %d on the right", what, k, l, r)
		}
		if colour[k] {
			l++
		}
		return l, nil
	}
	_, err := blackHeight(root)
	return err
}

// cheap checks the height bound alone, through the cost of one operation.
func (w *watched) cost(what string, n, calls int) error {
	bound := 4*(2*math.Log2(float64(n+2))+2) + 4
	if float64(calls) > bound {
		return pbt.Errf("%s among %d keys made %d comparisons (bound %.0f)", what, n, calls, bound)
	}
	return nil
}

func TestC09_Balance(t *testing.T) {
	pbt.Check(t, pbt.Prop[rbPlan]{
		Rule: "histories of segments (ascending, descending, strided or single inserts and deletes, delete-all-but-a-few, sub-tree cut, clear) over up to 900 keys under three orderings; the tree is rebuilt from observed search paths and colours and checked after every operation while small and after each segment when large; comparisons per operation are counted; " +
			"non-trivial: at least ten deletions and eight keys left at some check",
		Cases: 2500,
		Gen: func(t *rapid.T) rbPlan {
			p := rbPlan{Order: rapid.SampledFrom([]int{0, 0, 1, 3, 500}).Draw(t, "order")}
			p.Range = rapid.SampledFrom([]int{8, 12, 24, 24, 40, 40, 900}).Draw(t, "range")
			p.Ops = pbt.Ops(t, 24, func(t *rapid.T) rbOp {
				return rbOp{Op: rapid.SampledFrom([]string{"ins", "ins", "ins", "ins", "del", "del", "del", "del", "cut", "clear"}).Draw(t, "op"),
					K: rapid.IntRange(0, p.Range-1).Draw(t, "k"), K2: rapid.IntRange(0, p.Range-1).Draw(t, "k2"),
					N:    min(pbt.Size(t, p.Range, "n"), p.Range+40),
					Step: rapid.SampledFrom([]int{1, 1, 1, -1, -1, 2, 3, 5, 7, -3, 11}).Draw(t, "step"), Fi: rapid.Bool().Draw(t, "fi"), Ti: rapid.Bool().Draw(t, "ti")}
			})
			for i := range p.Ops { // clear late only
				if p.Ops[i].Op == "clear" && i%5 != 0 {
					p.Ops[i].Op = "del"
				}
			}
			return p
		},
		Run: func(c *pbt.Ctx, p rbPlan) error {
			w := newWatched(p.rank)
			dels, best := 0, 0
			small := p.Range <= 40
			for n, o := range p.Ops {
				what := fmt.Sprintf("op %d %s k=%d n=%d step=%d", n, o.Op, o.K, o.N, o.Step)
				switch o.Op {
				case "ins", "del":
					k := o.K
					for i := 0; i <= o.N; i++ {
						before := w.calls
						size := len(w.m)
						if o.Op == "ins" {
							w.t.Insert(k, k)
							w.m[k] = true
						} else {
							w.t.Delete(k)
							if w.m[k] {
								dels++
							}
							delete(w.m, k)
						}
						if err := w.cost(what, size, w.calls-before); err != nil {
							return err
						}
						before = w.calls
						w.t.Search(k)
						if err := w.cost(what+": search", size, w.calls-before); err != nil {
							return err
						}
						if small {
							if err := w.verify(fmt.Sprintf("%s, step %d (key %d)", what, i, k)); err != nil {
								return err
							}
						}
						k = ((k+o.Step)%p.Range + p.Range) % p.Range
					}
				case "cut":
					lo, hi := o.K, o.K2
					if p.rank(hi) < p.rank(lo) {
						lo, hi = hi, lo
					}
					y := newWatched(p.rank)
					if lo == hi {
						o.Ti = o.Fi
					}
					var sub *rbt.RbTree[int, int]
					switch o.N % 4 {
					case 0:
						sub = w.t.LeftSubTree(o.K, o.Fi)
					case 1:
						sub = w.t.RightSubTree(o.K, o.Fi)
					default:
						sub = w.t.SubTree(lo, o.Fi, hi, o.Ti)
					}
					// the cut keeps comparing through w.less: route it to y's counters
					y.t = sub
					for k := range w.m {
						r := p.rank(k)
						in := r > p.rank(lo) && r < p.rank(hi) || k == lo && o.Fi || k == hi && o.Ti
						switch o.N % 4 {
						case 0:
							in = r < p.rank(o.K) || k == o.K && o.Fi
						case 1:
							in = r > p.rank(o.K) || k == o.K && o.Fi
						}
						if in {
							y.m[k] = true
						}
					}
					w.t = sub
					w.m = y.m
					c.Label("cut")
				case "clear":
					w.t.Clear()
					w.m = map[int]bool{}
				}
				best = max(best, len(w.m))
				if err := w.verify("after " + what); err != nil {
					return err
				}
			}
			c.LabelIf(best > 100, "over 100 keys")
			if dels >= 10 && best >= 8 {
				c.NonTrivial()
			}
			return nil
		},
	})
}
