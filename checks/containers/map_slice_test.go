package containers

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gmap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

type kv struct {
	K string
	V int
}

type mapPlan struct {
	Nil1, Nil2 bool
	M1         []kv
	Mut        []kv // edits applied to a copy of M1 to make M2 (V<0: delete)
	Fresh      []kv // or an independent M2
	UseFresh   bool
	Entries    []kv
}

func TestC15_Map(t *testing.T) {
	narrow := []string{"", "a", "b", "c", "d", "e", "ab", "\xff"}
	pbt.Check(t, pbt.Prop[mapPlan]{
		Rule:  "pairs of maps, the second either independent or a few edits (changed value, renamed key, removed key) away from the first, plus an entry list with duplicate keys; non-trivial: the maps have equal size of at least 2 and the first is not identical to itself being compared (they differ) or both are equal but built separately",
		Cases: 12000,
		Gen: func(t *rapid.T) mapPlan {
			keys, size := narrow, 7
			one := rapid.Custom(func(t *rapid.T) kv {
				return kv{rapid.SampledFrom(keys).Draw(t, "k"), rapid.IntRange(0, 3).Draw(t, "v")}
			})
			edit := rapid.Custom(func(t *rapid.T) kv {
				return kv{rapid.SampledFrom(keys).Draw(t, "k"), rapid.IntRange(-2, 3).Draw(t, "v")}
			})
			if rapid.IntRange(0, 9).Draw(t, "wide") == 0 { // bigger maps
				wide := make([]string, 60)
				for i := range wide {
					wide[i] = fmt.Sprint("w", i)
				}
				size = 50
				keys = append(wide, narrow...)
			}
			return mapPlan{
				Nil1: rapid.IntRange(0, 19).Draw(t, "nil1") == 0, Nil2: rapid.IntRange(0, 19).Draw(t, "nil2") == 0,
				M1: rapid.SliceOfN(one, 0, size).Draw(t, "m1"), Mut: rapid.SliceOfN(edit, 0, 3).Draw(t, "mut"),
				Fresh: rapid.SliceOfN(one, 0, size).Draw(t, "m2"), UseFresh: rapid.IntRange(0, 3).Draw(t, "uf") == 0,
				Entries: rapid.SliceOfN(one, 0, size+5).Draw(t, "entries"),
			}
		},
		Run: func(c *pbt.Ctx, p mapPlan) error {
			build := func(l []kv) map[string]int {
				m := map[string]int{}
				for _, e := range l {
					if e.V < 0 {
						delete(m, e.K)
					} else {
						m[e.K] = e.V
					}
				}
				return m
			}
			var m1, m2 map[string]int
			if !p.Nil1 {
				m1 = build(p.M1)
			}
			if !p.Nil2 {
				if p.UseFresh {
					m2 = build(p.Fresh)
				} else {
					m2 = build(append(append([]kv{}, p.M1...), p.Mut...))
				}
			}
			show := func(m map[string]int) string { return fmt.Sprintf("%#v", m) }
			b1, b2 := show(m1), show(m2)
			refEq := len(m1) == len(m2)
			refLE := len(m1) == len(m2) // v1 <= v2, an asymmetric predicate
			for k, v := range m1 {
				w, ok := m2[k]
				refEq = refEq && ok && v == w
				refLE = refLE && ok && v <= w
			}
			if len(m1) == len(m2) && len(m1) >= 2 {
				c.NonTrivial()
			}
			c.LabelIf(refEq, "equal")
			c.LabelIf(!refEq && len(m1) == len(m2), "same size, different")
			for i := 0; i < 2; i++ {
				if got := gmap.Equal(m1, m2); got != refEq {
					return pbt.Errf("Equal(%s, %s) = %v", b1, b2, got)
				}
				if got := gmap.Equal(m2, m1); got != refEq {
					return pbt.Errf("Equal(%s, %s) = %v", b2, b1, got)
				}
			}
			if !gmap.Equal(m1, m1) {
				return pbt.Errf("Equal(m, m) = false for %s", b1)
			}
			m2s := map[string]string{}
			for k, v := range m2 {
				m2s[k] = fmt.Sprint(v)
			}
			eq := func(a int, b string) bool { return fmt.Sprint(a) == b }
			le := func(a int, b string) bool { return fmt.Sprint(a) <= b } // single digits
			if got := gmap.EqualWithFunc(m1, m2s, eq); got != refEq {
				return pbt.Errf("EqualWithFunc(%s, %s, ==) = %v", b1, b2, got)
			}
			if got := gmap.EqualWithFunc(m1, m2s, le); got != refLE {
				return pbt.Errf("EqualWithFunc(%s, %s, <=) = %v", b1, b2, got)
			}
			if got := gmap.EqualWithFunc(m1, m2, func(a, b int) bool { return a == b }); got != refEq {
				return pbt.Errf("EqualWithFunc(%s, %s, == on ints) = %v", b1, b2, got)
			}
			sameKeys := len(m1) == len(m2)
			for k := range m1 {
				_, ok := m2[k]
				sameKeys = sameKeys && ok
			}
			if got := gmap.EqualWithFunc(m1, m2s, func(int, string) bool { return true }); got != sameKeys {
				return pbt.Errf("EqualWithFunc(%s, %s, always true) = %v", b1, b2, got)
			}
			if gmap.Len(m1) != len(m1) {
				return pbt.Errf("Len = %d for %s", gmap.Len(m1), b1)
			}
			asked := append([]string{"w3", "w40"}, narrow...)
			for k := range m1 {
				asked = append(asked, k)
			}
			for k := range m2 {
				asked = append(asked, k)
			}
			for _, k := range asked {
				_, ok := m1[k]
				if gmap.Contains(m1, k) != ok {
					return pbt.Errf("Contains(%s, %q) = %v", b1, k, !ok)
				}
			}
			var wk []string
			var wv []int
			for k, v := range m1 {
				wk, wv = append(wk, k), append(wv, v)
			}
			gk, gv := gmap.Keys(m1), gmap.Values(m1)
			sort.Strings(wk)
			sort.Strings(gk)
			sort.Ints(wv)
			sort.Ints(gv)
			if err := eqSlice(gk, wk); err != nil {
				return pbt.Errf("Keys(%s): %v", b1, err)
			}
			if err := eqSlice(gv, wv); err != nil {
				return pbt.Errf("Values(%s): %v", b1, err)
			}
			cp := gmap.Copy(m1)
			if cp == nil || !sameMap(cp, m1) {
				return pbt.Errf("Copy(%s) = %s", b1, show(cp))
			}
			ents := gmap.Map2Entries(m1)
			if len(ents) != len(m1) || !sameMap(gmap.Entries2Map(ents), m1) {
				return pbt.Errf("entries of %s: %v", b1, ents)
			}
			// later duplicates win
			var el []gconstraints.Entry[string, int]
			last := map[string]int{}
			for _, e := range p.Entries {
				el = append(el, gconstraints.Entry[string, int]{Key: e.K, Value: e.V})
				last[e.K] = e.V
			}
			if got := gmap.Entries2Map(el); !sameMap(got, last) || got == nil {
				return pbt.Errf("Entries2Map(%v) = %v", el, got)
			}
			if show(m1) != b1 || show(m2) != b2 {
				return pbt.Errf("an argument was modified: %s -> %s, %s -> %s", b1, show(m1), b2, show(m2))
			}
			// a copy is independent, both ways
			cp["new"] = 1
			for k := range m1 {
				cp[k] = 99
			}
			if show(m1) != b1 {
				return pbt.Errf("changing the copy changed the original %s", b1)
			}
			cp2 := gmap.Copy(m1)
			if m1 != nil {
				gmap.Clear(m1)
				if len(m1) != 0 {
					return pbt.Errf("Clear left %v", m1)
				}
				m1["x"] = 5
				if show(cp2) != b1 {
					return pbt.Errf("clearing the original changed the copy")
				}
			} else {
				gmap.Clear(m1)
			}
			return nil
		},
	})
}

func sameMap(a, b map[string]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

type slPlan struct {
	Base   []int  // one backing array
	A, B   [3]int // [lo,hi,cap) selections of it, or of a separate array
	BAlias bool
	NilA   bool
	NilB   bool
	Target int
	Mod    int
}

func TestC16_Slice(t *testing.T) {
	pbt.Check(t, pbt.Prop[slPlan]{
		Rule:  "two slices cut (with spare capacity, possibly overlapping, possibly nil) out of backing arrays of small integers, a target and a predicate; non-trivial: the first slice is non-empty and has spare capacity, and the second is non-empty",
		Cases: 12000,
		Gen: func(t *rapid.T) slPlan {
			n := pbt.Size(t, 40, "n")
			hi := rapid.SampledFrom([]int{1, 3, 10}).Draw(t, "hi")
			p := slPlan{Base: rapid.SliceOfN(rapid.IntRange(0, hi), n, n).Draw(t, "base")}
			if rapid.IntRange(0, 2).Draw(t, "sorted") == 0 {
				sort.Ints(p.Base)
				if n > 1 && rapid.Bool().Draw(t, "perturb") {
					i := rapid.IntRange(0, n-2).Draw(t, "i")
					p.Base[i], p.Base[i+1] = p.Base[i+1], p.Base[i]
				}
			}
			cut := func(l string) [3]int {
				lo := rapid.IntRange(0, n).Draw(t, l+"lo")
				h := rapid.IntRange(lo, n).Draw(t, l+"hi")
				return [3]int{lo, h, rapid.IntRange(h, n).Draw(t, l+"cap")}
			}
			p.A, p.B = cut("a"), cut("b")
			if rapid.IntRange(0, 3).Draw(t, "same") == 0 {
				p.B = p.A
			}
			p.BAlias = rapid.Bool().Draw(t, "alias")
			p.NilA = rapid.IntRange(0, 14).Draw(t, "nilA") == 0
			p.NilB = rapid.IntRange(0, 14).Draw(t, "nilB") == 0
			p.Target = rapid.IntRange(0, hi+1).Draw(t, "target")
			p.Mod = rapid.IntRange(1, 4).Draw(t, "mod")
			return p
		},
		Run: func(c *pbt.Ctx, p slPlan) error {
			base := append([]int{}, p.Base...)
			base2 := base
			if !p.BAlias {
				base2 = append([]int{}, p.Base...)
			}
			var a, b []int
			if !p.NilA {
				a = base[p.A[0]:p.A[1]:p.A[2]]
			}
			if !p.NilB {
				b = base2[p.B[0]:p.B[1]:p.B[2]]
			}
			la, lb := append([]int{}, a...), append([]int{}, b...)
			untouched := func(what string) error {
				if e := eqSlice(base, p.Base); e != nil {
					return pbt.Errf("%s wrote to its argument's memory: %v", what, e)
				}
				if e := eqSlice(base2, p.Base); e != nil {
					return pbt.Errf("%s wrote to its argument's memory: %v", what, e)
				}
				return nil
			}
			fresh := func(what string, r []int) error {
				if err := untouched(what); err != nil {
					return err
				}
				// write everything reachable through the result
				r = r[:cap(r)]
				for i := range r {
					r[i] = -1000 - i
				}
				return untouched("writing to the result of " + what)
			}
			if len(a) > 0 && cap(a) > len(a) && len(b) > 0 {
				c.NonTrivial()
			}
			// Copy
			cp := gslice.Copy(a)
			if (cp == nil) != (a == nil) {
				return pbt.Errf("Copy(nil=%v) is nil=%v", a == nil, cp == nil)
			}
			if err := eqSlice(cp, la); err != nil {
				return pbt.Errf("Copy: %v", err)
			}
			if err := fresh("Copy", cp); err != nil {
				return err
			}
			// Merge
			m := gslice.Merge(a, b)
			if m == nil && a == nil && b == nil {
				return pbt.Errf("Merge(nil, nil) is nil")
			}
			if err := eqSlice(m, append(append([]int{}, la...), lb...)); err != nil {
				return pbt.Errf("Merge(%v, %v): %v", la, lb, err)
			}
			if err := fresh("Merge", m); err != nil {
				return err
			}
			// a second merge from the same first slice must not disturb an earlier result
			if a != nil {
				m1 := gslice.Merge(a, []int{-5})
				m2 := gslice.Merge(a, []int{-6})
				if m1[len(m1)-1] != -5 || m2[len(m2)-1] != -6 {
					return pbt.Errf("two merges of the same slice share storage: %v %v", m1, m2)
				}
			}
			// Equal
			refEq := fmt.Sprint(la) == fmt.Sprint(lb)
			if gslice.Equal(a, b) != refEq || gslice.Equal(b, a) != refEq {
				return pbt.Errf("Equal(%v, %v) = %v", la, lb, !refEq)
			}
			strs := make([]string, len(lb))
			refLE := len(la) == len(lb)
			for i, v := range lb {
				strs[i] = fmt.Sprintf("%03d", v)
				refLE = refLE && la[i] <= v
			}
			if got := gslice.EqualWithFunc(a, strs, func(x int, y string) bool { return fmt.Sprintf("%03d", x) == y }); got != refEq {
				return pbt.Errf("EqualWithFunc(%v, %v, ==) = %v", la, lb, got)
			}
			if got := gslice.EqualWithFunc(a, strs, func(x int, y string) bool { return fmt.Sprintf("%03d", x) <= y }); got != refLE {
				return pbt.Errf("EqualWithFunc(%v, %v, <=) = %v", la, lb, got)
			}
			nan := math.NaN()
			if len(a) > 0 {
				fa := make([]float64, len(a))
				fa[len(fa)-1] = nan
				if gslice.Equal(fa, append([]float64{}, fa...)) {
					return pbt.Errf("Equal treats NaN as equal")
				}
			}
			// Index / Contains
			first, firstP := -1, -1
			for i := len(la) - 1; i >= 0; i-- {
				if la[i] == p.Target {
					first = i
				}
				if la[i]%p.Mod == p.Mod-1 {
					firstP = i
				}
			}
			pred := func(x int) bool { return x%p.Mod == p.Mod-1 }
			if got := gslice.Index(a, p.Target); got != first {
				return pbt.Errf("Index(%v, %d) = %d", la, p.Target, got)
			}
			if got := gslice.IndexWithFunc(a, pred); got != firstP {
				return pbt.Errf("IndexWithFunc(%v, %%%d) = %d", la, p.Mod, got)
			}
			if got := gslice.Contains(a, p.Target); got != (first >= 0) {
				return pbt.Errf("Contains(%v, %d) = %v", la, p.Target, got)
			}
			if got := gslice.ContainsWithFunc(a, pred); got != (firstP >= 0) {
				return pbt.Errf("ContainsWithFunc(%v) = %v", la, got)
			}
			if gslice.Len(a) != len(la) {
				return pbt.Errf("Len = %d", gslice.Len(a))
			}
			// Unique
			seen, seenF := map[int]bool{}, map[int]bool{}
			var wu, wuf []int
			for _, v := range la {
				if !seen[v] {
					seen[v] = true
					wu = append(wu, v)
				}
				if !seenF[v%p.Mod] {
					seenF[v%p.Mod] = true
					wuf = append(wuf, v)
				}
			}
			u, n := gslice.Unique(a)
			if err := eqSlice(u, wu); err != nil || n != len(wu) || u == nil {
				return pbt.Errf("Unique(%v) = %v, %d", la, u, n)
			}
			if err := fresh("Unique", u); err != nil {
				return err
			}
			uf, nf := gslice.UniqueWithFunc(a, func(x int) string { return fmt.Sprint(x % p.Mod) })
			if err := eqSlice(uf, wuf); err != nil || nf != len(wuf) || uf == nil {
				return pbt.Errf("UniqueWithFunc(%v, %%%d) = %v, %d", la, p.Mod, uf, nf)
			}
			if err := fresh("UniqueWithFunc", uf); err != nil {
				return err
			}
			// IsSorted
			asc, ascF := true, true
			for i := 1; i < len(la); i++ {
				asc = asc && la[i-1] <= la[i]
				ascF = ascF && la[i-1]%p.Mod >= la[i]%p.Mod
			}
			if got := gslice.IsSorted(a); got != asc {
				return pbt.Errf("IsSorted(%v) = %v", la, got)
			}
			if got := gslice.IsSortedFunc(a, func(x, y int) bool { return x%p.Mod > y%p.Mod }); got != ascF {
				return pbt.Errf("IsSortedFunc(%v, mod %d descending) = %v", la, p.Mod, got)
			}
			c.LabelIf(asc && len(la) > 2, "sorted")
			if err := untouched("a query"); err != nil {
				return err
			}
			// Reverse and Shuffle work in place and touch nothing else
			inPlace := func(what string, r []int) error {
				if len(r) != len(a) || (len(r) > 0 && &r[0] != &a[0]) || (r == nil) != (a == nil) {
					return pbt.Errf("%s does not return its argument", what)
				}
				for i, v := range base {
					if !p.NilA && i >= p.A[0] && i < p.A[1] {
						continue
					}
					if v != p.Base[i] {
						return pbt.Errf("%s wrote outside the slice", what)
					}
				}
				return nil
			}
			r := gslice.Reverse(a)
			if err := inPlace("Reverse", r); err != nil {
				return err
			}
			for i := range la {
				if r[i] != la[len(la)-1-i] {
					return pbt.Errf("Reverse(%v) = %v", la, r)
				}
			}
			r = gslice.Shuffle(a)
			if err := inPlace("Shuffle", r); err != nil {
				return err
			}
			x, y := append([]int{}, r...), append([]int{}, la...)
			sort.Ints(x)
			sort.Ints(y)
			if err := eqSlice(x, y); err != nil {
				return pbt.Errf("Shuffle changed the elements: %v", err)
			}
			return nil
		},
	})
}
