package containers

import (
	"testing"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/gring"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

type rop struct {
	Op   string
	A, B int
	Size int
}

type ringPlan struct{ Ops []rop }

func TestC12_Ring(t *testing.T) {
	pbt.Check(t, pbt.Prop[ringPlan]{
		Rule:  "random sequences (up to 40, now and then 160) of new (1..100 elements)/zero/link/unlink/move/link-nil over any elements; non-trivial: a link within one ring that removes elements and a link of two different rings",
		Cases: 6000,
		Gen: func(t *rapid.T) ringPlan {
			return ringPlan{Ops: pbt.Ops(t, 40, func(t *rapid.T) rop {
				return rop{Op: rapid.SampledFrom([]string{"new", "new", "zero", "link", "link", "link", "linkNext", "linkSelf", "unlink", "unlink", "move", "linkNil"}).Draw(t, "op"),
					A:    rapid.IntRange(0, 60).Draw(t, "a"),
					B:    rapid.OneOf(rapid.IntRange(-3, 40), rapid.IntRange(-3, 12), rapid.IntRange(-300, 300)).Draw(t, "b"),
					Size: rapid.SampledFrom([]int{1, 2, 3, 4, 5, 6, 6, 18, 40, 100}).Draw(t, "size")}
			})}
		},
		Run: func(c *pbt.Ctx, p ringPlan) error {
			var elems []*gring.Ring[int]
			var rings [][]int // cyclic sequences of ids
			find := func(id int) (int, int) {
				for i, r := range rings {
					for j, x := range r {
						if x == id {
							return i, j
						}
					}
				}
				return -1, -1
			}
			rotated := func(id int) (int, []int) {
				i, j := find(id)
				r := rings[i]
				return i, append(append([]int{}, r[j:]...), r[:j]...)
			}
			check := func(op rop, full bool) error {
				for _, r := range rings {
					n := len(r)
					for i, id := range r {
						e := elems[id]
						if e.Value != id {
							return pbt.Errf("after %+v: element %d has value %d", op, id, e.Value)
						}
						if e.Next() != elems[r[(i+1)%n]] {
							return pbt.Errf("after %+v: Next of %d is %d, model ring %v", op, id, e.Next().Value, r)
						}
						if e.Prev() != elems[r[(i+n-1)%n]] {
							return pbt.Errf("after %+v: Prev of %d is %d, model ring %v", op, id, e.Prev().Value, r)
						}
					}
					e := elems[r[0]]
					if e.Len() != n {
						return pbt.Errf("after %+v: Len %d, model ring %v", op, e.Len(), r)
					}
					var seen []any
					e.Do(func(v any) { seen = append(seen, v) })
					if len(seen) != n {
						return pbt.Errf("after %+v: Do visits %v, model ring %v", op, seen, r)
					}
					for i := range seen {
						if seen[i] != any(r[i]) {
							return pbt.Errf("after %+v: Do visits %v, model ring %v", op, seen, r)
						}
					}
				}
				return nil
			}
			cut, spliced := false, false
			link := func(a, b int) error { // model of elems[a].Link(elems[b])
				ia, ra := rotated(a)
				wantRes := ra[1%len(ra)]
				ib, rb := rotated(b)
				got := elems[a].Link(elems[b])
				if ia == ib {
					k := 0
					for k < len(ra) && ra[k] != b {
						k++
					}
					if a == b {
						k = len(ra)
					}
					removed := append([]int{}, ra[1:k]...)
					rest := append([]int{a}, ra[k:]...)
					rings[ia] = rest
					if len(removed) > 0 {
						rings = append(rings, removed)
						cut = true
					}
				} else {
					nr := append([]int{a}, rb...)
					nr = append(nr, ra[1:]...)
					rings[ia] = nr
					rings = append(rings[:ib], rings[ib+1:]...)
					spliced = true
				}
				if got != elems[wantRes] {
					return pbt.Errf("Link(%d,%d) returned element %d, want %d", a, b, got.Value, wantRes)
				}
				return nil
			}
			if r := gring.New[int](0); r != nil || r.Len() != 0 {
				return pbt.Errf("New(0) is not the empty ring")
			}
			for _, op := range p.Ops {
				if op.Op != "new" && op.Op != "zero" && len(elems) == 0 {
					continue
				}
				if len(elems) > 0 {
					op.A %= len(elems)
				}
				switch op.Op {
				case "new":
					n := op.Size
					if len(elems) > 60 {
						continue
					}
					r := gring.New[int](n)
					if r.Len() != n {
						return pbt.Errf("New(%d) has Len %d", n, r.Len())
					}
					var ids []int
					for i, e := 0, r; i < n; i, e = i+1, e.Next() {
						e.Value = len(elems)
						ids = append(ids, len(elems))
						elems = append(elems, e)
					}
					rings = append(rings, ids)
				case "zero":
					if len(elems) > 60 {
						continue
					}
					elems = append(elems, &gring.Ring[int]{Value: len(elems)})
					rings = append(rings, []int{len(elems) - 1})
					// leave it uninitialised sometimes: only later operations touch it
					if op.A%2 == 0 {
						continue
					}
				case "link":
					if err := link(op.A, ((op.B%len(elems))+len(elems))%len(elems)); err != nil {
						return err
					}
				case "linkNext":
					_, ra := rotated(op.A)
					if err := link(op.A, ra[1%len(ra)]); err != nil {
						return err
					}
				case "linkSelf":
					if err := link(op.A, op.A); err != nil {
						return err
					}
				case "linkNil":
					_, ra := rotated(op.A)
					if got := elems[op.A].Link(nil); got != elems[ra[1%len(ra)]] {
						return pbt.Errf("Link(nil) returned element %d", got.Value)
					}
				case "unlink":
					i, ra := rotated(op.A)
					got := elems[op.A].Unlink(op.B)
					if op.B <= 0 {
						if got != nil {
							return pbt.Errf("Unlink(%d) returned a ring", op.B)
						}
						break
					}
					k := op.B % len(ra)
					if k > 0 {
						removed := append([]int{}, ra[1:1+k]...)
						rings[i] = append([]int{op.A}, ra[1+k:]...)
						rings = append(rings, removed)
						cut = true
						if got != elems[removed[0]] {
							return pbt.Errf("Unlink(%d) returned element %d, want the removed subring %v", op.B, got.Value, removed)
						}
					}
				case "move":
					_, ra := rotated(op.A)
					n := len(ra)
					b := op.B
					if got := elems[op.A].Move(b); got != elems[ra[((b%n)+n)%n]] {
						return pbt.Errf("Move(%d) from %d gives %d in ring %v", b, op.A, got.Value, ra)
					}
				}
				if err := check(op, true); err != nil {
					return err
				}
			}
			if cut && spliced {
				c.NonTrivial()
			}
			c.LabelIf(cut, "cut")
			c.LabelIf(spliced, "spliced")
			return nil
		},
	})
}
