package containers

import (
	"testing"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

type lop struct {
	Op      string
	L, M    int // lists
	E, Mark int // element handles (modulo the handles that exist)
}

type listPlan struct {
	Ops []lop
}

var listOps = []string{"pushFront", "pushFront", "pushBack", "pushBack", "pushBack", "insertBefore", "insertAfter", "insertBefore", "insertAfter",
	"remove", "moveToFront", "moveToBack", "moveBefore", "moveAfter", "moveBefore", "moveAfter", "pushBackList", "pushFrontList", "init", "setValue"}

func TestC11_List(t *testing.T) {
	const nl = 3
	pbt.Check(t, pbt.Prop[listPlan]{
		Rule:  "random sequences (up to 60) of all list operations over three lists (one a zero value) with any element handle, live, foreign or removed; non-trivial: at least one move or insert that changes a list of two or more elements, and one call with a foreign or removed element",
		Cases: 5000,
		Gen: func(t *rapid.T) listPlan {
			return listPlan{Ops: pbt.Ops(t, 60, func(t *rapid.T) lop {
				return lop{
					Op: rapid.SampledFrom(listOps).Draw(t, "op"),
					L:  rapid.IntRange(0, nl-1).Draw(t, "l"), M: rapid.IntRange(0, nl-1).Draw(t, "m"),
					E: rapid.IntRange(0, 40).Draw(t, "e"), Mark: rapid.IntRange(0, 40).Draw(t, "mark"),
				}
			})}
		},
		Run: func(c *pbt.Ctx, p listPlan) error {
			lists := [nl]*glist.List[int]{glist.New[int](), new(glist.List[int]), glist.New[int]()}
			var model [nl][]int             // element ids per list
			var elems []*glist.Element[int] // by id
			var vals []int
			owner := []int{} // list of each element, -1 removed, -2 stale after Init (never used again)
			usable := func() []int {
				var u []int
				for i, o := range owner {
					if o != -2 {
						u = append(u, i)
					}
				}
				return u
			}
			add := func(e *glist.Element[int], v, l int) int {
				elems, vals, owner = append(elems, e), append(vals, v), append(owner, l)
				return len(elems) - 1
			}
			index := func(l, id int) int {
				for i, x := range model[l] {
					if x == id {
						return i
					}
				}
				return -1
			}
			insertAt := func(l, pos, id int) {
				m := append([]int{}, model[l][:pos]...)
				m = append(m, id)
				model[l] = append(m, model[l][pos:]...)
			}
			removeAt := func(l, pos int) {
				m := append([]int{}, model[l][:pos]...)
				model[l] = append(m, model[l][pos+1:]...)
			}
			check := func(step int, op lop) error {
				for l := range lists {
					ls := lists[l]
					where := func() string { return pbt.Str(op) + " (step " + pbt.Str(step) + ")" }
					if ls.Len() != len(model[l]) {
						return pbt.Errf("after %s: list %d has Len %d, model %v", where(), l, ls.Len(), model[l])
					}
					i := 0
					for e := ls.Front(); e != nil; e = e.Next() {
						if i >= len(model[l]) || elems[model[l][i]] != e || e.Value != vals[model[l][i]] {
							return pbt.Errf("after %s: list %d differs from model %v at forward position %d", where(), l, model[l], i)
						}
						i++
					}
					if i != len(model[l]) {
						return pbt.Errf("after %s: forward walk of list %d has %d elements, model %v", where(), l, i, model[l])
					}
					i = len(model[l]) - 1
					for e := ls.Back(); e != nil; e = e.Prev() {
						if i < 0 || elems[model[l][i]] != e {
							return pbt.Errf("after %s: list %d differs from model %v at backward position %d", where(), l, model[l], i)
						}
						i--
					}
					if i != -1 {
						return pbt.Errf("after %s: backward walk of list %d is short, model %v", where(), l, model[l])
					}
					var ranged []*glist.Element[int]
					ls.Range(func(e *glist.Element[int]) { ranged = append(ranged, e) })
					if len(ranged) != len(model[l]) {
						return pbt.Errf("after %s: Range visits %d elements, model %v", where(), len(ranged), model[l])
					}
					for i, e := range ranged {
						if e != elems[model[l][i]] {
							return pbt.Errf("after %s: Range differs from model %v at %d", where(), model[l], i)
						}
					}
				}
				for id, o := range owner {
					if o == -2 {
						continue
					}
					if elems[id].Value != vals[id] {
						return pbt.Errf("element %d lost its value: %d, want %d", id, elems[id].Value, vals[id])
					}
					if o == -1 && (elems[id].Next() != nil || elems[id].Prev() != nil) {
						return pbt.Errf("removed element %d still has neighbours", id)
					}
				}
				return nil
			}
			changed, foreign := false, false
			for step, op := range p.Ops {
				l := op.L
				ls := lists[l]
				u := usable()
				needE := op.Op != "pushFront" && op.Op != "pushBack" && op.Op != "pushBackList" && op.Op != "pushFrontList" && op.Op != "init"
				if needE && len(u) == 0 {
					continue
				}
				e, mark := -1, -1
				if needE {
					e, mark = u[op.E%len(u)], u[op.Mark%len(u)]
					if owner[e] != l || (owner[mark] != l && op.Op != "remove") {
						foreign = true
					}
				}
				v := 1000 + step
				switch op.Op {
				case "pushFront":
					insertAt(l, 0, add(ls.PushFront(v), v, l))
				case "pushBack":
					insertAt(l, len(model[l]), add(ls.PushBack(v), v, l))
				case "insertBefore", "insertAfter":
					var r *glist.Element[int]
					off := 0
					if op.Op == "insertBefore" {
						r = ls.InsertBefore(v, elems[mark])
					} else {
						r = ls.InsertAfter(v, elems[mark])
						off = 1
					}
					if owner[mark] != l {
						if r != nil {
							return pbt.Errf("%s with a foreign mark returned an element", op.Op)
						}
						break
					}
					if r == nil {
						return pbt.Errf("%s returned nil", op.Op)
					}
					pos := index(l, mark) + off
					insertAt(l, pos, add(r, v, l))
					changed = true
				case "remove":
					got := ls.Remove(elems[e])
					if got != any(vals[e]) {
						return pbt.Errf("Remove returned %v, want %v", got, vals[e])
					}
					if owner[e] == l {
						removeAt(l, index(l, e))
						owner[e] = -1
					}
				case "moveToFront", "moveToBack":
					if op.Op == "moveToFront" {
						ls.MoveToFront(elems[e])
					} else {
						ls.MoveToBack(elems[e])
					}
					if owner[e] == l {
						removeAt(l, index(l, e))
						if op.Op == "moveToFront" {
							insertAt(l, 0, e)
						} else {
							insertAt(l, len(model[l]), e)
						}
						changed = changed || len(model[l]) > 1
					}
				case "moveBefore", "moveAfter":
					off := 0
					if op.Op == "moveBefore" {
						ls.MoveBefore(elems[e], elems[mark])
					} else {
						ls.MoveAfter(elems[e], elems[mark])
						off = 1
					}
					if owner[e] == l && owner[mark] == l && e != mark {
						removeAt(l, index(l, e))
						insertAt(l, index(l, mark)+off, e)
						changed = true
					}
				case "pushBackList", "pushFrontList":
					if len(model[l])+len(model[op.M]) > 200 {
						break
					}
					src := append([]int{}, model[op.M]...)
					n := len(src)
					if op.Op == "pushBackList" {
						ls.PushBackList(lists[op.M])
						if ls.Len() != len(model[l])+n {
							return pbt.Errf("PushBackList: Len %d, want %d", ls.Len(), len(model[l])+n)
						}
						es := make([]*glist.Element[int], n)
						x := ls.Back()
						for i := n - 1; i >= 0; i-- {
							if x == nil {
								return pbt.Errf("PushBackList: list too short")
							}
							es[i] = x
							x = x.Prev()
						}
						for i := 0; i < n; i++ {
							insertAt(l, len(model[l]), add(es[i], vals[src[i]], l))
						}
					} else {
						ls.PushFrontList(lists[op.M])
						if ls.Len() != len(model[l])+n {
							return pbt.Errf("PushFrontList: Len %d, want %d", ls.Len(), len(model[l])+n)
						}
						x := ls.Front()
						for i := 0; i < n; i++ {
							if x == nil {
								return pbt.Errf("PushFrontList: list too short")
							}
							insertAt(l, i, add(x, vals[src[i]], l))
							x = x.Next()
						}
					}
				case "init":
					if op.E%4 != 0 {
						break // keep re-initialisation rare
					}
					if ls.Init() != ls {
						return pbt.Errf("Init returned another list")
					}
					for _, id := range model[l] {
						owner[id] = -2
					}
					model[l] = nil
				case "setValue":
					if owner[e] >= 0 {
						vals[e] = v
						elems[e].Value = v
					}
				}
				if err := check(step, op); err != nil {
					return err
				}
			}
			if changed && foreign {
				c.NonTrivial()
			}
			return nil
		},
	})
}
