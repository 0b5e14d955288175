package containers

import (
	"errors"
	"fmt"
	"sort"
	"testing"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gset"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

type qop struct {
	Op string
	V  int
}

type queuePlan struct {
	Gen  bool
	Init []int
	Ops  []qop
}

func TestC13_Queue(t *testing.T) {
	pbt.Check(t, pbt.Prop[queuePlan]{
		Rule:  "random sequences (up to 160) of push/pop/peek/peekAll/iterate/clear/len on a queue created empty or from a slice; non-trivial: the queue is emptied and refilled and a peek happens on a non-empty queue",
		Cases: 6000,
		Gen: func(t *rapid.T) queuePlan {
			return queuePlan{Gen: rapid.Bool().Draw(t, "gen"),
				Init: rapid.OneOf(rapid.SliceOfN(rapid.IntRange(0, 9), 0, 8), rapid.SliceOfN(rapid.IntRange(0, 9), 0, 8), rapid.SliceOfN(rapid.IntRange(0, 9), 30, 100)).Draw(t, "init"),
				Ops: pbt.Ops(t, 160, func(t *rapid.T) qop {
					return qop{Op: rapid.SampledFrom([]string{"push", "push", "push", "push", "pop", "pop", "pop", "peek", "peekAll", "iter", "clear", "clear2"}).Draw(t, "op"),
						V: rapid.IntRange(0, 9).Draw(t, "v")}
				})}
		},
		Run: func(c *pbt.Ctx, p queuePlan) error {
			type val struct{ N, Seq int }
			var q *gqueue.Queue[val]
			var m []val
			seq := 0
			mk := func(n int) val { seq++; return val{n, seq} }
			if p.Gen {
				var in []val
				for _, n := range p.Init {
					in = append(in, mk(n))
				}
				q = gqueue.Gen(in)
				m = append(m, in...)
				for i := range in {
					in[i] = val{-1, -1} // the queue must not alias the slice
				}
			} else {
				q = gqueue.New[val]()
			}
			emptied, refilled, peeked := false, false, false
			for _, op := range p.Ops {
				switch op.Op {
				case "push":
					v := mk(op.V)
					if err := q.Push(v); err != nil {
						return pbt.Errf("Push failed: %v", err)
					}
					m = append(m, v)
					refilled = refilled || emptied
				case "pop", "peek":
					var v val
					var err error
					if op.Op == "pop" {
						v, err = q.Pop()
					} else {
						v, err = gqueue.Peek(q)
					}
					if len(m) == 0 {
						if !errors.Is(err, gqueue.ErrorEmptyQueue) || v != (val{}) {
							return pbt.Errf("%s on empty: %v %v", op.Op, v, err)
						}
						break
					}
					if err != nil || v != m[0] {
						return pbt.Errf("%s: got %v %v, want %v", op.Op, v, err, m[0])
					}
					if op.Op == "pop" {
						m = m[1:]
					} else {
						peeked = true
					}
				case "peekAll":
					got := gqueue.PeekAll(q)
					if err := eqSlice(got, m); err != nil {
						return pbt.Errf("PeekAll: %v", err)
					}
					for i := range got {
						got[i] = val{-7, -7}
					}
				case "iter":
					ch := gqueue.Iterator(q)
					var got []val
					for v := range ch {
						got = append(got, v)
						if len(got) > len(m) {
							break
						}
					}
					if err := eqSlice(got, m); err != nil {
						return pbt.Errf("Iterator: %v", err)
					}
					m = nil
				case "clear":
					gqueue.Clear(q)
					m = nil
				case "clear2":
				}
				if q.Len() != len(m) || gqueue.IsEmpty(q) != (len(m) == 0) {
					return pbt.Errf("after %+v: Len %d IsEmpty %v, model %v", op, q.Len(), gqueue.IsEmpty(q), m)
				}
				if err := eqSlice(gqueue.PeekAll(q), m); err != nil {
					return pbt.Errf("after %+v: %v", op, err)
				}
				emptied = emptied || len(m) == 0
			}
			if refilled && peeked {
				c.NonTrivial()
			}
			return nil
		},
	})
}

func eqSlice[T comparable](got, want []T) error {
	if len(got) != len(want) {
		return pbt.Errf("got %v, want %v", got, want)
	}
	for i := range got {
		if got[i] != want[i] {
			return pbt.Errf("got %v, want %v", got, want)
		}
	}
	return nil
}

type setPlan struct {
	Sized int
	Ops   []qop
	Other []qop
}

func TestC14_Set(t *testing.T) {
	keys := []string{"", "a", "b", "aa", "A", "\x00", "k", "kk", "日本"}
	for i := 0; i < 60; i++ {
		keys = append(keys, fmt.Sprint("key", i))
	}
	pbt.Check(t, pbt.Prop[setPlan]{
		Rule:  "random sequences (up to 50) of add/remove/contains/items/clear on two sets of up to 69 strings; non-trivial: a duplicate add, a removal of a member and of a non-member",
		Cases: 6000,
		Gen: func(t *rapid.T) setPlan {
			one := func(t *rapid.T) qop {
				return qop{Op: rapid.SampledFrom([]string{"add", "add", "add", "add", "remove", "remove", "remove", "items", "clear"}).Draw(t, "op"),
					V: rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(0, 8), rapid.IntRange(0, len(keys)-1)).Draw(t, "v")}
			}
			p := setPlan{Sized: rapid.IntRange(0, 20).Draw(t, "size"), Ops: pbt.Ops(t, 50, one), Other: pbt.Ops(t, 10, one)}
			var first []qop
			for _, k := range pbt.Fill(t, len(keys)) {
				first = append(first, qop{Op: "add", V: k})
			}
			p.Ops = append(first, p.Ops...)
			return p
		},
		Run: func(c *pbt.Ctx, p setPlan) error {
			a, b := gset.NewSet[string](), gset.NewSetWithSize[string](p.Sized)
			ma, mb := map[string]bool{}, map[string]bool{}
			dup, hitRem, missRem := false, false, false
			step := func(s gset.Set[string], m map[string]bool, op qop) error {
				k := keys[op.V]
				switch op.Op {
				case "add":
					dup = dup || m[k]
					if !gset.Add(s, k) {
						return pbt.Errf("Add returned false")
					}
					m[k] = true
				case "remove":
					hitRem, missRem = hitRem || m[k], missRem || !m[k]
					if !gset.Remove(s, k) {
						return pbt.Errf("Remove returned false")
					}
					delete(m, k)
				case "items":
					it := gset.Items(s)
					for i := range it {
						it[i] = "overwritten"
					}
				case "clear":
					if op.V < 3 {
						gset.Clear(s)
						clear(m)
					}
				}
				return nil
			}
			verify := func(s gset.Set[string], m map[string]bool) error {
				if gset.Len(s) != len(m) {
					return pbt.Errf("Len %d, model %v", gset.Len(s), m)
				}
				for _, k := range append(keys, "overwritten") {
					if gset.Contains(s, k) != m[k] {
						return pbt.Errf("Contains(%q) = %v, model %v", k, gset.Contains(s, k), m)
					}
				}
				it := gset.Items(s)
				want := make([]string, 0)
				for k := range m {
					want = append(want, k)
				}
				sort.Strings(it)
				sort.Strings(want)
				return eqSlice(it, want)
			}
			for i, op := range p.Ops {
				if err := step(a, ma, op); err != nil {
					return err
				}
				if i < len(p.Other) {
					if err := step(b, mb, p.Other[i]); err != nil {
						return err
					}
				}
				if err := verify(a, ma); err != nil {
					return pbt.Errf("after %+v: %v", op, err)
				}
				if err := verify(b, mb); err != nil {
					return pbt.Errf("other set after %+v: %v", op, err)
				}
			}
			if dup && hitRem && missRem {
				c.NonTrivial()
			}
			return nil
		},
	})
}
