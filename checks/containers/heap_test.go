package containers

import (
	"testing"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

type hItem struct{ Key, ID int }

type heapPlan struct {
	Order string
	Init  []int
	Ops   []int // >=0: push that key, -1: pop
}

var heapOrders = map[string]func(a, b hItem) bool{
	"asc":    func(a, b hItem) bool { return a.Key < b.Key },
	"desc":   func(a, b hItem) bool { return a.Key > b.Key },
	"mod3":   func(a, b hItem) bool { return a.Key%3 < b.Key%3 },
	"allTie": func(a, b hItem) bool { return false },
	"parity": func(a, b hItem) bool {
		if a.Key%2 != b.Key%2 {
			return a.Key%2 == 1
		}
		return a.Key > b.Key
	},
}

func TestC10_Heap(t *testing.T) {
	pbt.Check(t, pbt.Prop[heapPlan]{
		Rule:  "random order, initial data (0-200 keys, with ties) and push/pop sequence, then a full drain; non-trivial: a push happens after a pop and at least 4 elements pass through",
		Cases: 6000,
		Gen: func(t *rapid.T) heapPlan {
			hi := rapid.SampledFrom([]int{1, 5, 20, 1000}).Draw(t, "hi")
			key := rapid.IntRange(0, hi)
			p := heapPlan{Order: rapid.SampledFrom([]string{"asc", "desc", "mod3", "allTie", "parity"}).Draw(t, "order")}
			n := pbt.Size(t, 200, "init")
			p.Init = rapid.SliceOfN(key, n, n).Draw(t, "initData")
			m := pbt.Size(t, 200, "nops")
			popBias := rapid.IntRange(1, 9).Draw(t, "popBias")
			p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) int {
				if rapid.IntRange(0, 9).Draw(t, "k") < popBias {
					return -1
				}
				return key.Draw(t, "key")
			}), m, m).Draw(t, "ops")
			return p
		},
		Run: func(c *pbt.Ctx, p heapPlan) error {
			less := heapOrders[p.Order]
			in := map[int]hItem{}
			next := 0
			mk := func(k int) hItem { next++; return hItem{k, next} }
			var h *gheap.Heap[hItem]
			if len(p.Init) == 0 {
				h = gheap.New(func(a, b hItem) bool { return less(a, b) })
			} else {
				data := make([]hItem, 0, len(p.Init))
				for _, k := range p.Init {
					it := mk(k)
					data = append(data, it)
					in[it.ID] = it
				}
				h = gheap.NewWithData(data, func(a, b hItem) bool { return less(a, b) })
			}
			pop := func() error {
				it := gheap.Pop(h)
				want, ok := in[it.ID]
				if !ok || want != it {
					return pbt.Errf("pop returned %+v, which is not in the heap", it)
				}
				delete(in, it.ID)
				for _, o := range in {
					if less(o, it) {
						return pbt.Errf("pop returned %+v while %+v orders before it", it, o)
					}
				}
				return nil
			}
			popped, pushedAfterPop := false, false
			for _, o := range p.Ops {
				if o >= 0 {
					it := mk(o)
					in[it.ID] = it
					gheap.Push(h, it)
					pushedAfterPop = pushedAfterPop || popped
				} else if len(in) > 0 {
					popped = true
					if err := pop(); err != nil {
						return err
					}
				}
			}
			for len(in) > 0 {
				if err := pop(); err != nil {
					return err
				}
			}
			if pushedAfterPop && next >= 4 {
				c.NonTrivial()
			}
			c.Label("order " + p.Order)
			c.LabelIf(len(p.Init) > 0, "initial data")
			return nil
		},
	})
}
