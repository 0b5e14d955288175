package ds

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

type slOp struct {
	Op string
	K  int
}

type slPlan struct {
	KeyType string
	Range   int
	Levels  []int // trailing zeros of the word drawn for the i-th new node; 25: a zero word
	Ops     []slOp
}

type slVal[K any] struct {
	K   K
	Gen int
}

func runSkiplist[K string | int | float64](c *pbt.Ctx, p slPlan, key func(int) K) error {
	var words []uint64
	for _, l := range p.Levels {
		if l >= 25 {
			words = append(words, 0)
		} else {
			words = append(words, 0xfff0_0000_0000_0001<<l|1<<l)
		}
	}
	defer script(words)()
	l := gskiplist.New[K, slVal[K]]()
	model := map[K]slVal[K]{}
	gen, deleted, highDel := 0, 0, false
	check := func(what string) error {
		ks := make([]K, 0, len(model))
		for k := range model {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		if l.GetNodeCount() != len(ks) || l.IsEmpty() != (len(ks) == 0) {
			return pbt.Errf("%s: count %d empty %v, want %d keys", what, l.GetNodeCount(), l.IsEmpty(), len(ks))
		}
		for i := -1; i <= p.Range; i++ {
			k := key(i)
			want, in := model[k]
			got, ok := l.Find(k)
			if ok != in || got != want {
				return pbt.Errf("%s: Find(%v) = %v %v, want %v %v", what, k, got, ok, want, in)
			}
			at := sort.Search(len(ks), func(j int) bool { return ks[j] >= k })
			e, ok := l.FindGreaterOrEqual(k)
			if ok != (at < len(ks)) || (e == nil) == ok {
				return pbt.Errf("%s: FindGreaterOrEqual(%v) found=%v elem=%v, want found=%v", what, k, ok, e.GetValue(), at < len(ks))
			}
			if ok && e.GetValue() != model[ks[at]] {
				return pbt.Errf("%s: FindGreaterOrEqual(%v) = %v, want %v", what, k, e.GetValue(), model[ks[at]])
			}
			if ok { // the element found is a full member of the list
				if n, w := l.Next(e).GetValue(), model[ks[(at+1)%len(ks)]]; n != w {
					return pbt.Errf("%s: Next(%v) = %v, want %v", what, ks[at], n, w)
				}
				if n, w := l.Prev(e).GetValue(), model[ks[(at+len(ks)-1)%len(ks)]]; n != w {
					return pbt.Errf("%s: Prev(%v) = %v, want %v", what, ks[at], n, w)
				}
			}
		}
		small, large := l.GetSmallestNode(), l.GetLargestNode()
		if len(ks) == 0 {
			if small != nil || large != nil {
				return pbt.Errf("%s: empty list has smallest %v largest %v", what, small.GetValue(), large.GetValue())
			}
			return nil
		}
		if small == nil || large == nil {
			return pbt.Errf("%s: no smallest or largest node among %d", what, len(ks))
		}
		e := small
		for i := 0; i < len(ks)+2; i++ { // forward, wrapping around
			if w := model[ks[i%len(ks)]]; e.GetValue() != w {
				return pbt.Errf("%s: step %d forwards is %v, want %v", what, i, e.GetValue(), w)
			}
			e = l.Next(e)
		}
		e = large
		for i := 0; i < len(ks)+2; i++ {
			if w := model[ks[(2*len(ks)-1-i%len(ks))%len(ks)]]; e.GetValue() != w {
				return pbt.Errf("%s: step %d backwards is %v, want %v", what, i, e.GetValue(), w)
			}
			e = l.Prev(e)
		}
		return nil
	}
	if err := check("new list"); err != nil {
		return err
	}
	for n, o := range p.Ops {
		k := key(o.K)
		what := fmt.Sprintf("op %d %s(%v)", n, o.Op, k)
		gen++
		_, in := model[k]
		switch o.Op {
		case "insert":
			l.Insert(k, slVal[K]{k, gen})
			model[k] = slVal[K]{k, gen}
			c.LabelIf(in, "insert existing")
		case "delete":
			l.Delete(k)
			delete(model, k)
			if in {
				deleted++
				highDel = highDel || len(model) == 0
			}
			c.LabelIf(!in, "delete absent")
			c.LabelIf(in && len(model) == 0, "delete last")
		case "change":
			ok := l.ChangeValue(k, slVal[K]{k, gen})
			if ok != in {
				return pbt.Errf("%s: ChangeValue reports %v, present %v", what, ok, in)
			}
			if in {
				model[k] = slVal[K]{k, gen}
			}
		}
		if err := check(what); err != nil {
			return err
		}
	}
	if deleted >= 2 && len(model) >= 3 {
		c.NonTrivial()
	}
	return nil
}

func TestC07_Skiplist(t *testing.T) {
	pbt.Check(t, pbt.Prop[slPlan]{
		Rule: "up to 70 inserts/deletes/changes over 4..120 int, string or float keys with every drawn level chosen by the plan (flat, geometric, tall, maximal); every lookup, greater-or-equal search and both traversals compared with a sorted map after each step; " +
			"non-trivial: at least two effective deletions and three keys left",
		Cases: 5000,
		Gen: func(t *rapid.T) slPlan {
			p := slPlan{KeyType: rapid.SampledFrom([]string{"int", "int", "string", "float"}).Draw(t, "kt"), Range: rapid.SampledFrom([]int{4, 8, 8, 15, 15, 30, 30, 120}).Draw(t, "range")}
			style := rapid.IntRange(0, 3).Draw(t, "style")
			p.Levels = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) int {
				switch style {
				case 0:
					return rapid.IntRange(0, 0).Draw(t, "l")
				case 1:
					return rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 2, 3}).Draw(t, "l")
				case 2:
					return rapid.IntRange(0, 6).Draw(t, "l")
				default:
					return rapid.SampledFrom([]int{0, 1, 2, 3, 5, 22, 23, 24, 25}).Draw(t, "l")
				}
			}), 1, 70).Draw(t, "levels")
			p.Ops = pbt.Ops(t, 70, func(t *rapid.T) slOp {
				return slOp{rapid.SampledFrom([]string{"insert", "insert", "insert", "insert", "delete", "delete", "delete", "change"}).Draw(t, "op"), rapid.IntRange(0, p.Range-1).Draw(t, "k")}
			})
			var first []slOp
			for _, k := range pbt.Fill(t, p.Range) {
				first = append(first, slOp{"insert", k})
			}
			p.Ops = append(first, p.Ops...)
			return p
		},
		Run: func(c *pbt.Ctx, p slPlan) error {
			switch p.KeyType {
			case "int":
				return runSkiplist(c, p, func(i int) int { return i - 3 })
			case "string":
				return runSkiplist(c, p, func(i int) string {
					if i == 0 {
						return ""
					}
					return fmt.Sprintf("%03d", i+1)
				})
			default:
				return runSkiplist(c, p, func(i int) float64 {
					switch i {
					case 1:
						return math.Inf(-1)
					case 2:
						return math.Inf(1)
					}
					return float64(i-5) / 3
				})
			}
		},
	})
}
