package containers

import (
	"container/heap"
	"fmt"
	"math/rand/v2"
	"slices"
	"testing"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gmap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gring"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gset"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
	"github.com/miniLCT/gosb/gogenerics/gnumerics"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// Large containers: up to tens of thousands of elements expanded from a seed, so
// that a plan stays a few numbers; a few operations each, in full comparison with
// the model at the end of every phase.

type largePlan struct {
	N, M  int
	Seed  uint64
	Kind  int
	Order string
}

func genLarge(max int) func(t *rapid.T) largePlan {
	return func(t *rapid.T) largePlan {
		return largePlan{N: pbt.Large(t, max, "n"), M: pbt.Large(t, max, "m"), Seed: rapid.Uint64Range(0, 1<<20).Draw(t, "seed"),
			Kind: rapid.IntRange(0, 7).Draw(t, "kind"), Order: rapid.SampledFrom([]string{"asc", "desc", "mod3", "allTie", "parity"}).Draw(t, "order")}
	}
}

func (p largePlan) size(c *pbt.Ctx) {
	if p.N > 1000 {
		c.NonTrivial()
		c.Label("above 1000")
	}
	c.LabelIf(p.N > 10000, "above 10000")
}

// series is the i-th of n keys of a history of a kind: random, ascending,
// descending, few values, alternating ends, a sawtooth, or one value.
func series(kind int, r *rand.Rand, i, n int) int {
	switch kind {
	case 0, 1:
		return r.IntN(4 * n)
	case 2:
		return i
	case 3:
		return n - i
	case 4:
		return r.IntN(5)
	case 5:
		if i%2 == 0 {
			return i
		}
		return -i
	case 6:
		return i % 37 * 100
	}
	return 7
}

const largeRule = "; non-trivial: more than 1000 elements"

// ---- C10 --------------------------------------------------------------------

type refHeap struct {
	items []hItem
	less  func(a, b hItem) bool
}

func (h *refHeap) Len() int           { return len(h.items) }
func (h *refHeap) Less(i, j int) bool { return h.less(h.items[i], h.items[j]) }
func (h *refHeap) Swap(i, j int)      { h.items[i], h.items[j] = h.items[j], h.items[i] }
func (h *refHeap) Push(v any)         { h.items = append(h.items, v.(hItem)) }
func (h *refHeap) Pop() any {
	n := len(h.items) - 1
	v := h.items[n]
	h.items = h.items[:n]
	return v
}

func TestC10_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[largePlan]{
		Rule:  "33..50000 keys of eight kinds of history as initial data, pushed, or both, then phases of pushes and pops, and a drain, next to a reference heap that must give an equivalent element each time" + largeRule,
		Cases: 30,
		Gen:   genLarge(50000),
		Run: func(c *pbt.Ctx, p largePlan) error {
			p.size(c)
			less := heapOrders[p.Order]
			r := pbt.Rand(p.Seed)
			ref := &refHeap{less: less}
			in := map[int]hItem{}
			id := 0
			mk := func(i int) hItem {
				id++
				it := hItem{series(p.Kind, r, i, p.N), id}
				if it.Key < 0 {
					it.Key += 2 * p.N
				}
				in[id] = it
				return it
			}
			counted := func(a, b hItem) bool { return less(a, b) }
			var h *gheap.Heap[hItem]
			init := int(p.Seed % 3) // all, half or none as initial data
			n0 := []int{p.N, p.N / 2, 0}[init]
			if n0 > 0 {
				data := make([]hItem, n0, n0+int(p.Seed%5))
				for i := range data {
					data[i] = mk(i)
				}
				ref.items = slices.Clone(data)
				heap.Init(ref)
				h = gheap.NewWithData(data, counted)
			} else {
				h = gheap.New(counted)
			}
			push := func(i int) {
				it := mk(i)
				heap.Push(ref, it)
				gheap.Push(h, it)
			}
			pop := func() error {
				it := gheap.Pop(h)
				if w, ok := in[it.ID]; !ok || w != it {
					return pbt.Errf("pop returned %+v, which is not among the %d in the heap", it, len(in))
				}
				delete(in, it.ID)
				w := heap.Pop(ref).(hItem)
				if less(w, it) || less(it, w) {
					return pbt.Errf("pop returned %+v from a heap of %d, but %+v orders before it", it, len(in)+1, w)
				}
				return nil
			}
			for i := n0; i < p.N; i++ {
				push(i)
			}
			for k := 0; k < 3; k++ {
				for i := r.IntN(len(in) + 1); i > 0; i-- {
					if err := pop(); err != nil {
						return err
					}
				}
				for i := r.IntN(p.N); i > 0; i-- {
					push(i)
				}
			}
			for len(in) > 0 {
				if err := pop(); err != nil {
					return err
				}
			}
			return nil
		},
	})
}

// ---- C11 --------------------------------------------------------------------

func TestC11_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[largePlan]{
		Rule:  "lists of 33..20000 elements pushed at either end, 40 random moves, inserts and removals, bulk pushes of another list of up to 20000 and of itself, re-initialisation, all against a slice of handles" + largeRule,
		Cases: 30,
		Gen:   genLarge(20000),
		Run: func(c *pbt.Ctx, p largePlan) error {
			p.size(c)
			r := pbt.Rand(p.Seed)
			l, other := glist.New[int](), new(glist.List[int])
			var m []*glist.Element[int]
			vals := map[*glist.Element[int]]int{}
			same := func(what string, l *glist.List[int], m []*glist.Element[int]) error {
				if l.Len() != len(m) {
					return pbt.Errf("%s: Len %d, want %d", what, l.Len(), len(m))
				}
				i := 0
				for e := l.Front(); e != nil; e = e.Next() {
					if i >= len(m) || m[i] != nil && (m[i] != e || e.Value != vals[e]) {
						return pbt.Errf("%s: element %d of %d differs going forward", what, i, len(m))
					}
					i++
				}
				j := len(m)
				for e := l.Back(); e != nil; e = e.Prev() {
					j--
					if j < 0 || m[j] != nil && m[j] != e {
						return pbt.Errf("%s: element %d of %d differs going back", what, j, len(m))
					}
				}
				k := 0
				l.Range(func(e *glist.Element[int]) { k++ })
				if i != len(m) || j != 0 || k != len(m) {
					return pbt.Errf("%s: %d elements going forward, %d back, %d in Range, want %d", what, i, len(m)-j, k, len(m))
				}
				return nil
			}
			reg := func(e *glist.Element[int], v int) *glist.Element[int] { vals[e] = v; return e }
			var front, back []*glist.Element[int]
			for i := range p.N {
				if p.Kind == 1 || p.Kind > 2 && r.IntN(2) == 0 {
					front = append(front, reg(l.PushFront(i), i))
				} else {
					back = append(back, reg(l.PushBack(i), i))
				}
			}
			slices.Reverse(front)
			m = append(front, back...)
			for i := range p.M {
				other.PushBack(i)
			}
			for step := 0; step < 40; step++ {
				i, j := r.IntN(len(m)), r.IntN(len(m))
				e, mark := m[i], m[j]
				op := r.IntN(7)
				switch op {
				case 0:
					l.MoveToFront(e)
					m = slices.Insert(slices.Delete(m, i, i+1), 0, e)
				case 1:
					l.MoveToBack(e)
					m = append(slices.Delete(m, i, i+1), e)
				case 2, 3:
					if e == mark {
						break
					}
					m = slices.Delete(m, i, i+1)
					at := slices.Index(m, mark)
					if op == 2 {
						l.MoveBefore(e, mark)
					} else {
						l.MoveAfter(e, mark)
						at++
					}
					m = slices.Insert(m, at, e)
				case 4:
					m = slices.Insert(m, j, reg(l.InsertBefore(step, mark), step))
				case 5:
					m = slices.Insert(m, j+1, reg(l.InsertAfter(step, mark), step))
				case 6:
					if len(m) > 1 {
						if v := l.Remove(e); v != any(vals[e]) {
							return pbt.Errf("Remove returned %v, want %v", v, vals[e])
						}
						m = slices.Delete(m, i, i+1)
					}
				}
			}
			if err := same("after moves", l, m); err != nil {
				return err
			}
			list := func(l *glist.List[int]) (out []int) {
				for e := l.Front(); e != nil; e = e.Next() {
					out = append(out, e.Value)
				}
				return
			}
			before, add := list(l), list(other)
			src := other
			if p.Kind%2 == 1 {
				src, add = l, before
			}
			pad := make([]*glist.Element[int], len(add))
			var want []int
			if p.Kind%4 < 2 {
				l.PushBackList(src)
				m, want = append(m, pad...), append(before, add...)
			} else {
				l.PushFrontList(src)
				m, want = append(pad, m...), append(slices.Clone(add), before...)
			}
			if err := same("after a bulk push", l, m); err != nil {
				return err
			}
			if got := list(l); !slices.Equal(got, want) {
				return pbt.Errf("a bulk push of %d elements (kind %d) to %d gave the wrong values", len(add), p.Kind%4, len(before))
			}
			if src == other && (other.Len() != len(add) || !slices.Equal(list(other), add)) {
				return pbt.Errf("a bulk push changed its source of %d elements", len(add))
			}
			l.Init()
			if l.Len() != 0 || l.Front() != nil || l.Back() != nil {
				return pbt.Errf("Init leaves elements")
			}
			l.PushBack(1)
			if l.Len() != 1 || l.Front().Value != 1 || l.Front() != l.Back() || l.Front().Next() != nil {
				return pbt.Errf("a list is unusable after Init")
			}
			return nil
		},
	})
}

// ---- C12 --------------------------------------------------------------------

func TestC12_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[largePlan]{
		Rule:  "two rings of 33..20000 elements: moves by up to three times the length either way, unlinking of any number, linking within and between rings, each ring walked in full after every step" + largeRule,
		Cases: 30,
		Gen:   genLarge(20000),
		Run: func(c *pbt.Ctx, p largePlan) error {
			p.size(c)
			r := pbt.Rand(p.Seed)
			type ring = []*gring.Ring[int]
			make_ := func(n int) ring {
				e := gring.New[int](n)
				m := make(ring, n)
				for i := range m {
					m[i] = e
					e.Value = i
					e = e.Next()
				}
				return m
			}
			same := func(what string, m ring) error {
				n := len(m)
				for i, e := range m {
					if e.Next() != m[(i+1)%n] || e.Prev() != m[(i+n-1)%n] {
						return pbt.Errf("%s: the ring of %d is wrong around element %d", what, n, i)
					}
				}
				if got := m[0].Len(); got != n {
					return pbt.Errf("%s: Len %d, want %d", what, got, n)
				}
				i := 0
				bad := false
				m[0].Do(func(v any) { bad = bad || i >= n || v != any(m[i].Value); i++ })
				if bad || i != n {
					return pbt.Errf("%s: Do visits %d elements of %d, or others", what, i, n)
				}
				return nil
			}
			rot := func(m ring, k int) ring { return append(slices.Clone(m[k:]), m[:k]...) }
			rings := []ring{make_(p.N), make_(p.M)}
			for i, m := range rings {
				if err := same(fmt.Sprint("new ring ", i), m); err != nil {
					return err
				}
			}
			for step := 0; step < 8; step++ {
				k := r.IntN(len(rings))
				m := rot(rings[k], r.IntN(len(rings[k])))
				n := len(m)
				x := r.IntN(6*n+1) - 3*n
				if r.IntN(3) == 0 {
					x = []int{0, 1, n - 1, n, n + 1, -1, -n, -n - 1, 2 * n}[r.IntN(9)]
				}
				var what string
				switch r.IntN(4) {
				case 0:
					what = fmt.Sprintf("Move(%d) in a ring of %d", x, n)
					if got := m[0].Move(x); got != m[((x%n)+n)%n] {
						return pbt.Errf("%s is wrong", what)
					}
				case 1:
					what = fmt.Sprintf("Unlink(%d) in a ring of %d", x, n)
					got := m[0].Unlink(x)
					u := ((x % n) + n) % n
					if x <= 0 {
						u = 0
						if got != nil {
							return pbt.Errf("%s returned a ring", what)
						}
					}
					if u > 0 {
						rem := slices.Clone(m[1 : 1+u])
						if got != rem[0] {
							return pbt.Errf("%s returned the wrong element", what)
						}
						m = append(ring{m[0]}, m[1+u:]...)
						rings = append(rings, rem)
					}
				case 2: // within one ring
					j := r.IntN(n)
					what = fmt.Sprintf("Link to the element %d ahead in a ring of %d", j, n)
					got := m[0].Link(m[j])
					if got != m[1%n] {
						return pbt.Errf("%s returned the wrong element", what)
					}
					switch {
					case j == 0 && n > 1:
						rings = append(rings, slices.Clone(m[1:]))
						m = m[:1]
					case j > 1:
						rings = append(rings, slices.Clone(m[1:j]))
						m = append(ring{m[0]}, m[j:]...)
					}
				default:
					k2 := r.IntN(len(rings))
					if k2 == k {
						continue
					}
					o := rot(rings[k2], r.IntN(len(rings[k2])))
					what = fmt.Sprintf("Link of rings of %d and %d", n, len(o))
					if got := m[0].Link(o[0]); got != m[1%n] {
						return pbt.Errf("%s returned the wrong element", what)
					}
					m = append(append(ring{m[0]}, o...), m[1:]...)
					rings[k] = m
					rings = slices.Delete(rings, k2, k2+1)
					if k2 < k {
						k--
					}
				}
				rings[k] = m
				for _, m := range rings {
					if err := same("after "+what, m); err != nil {
						return err
					}
				}
			}
			return nil
		},
	})
}

// ---- C13, C14 ---------------------------------------------------------------

func TestC13_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[largePlan]{
		Rule:  "queues of 33..50000 elements made from a slice or by pushing, phases of pops and pushes with peek-all between, then drained by pops or by iteration" + largeRule,
		Cases: 40,
		Gen:   genLarge(50000),
		Run: func(c *pbt.Ctx, p largePlan) error {
			p.size(c)
			r := pbt.Rand(p.Seed)
			var m []int
			next := 0
			add := func() int { next++; m = append(m, next); return next }
			var q *gqueue.Queue[int]
			if p.Kind%2 == 0 {
				in := make([]int, p.N)
				for i := range in {
					in[i] = add()
				}
				q = gqueue.Gen(in)
				for i := range in {
					in[i] = -1
				}
			} else {
				q = gqueue.New[int]()
				for range p.N {
					if err := q.Push(add()); err != nil {
						return pbt.Errf("Push: %v", err)
					}
				}
			}
			for k := 0; k < 4; k++ {
				if q.Len() != len(m) || gqueue.IsEmpty(q) != (len(m) == 0) {
					return pbt.Errf("Len %d, want %d", q.Len(), len(m))
				}
				all := gqueue.PeekAll(q)
				if !slices.Equal(all, m) {
					return pbt.Errf("PeekAll of %d elements differs (%d)", len(m), len(all))
				}
				for i := r.IntN(len(m) + 1); i > 0; i-- {
					pk, perr := gqueue.Peek(q)
					v, err := q.Pop()
					if err != nil || perr != nil || v != m[0] || pk != v {
						return pbt.Errf("Pop = %d, %v, Peek = %d, %v, want %d of %d", v, err, pk, perr, m[0], len(m))
					}
					m = m[1:]
				}
				for i := r.IntN(p.M); i > 0; i-- {
					_ = q.Push(add())
				}
			}
			if p.Kind%4 < 2 {
				var got []int
				for v := range gqueue.Iterator(q) {
					got = append(got, v)
				}
				if !slices.Equal(got, m) {
					return pbt.Errf("Iterator of %d elements yields %d or others", len(m), len(got))
				}
			} else {
				gqueue.Clear(q)
			}
			if q.Len() != 0 || !gqueue.IsEmpty(q) || len(gqueue.PeekAll(q)) != 0 {
				return pbt.Errf("the queue is not empty at the end: %d", q.Len())
			}
			if v, err := q.Pop(); v != 0 || err != gqueue.ErrorEmptyQueue {
				return pbt.Errf("Pop of an empty queue = %v, %v", v, err)
			}
			_ = q.Push(5)
			if v, err := q.Pop(); v != 5 || err != nil {
				return pbt.Errf("Pop after emptying = %v, %v", v, err)
			}
			return nil
		},
	})
}

func TestC14_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[largePlan]{
		Rule:  "sets of 33..50000 members added and removed in phases, listed and asked for every one" + largeRule,
		Cases: 40,
		Gen:   genLarge(50000),
		Run: func(c *pbt.Ctx, p largePlan) error {
			p.size(c)
			r := pbt.Rand(p.Seed)
			s := gset.NewSet[int]()
			if p.Kind%2 == 1 {
				s = gset.NewSetWithSize[int](p.M)
			}
			m := map[int]bool{}
			for phase := 0; phase < 3; phase++ {
				for i := range p.N {
					k := series(p.Kind%7, r, i, p.N)
					if phase == 1 && r.IntN(2) == 0 {
						gset.Remove(s, k)
						delete(m, k)
					} else {
						gset.Add(s, k)
						m[k] = true
					}
				}
				if gset.Len(s) != len(m) {
					return pbt.Errf("Len %d, want %d", gset.Len(s), len(m))
				}
				items := gset.Items(s)
				seen := map[int]bool{}
				for _, x := range items {
					if seen[x] || !m[x] {
						return pbt.Errf("Items of %d lists %d wrongly", len(m), x)
					}
					seen[x] = true
					if !gset.Contains(s, x) || gset.Contains(s, x+(1<<29)) {
						return pbt.Errf("Contains is wrong for %d", x)
					}
				}
				if len(items) != len(m) {
					return pbt.Errf("Items lists %d of %d", len(items), len(m))
				}
			}
			gset.Clear(s)
			if gset.Len(s) != 0 || len(gset.Items(s)) != 0 || gset.Contains(s, series(p.Kind%7, r, 0, p.N)) {
				return pbt.Errf("Clear leaves %d members", gset.Len(s))
			}
			return nil
		},
	})
}

// ---- C15, C16 ---------------------------------------------------------------

func TestC15_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[largePlan]{
		Rule:  "maps of 33..50000 entries, compared with copies that differ in no entry, one value, one key, or one entry more; entry lists with later duplicates" + largeRule,
		Cases: 40,
		Gen:   genLarge(50000),
		Run: func(c *pbt.Ctx, p largePlan) error {
			p.size(c)
			r := pbt.Rand(p.Seed)
			m := make(map[int]int, p.N)
			for i := range p.N {
				m[i*7] = r.IntN(100)
			}
			keys, vals := gmap.Keys(m), gmap.Values(m)
			sum := make([]int, 100)
			for _, v := range m {
				sum[v]++
			}
			for _, v := range vals {
				sum[v]--
			}
			slices.Sort(keys)
			for i, k := range keys {
				if k != i*7 {
					return pbt.Errf("Keys of %d entries: %d at %d", len(m), k, i)
				}
			}
			if len(keys) != len(m) || len(vals) != len(m) || gmap.Len(m) != len(m) || slices.ContainsFunc(sum, func(x int) bool { return x != 0 }) {
				return pbt.Errf("Keys or Values of %d entries give %d and %d", len(m), len(keys), len(vals))
			}
			cp := gmap.Copy(m)
			odd := r.IntN(p.N) * 7
			if cp[odd] != m[odd] || !gmap.Contains(cp, odd) || gmap.Contains(cp, odd+1) {
				return pbt.Errf("a copy lacks key %d", odd)
			}
			es := gmap.Map2Entries(m)
			if len(es) != len(m) {
				return pbt.Errf("Map2Entries of %d gives %d", len(m), len(es))
			}
			es = append(es, gconstraints.Entry[int, int]{Key: odd, Value: 1000}, gconstraints.Entry[int, int]{Key: -1, Value: 5}, gconstraints.Entry[int, int]{Key: -1, Value: 6})
			back := gmap.Entries2Map(es)
			if len(back) != len(m)+1 || back[odd] != 1000 || back[-1] != 6 {
				return pbt.Errf("Entries2Map: %d entries of %d, %d, %d", len(back), len(m)+1, back[odd], back[-1])
			}
			delete(back, -1)
			back[odd] = m[odd]
			switch p.Kind % 4 {
			case 1:
				back[odd]++
			case 2:
				v := back[odd]
				delete(back, odd)
				back[odd+1] = v
			case 3:
				back[-7] = 0
			}
			eq := func(a, b int) bool { return a == b }
			for _, other := range []map[int]int{back, cp} {
				w := gmapSame(other, m)
				if gmap.Equal(m, other) != w || gmap.Equal(other, m) != w || gmap.EqualWithFunc(m, other, eq) != w || gmap.EqualWithFunc(other, m, eq) != w {
					return pbt.Errf("equality of maps of %d and %d entries that differ at %d (kind %d) is not %v", len(m), len(other), odd, p.Kind%4, w)
				}
			}
			cp[odd] = -1
			if m[odd] == -1 || len(m) != p.N {
				return pbt.Errf("a copy shares its entries")
			}
			gmap.Clear(cp)
			if len(cp) != 0 || len(m) != p.N {
				return pbt.Errf("Clear leaves %d entries", len(cp))
			}
			return nil
		},
	})
}

func gmapSame(a, b map[int]int) bool {
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return len(a) == len(b)
}

func TestC16_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[largePlan]{
		Rule:  "slices of 33..50000 elements: equal up to one place, sorted up to one place, a target at one place or none, duplicates, reversed, merged and shuffled, inside larger arrays" + largeRule,
		Cases: 60,
		Gen:   genLarge(50000),
		Run: func(c *pbt.Ctx, p largePlan) error {
			p.size(c)
			r := pbt.Rand(p.Seed)
			buf := make([]int, p.N+8)
			for i := range buf {
				buf[i] = series(p.Kind, r, i, p.N)
			}
			s := buf[3 : 3+p.N]
			keep := slices.Clone(buf)
			intact := func(what string) error {
				if !slices.Equal(buf, keep) {
					return pbt.Errf("%s of %d elements changes its argument or what lies behind it", what, p.N)
				}
				return nil
			}
			eq := func(a, b int) bool { return a == b }
			cp := gslice.Copy(s)
			if !slices.Equal(cp, s) || !gslice.Equal(cp, s) || !gslice.EqualWithFunc(cp, s, eq) {
				return pbt.Errf("Copy of %d elements differs", p.N)
			}
			at := r.IntN(p.N)
			old := cp[at]
			cp[at] = -1000000
			if gslice.Equal(cp, s) || gslice.Equal(s, cp) || gslice.EqualWithFunc(cp, s, eq) || gslice.Equal(s, s[:p.N-1]) {
				return pbt.Errf("slices of %d elements that differ at %d are equal", p.N, at)
			}
			if i, j := gslice.Index(cp, -1000000), gslice.IndexWithFunc(cp, func(x int) bool { return x == -1000000 }); i != at || j != at {
				return pbt.Errf("Index %d, IndexWithFunc %d, want %d of %d", i, j, at, p.N)
			}
			if i, w := gslice.Index(s, old), slices.Index(s, old); i != w {
				return pbt.Errf("Index %d, want %d of %d", i, w, p.N)
			}
			if i := gslice.Index(s, -1000000); i != -1 || gslice.Contains(s, -1000000) || !gslice.Contains(cp, -1000000) || !gslice.ContainsWithFunc(s, func(x int) bool { return x == old }) {
				return pbt.Errf("containment in %d elements is wrong (%d)", p.N, i)
			}
			var uniq []int
			seen := map[int]bool{}
			for _, x := range s {
				if !seen[x] {
					seen[x] = true
					uniq = append(uniq, x)
				}
			}
			u, n := gslice.Unique(s)
			u2, n2 := gslice.UniqueWithFunc(s, func(x int) int { return x })
			if n != len(uniq) || n2 != n || !slices.Equal(u, uniq) || !slices.Equal(u2, uniq) {
				return pbt.Errf("Unique of %d elements gives %d and %d, want %d", p.N, n, n2, len(uniq))
			}
			mg := gslice.Merge(s, cp)
			if len(mg) != 2*p.N || !slices.Equal(mg[:p.N], s) || !slices.Equal(mg[p.N:], cp) {
				return pbt.Errf("Merge of %d elements is wrong", p.N)
			}
			lt := func(a, b int) bool { return a < b }
			so := slices.Clone(s)
			slices.Sort(so)
			for _, x := range [][]int{s, so} {
				w := slices.IsSorted(x)
				if gslice.IsSorted(x) != w || gslice.IsSortedFunc(x, lt) != w {
					return pbt.Errf("IsSorted of %d elements is not %v", p.N, w)
				}
			}
			so[at] -= 1000000
			if w := at == 0; gslice.IsSorted(so) != w || gslice.IsSortedFunc(so, lt) != w {
				return pbt.Errf("IsSorted of %d elements with a fall at %d is not %v", p.N, at, w)
			}
			if err := intact("a reading function"); err != nil {
				return err
			}
			rev := gslice.Reverse(s)
			slices.Reverse(keep[3 : 3+p.N])
			if err := intact("Reverse"); err != nil {
				return err
			}
			if len(rev) != p.N || &rev[0] != &s[0] {
				return pbt.Errf("Reverse does not return its argument")
			}
			sh := gslice.Shuffle(s)
			if len(sh) != p.N || &sh[0] != &s[0] {
				return pbt.Errf("Shuffle does not return its argument")
			}
			if !slices.Equal(buf[:3], keep[:3]) || !slices.Equal(buf[3+p.N:], keep[3+p.N:]) {
				return pbt.Errf("Shuffle of %d elements writes outside", p.N)
			}
			a, b := slices.Clone(s), slices.Clone(keep[3:3+p.N])
			slices.Sort(a)
			slices.Sort(b)
			if !slices.Equal(a, b) {
				return pbt.Errf("Shuffle of %d elements is no permutation", p.N)
			}
			return nil
		},
	})
}

// ---- C17 --------------------------------------------------------------------

func TestC17_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[largePlan]{
		Rule:  "collections of 33..50000 elements whose extremes lie at one or two random places or anywhere" + largeRule,
		Cases: 60,
		Gen:   genLarge(50000),
		Run: func(c *pbt.Ctx, p largePlan) error {
			p.size(c)
			r := pbt.Rand(p.Seed)
			s := make([]int, p.N)
			for i := range s {
				s[i] = series(p.Kind, r, i, p.N)
			}
			if p.Seed%2 == 0 {
				v, w := 1000000, -1000000
				s[r.IntN(p.N)], s[r.IntN(p.N)] = v, w
				if p.Seed%4 == 0 {
					s[r.IntN(p.N)], s[r.IntN(p.N)] = v, w
				}
			}
			keep := slices.Clone(s)
			lo, hi := slices.Min(s), slices.Max(s)
			if g := gnumerics.MaxCollection(s); g != hi {
				return pbt.Errf("MaxCollection of %d elements = %d, want %d", p.N, g, hi)
			}
			if g := gnumerics.MinCollection(s); g != lo {
				return pbt.Errf("MinCollection of %d elements = %d, want %d", p.N, g, lo)
			}
			tg := make([]tagged, p.N)
			fl := make([]float64, p.N)
			for i, x := range s {
				tg[i] = tagged{int64(x), i}
				fl[i] = float64(x) / 3
			}
			if g, w := gnumerics.MaxBy(tg, func(a, b tagged) bool { return a.V > b.V }), slices.Index(s, hi); g != tg[w] {
				return pbt.Errf("MaxBy of %d elements = %+v, want the first at %d", p.N, g, w)
			}
			if g, w := gnumerics.MinBy(tg, func(a, b tagged) bool { return a.V < b.V }), slices.Index(s, lo); g != tg[w] {
				return pbt.Errf("MinBy of %d elements = %+v, want the first at %d", p.N, g, w)
			}
			if a, b := gnumerics.MaxCollection(fl), gnumerics.MinCollection(fl); a != slices.Max(fl) || b != slices.Min(fl) {
				return pbt.Errf("extremes of %d floats: %v, %v", p.N, a, b)
			}
			if !slices.Equal(s, keep) {
				return pbt.Errf("the input of %d elements was modified", p.N)
			}
			return nil
		},
	})
}
