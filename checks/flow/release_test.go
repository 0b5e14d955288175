package flow

import (
	"context"
	"errors"
	"runtime"
	"slices"
	"sync"
	"testing"
	"time"
	"weak"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/mr"
	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gring"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gset"
	rbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"github.com/miniLCT/gosb/library/cachex"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// ---- C50: what is removed is released ---------------------------------------------

type thing struct {
	id  int
	ref *int
	pad [5]int
}

func (x *thing) Error() string { return "thing" }

type relOp struct {
	Op string // add, take (the oldest), drop (any), again (overwrite), look, clear
	At int
}

type relPlan struct {
	Kind  string
	Width int // at most so many at a time
	Ops   []relOp
	Loops int // the operations are repeated
}

// herd makes things and remembers them weakly.
type herd struct {
	all  []weak.Pointer[thing]
	peak int
}

func (h *herd) make() *thing {
	x := &thing{id: len(h.all), ref: new(int)}
	h.all = append(h.all, weak.Make(x))
	return x
}

// herdSafe is a herd for several goroutines.
type herdSafe struct {
	mu sync.Mutex
	herd
}

func (h *herdSafe) make() *thing {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.herd.make()
}

func (h *herd) reachable() int {
	runtime.GC()
	n := 0
	for _, w := range h.all {
		if w.Value() != nil {
			n++
		}
	}
	return n
}

// a store is a container under test; keys are numbers chosen by the history
type store struct {
	add   func(k int, x *thing)
	drop  func(k int)    // nil: only the container knows what leaves
	take  func() (k int) // removes the one the container chooses; nil: none
	again func(k int, x *thing)
	look  func(k int)
	clear func()
	hold  any
}

func newStore(kind string, width int) store {
	ctx := context.Background()
	switch kind {
	case "queue":
		q := gqueue.New[*thing]()
		var keys []int
		return store{hold: q,
			add: func(k int, x *thing) { _ = q.Push(x); keys = append(keys, k) },
			take: func() int {
				_, _ = q.Pop()
				k := keys[0]
				keys = slices.Delete(keys, 0, 1)
				return k
			},
			look:  func(int) { _, _ = gqueue.Peek(q); _ = gqueue.PeekAll(q) },
			clear: func() { gqueue.Clear(q); keys = nil }}
	case "heap":
		h := gheap.New(func(a, b *entry) bool { return a.k*7919%31 < b.k*7919%31 })
		return store{hold: h,
			add:  func(k int, x *thing) { gheap.Push(h, &entry{k, x}) },
			take: func() int { return gheap.Pop(h).k }}
	case "list":
		l := glist.New[*thing]()
		es := map[int]*glist.Element[*thing]{}
		return store{hold: l,
			add: func(k int, x *thing) {
				if e := l.Front(); e != nil && k%3 == 0 {
					es[k] = l.InsertAfter(x, e)
				} else {
					es[k] = l.PushBack(x)
				}
			},
			drop: func(k int) { l.Remove(es[k]); delete(es, k) },
			look: func(k int) {
				l.MoveToFront(es[k])
				c := glist.New[*thing]()
				c.PushBackList(l)
			},
			clear: func() { l.Init(); clear(es) }}
	case "list held":
		// the caller holds on to a few elements that it removed
		l := glist.New[*thing]()
		es := map[int]*glist.Element[*thing]{}
		var held []*glist.Element[*thing]
		return store{hold: []any{l, &held},
			add: func(k int, x *thing) {
				switch e := l.Back(); {
				case k%3 == 0 && e != nil:
					es[k] = l.InsertBefore(x, e)
				case k%3 == 1:
					es[k] = l.PushFront(x)
				default:
					es[k] = l.PushBack(x)
				}
			},
			drop: func(k int) {
				if l.Remove(es[k]); len(held) < 3 {
					held = append(held, es[k])
				}
				delete(es, k)
			},
			look: func(k int) { l.MoveToBack(es[k]) }}
	case "ring":
		var r *gring.Ring[*entry]
		var n int
		return store{
			add: func(k int, x *thing) {
				e := gring.New[*entry](1)
				e.Value = &entry{k, x}
				if n == 0 {
					r = e
				} else {
					r.Link(e)
				}
				n++
			},
			take: func() int {
				n--
				if n == 0 {
					k := r.Value.k
					r = nil
					return k
				}
				return r.Unlink(1).Value.k
			},
			look: func(k int) {
				if r != nil {
					r = r.Move(k%5 - 2)
				}
			}}
	case "set":
		s := gset.NewSet[*thing]()
		at := map[int]*thing{}
		return store{hold: s,
			add:   func(k int, x *thing) { gset.Add(s, x); at[k] = x },
			drop:  func(k int) { gset.Remove(s, at[k]); delete(at, k) },
			look:  func(k int) { gset.Contains(s, at[k]); _ = gset.Items(s) },
			clear: func() { gset.Clear(s); clear(at) }}
	case "skiplist":
		s := gskiplist.New[int, *thing]()
		return store{hold: s,
			add:   func(k int, x *thing) { s.Insert(k, x) },
			drop:  func(k int) { s.Delete(k) },
			again: func(k int, x *thing) { s.ChangeValue(k, x) },
			look:  func(k int) { s.Find(k); s.FindGreaterOrEqual(k) }}
	case "rbt", "rbt pointer keys":
		t := rbt.New[*entry, *thing](func(a, b *entry) bool { return a.k < b.k })
		at := map[int]*entry{} // keys are pointers and compared as such
		put := func(k int, x *thing) {
			e := &entry{k, nil}
			if kind != "rbt" {
				e.x = x
			}
			if at[k] == nil {
				at[k] = e
			}
			t.Insert(at[k], x)
		}
		drop := func(k int) { t.Delete(at[k]); delete(at, k) }
		return store{hold: t,
			add:  put,
			drop: drop,
			again: func(k int, x *thing) {
				if kind == "rbt" {
					put(k, x)
					return
				}
				drop(k)
				put(k, x)
			},
			look: func(k int) {
				t.Search(at[k])
				if k%4 == 0 { // cut out and put back
					s := t.LeftSubTree(at[k], true)
					for _, p := range s.Nodes() {
						e, x := p.Unpack()
						t.Delete(e)
						t.Insert(e, x)
					}
				}
			},
			clear: func() { t.Clear(); clear(at) }}
	case "lru expired", "lru used up":
		uses, ttl := 0, -time.Second
		if kind == "lru used up" {
			uses, ttl = 1, time.Hour
		}
		c := cachex.NewLRUCacheV2[int, *thing](width, uses)
		return store{hold: c,
			add:   func(k int, x *thing) { _ = c.Set(ctx, k, x, ttl) },
			again: func(k int, x *thing) { _ = c.Set(ctx, k, x, ttl) },
			look:  func(k int) { _, _, _ = c.MGet(ctx, k+1, k+2) },
			drop: func(k int) {
				_, _, _ = c.Get(ctx, k)
				if uses > 0 {
					_, _, _ = c.MGet(ctx, k)
				}
			}}
	case "lru", "lru uses":
		uses := 0
		if kind == "lru uses" {
			uses = 2
		}
		c := cachex.NewLRUCacheV2[int, *thing](width, uses)
		return store{hold: c,
			add:   func(k int, x *thing) { _ = c.Set(ctx, k, x, time.Hour) },
			again: func(k int, x *thing) { _ = c.MSet(ctx, map[int]*thing{k: x}, time.Hour) },
			look:  func(k int) { _, _, _ = c.Get(ctx, k) },
			drop:  func(k int) { _ = c.Delete(ctx, k) }}
	case "lru keys":
		c := cachex.NewLRUCacheV2[*thing, int](width, 0)
		at := map[int]weak.Pointer[thing]{}
		return store{hold: c,
			add:  func(k int, x *thing) { _ = c.Set(ctx, x, k, time.Hour); at[k] = weak.Make(x) },
			look: func(k int) { _, _, _ = c.Get(ctx, at[k].Value()) },
			drop: func(k int) { _ = c.Delete(ctx, at[k].Value()) }}
	case "map":
		m := new(gsync.Map[int, *thing])
		return store{hold: m,
			add:   func(k int, x *thing) { m.LoadOrStore(k, x) },
			drop:  func(k int) { m.LoadAndDelete(k) },
			again: func(k int, x *thing) { m.Swap(k, x) },
			look:  func(k int) { m.Load(k); m.Range(func(int, *thing) bool { return k%2 == 0 }) }}
	case "map keys":
		m := new(gsync.Map[*thing, int])
		at := map[int]*thing{}
		return store{hold: m,
			add:  func(k int, x *thing) { m.Store(x, k); at[k] = x },
			drop: func(k int) { m.Delete(at[k]); delete(at, k) },
			look: func(k int) { m.Load(at[k]); m.Load(nil) }}
	case "error":
		e := new(gconstraints.AtomicError)
		n := 0
		return store{hold: e,
			add:  func(k int, x *thing) { e.Set(x); n = k },
			take: func() int { e.Set(errors.New("none")); return n },
			look: func(int) { _ = e.Load() }}
	}
	panic("harness: " + kind)
}

type entry struct {
	k int
	x *thing
}

func runRelease(c *pbt.Ctx, p relPlan) error {
	s := newStore(p.Kind, p.Width)
	h := &herd{}
	width := p.Width
	if p.Kind == "error" {
		width = 1
	}
	live := []int{}
	next := 0
	leave := func(k int) {
		if i := slices.Index(live, k); i >= 0 {
			live = slices.Delete(live, i, i+1)
		}
	}
	removed := 0
	step := func(o relOp) {
		if o.Op == "add" && len(live) >= width {
			o.Op = "drop"
		}
		if len(live) == 0 && o.Op != "clear" {
			o.Op = "add"
		}
		switch o.Op {
		case "add":
			k := next
			next++
			s.add(k, h.make())
			live = append(live, k)
		case "drop", "take":
			k := live[o.At%len(live)]
			if s.drop != nil {
				s.drop(k)
			} else {
				k = s.take()
			}
			removed++
			leave(k)
		case "again":
			if s.again != nil {
				s.again(live[o.At%len(live)], h.make())
				removed++
			}
		case "look":
			if s.look != nil {
				s.look(live[o.At%len(live)])
			}
		case "clear":
			if s.clear != nil {
				s.clear()
				removed += len(live)
				live = live[:0]
			}
		}
		h.peak = max(h.peak, len(live))
	}
	for range p.Loops {
		for _, o := range p.Ops {
			step(o)
		}
	}
	n := h.reachable()
	if limit := 4*h.peak + 16; n > limit {
		return pbt.Errf("%s: %d of %d values are still reachable, although at most %d were in it at a time", p.Kind, n, len(h.all), h.peak)
	}
	runtime.KeepAlive(s)
	c.Label(p.Kind)
	if removed > 8*h.peak+32 {
		c.NonTrivial()
	}
	return nil
}

func TestC50_Release(t *testing.T) {
	kinds := []string{"queue", "heap", "list", "list held", "ring", "set", "skiplist", "rbt", "rbt pointer keys", "lru", "lru uses", "lru expired", "lru used up", "lru keys", "map", "map keys", "error"}
	pbt.Check(t, pbt.Prop[relPlan]{
		Rule: "a container, list (also one of whose removed elements the caller keeps some), tree, cache, map or error holder with up to 12 values at a time through several hundred additions, removals of every kind, overwritings, lookups and clearings; afterwards, collected garbage tells that no more values are reachable than four times the largest number it held (plus 16); " +
			"non-trivial: so many values left that a leak of them all would show",
		Cases: 300,
		Gen: func(t *rapid.T) relPlan {
			p := relPlan{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Width: rapid.SampledFrom([]int{1, 2, 3, 5, 8, 12}).Draw(t, "width")}
			bias := rapid.SampledFrom([][]string{{"add", "drop"}, {"add", "drop", "look"}, {"add", "again", "again", "drop"}, {"add", "add", "again", "look", "drop", "clear"}}).Draw(t, "bias")
			p.Ops = pbt.Ops(t, 60, func(t *rapid.T) relOp {
				return relOp{rapid.SampledFrom(bias).Draw(t, "op"), rapid.IntRange(0, 20).Draw(t, "at")}
			})
			p.Loops = rapid.IntRange(1, 40).Draw(t, "loops")
			return p
		},
		Run: runRelease,
	})
}

type relMRPlan struct {
	Mode    string
	Workers int
	Items   int
	Fan     int
}

// Long streams must not pile up: what was mapped and read is free to go.
func TestC50_Streams(t *testing.T) {
	pbt.Check(t, pbt.Prop[relMRPlan]{
		Rule: "a map-reduce call over up to 600 values, 1..8 workers, up to three results each; when the last value is asked for, and after the call, only as many are reachable as can be under way; " +
			"non-trivial: at least 100 values",
		Cases: 60,
		Gen: func(t *rapid.T) relMRPlan {
			return relMRPlan{rapid.SampledFrom([]string{"mapreduce", "chan", "void", "foreach"}).Draw(t, "mode"), rapid.IntRange(1, 8).Draw(t, "workers"), rapid.IntRange(1, 600).Draw(t, "items"), rapid.IntRange(0, 3).Draw(t, "fan")}
		},
		Run: func(c *pbt.Ctx, p relMRPlan) error {
			in, out := &herd{}, make(chan int, 1)
			var outs herdSafe
			generate := func(source chan<- *thing) {
				for range p.Items {
					source <- in.make()
				}
				// the mappers may still be at work on what was taken last
				out <- in.reachable()
			}
			mapper := func(x *thing, w mr.Writer[*thing], cancel func(error)) {
				for range p.Fan {
					w.Write(outs.make())
				}
			}
			reducer := func(pipe <-chan *thing, w mr.Writer[int], cancel func(error)) {
				for range pipe {
				}
				w.Write(1)
			}
			opt := mr.WithWorkers(p.Workers)
			switch p.Mode {
			case "mapreduce":
				_, _ = mr.MapReduce(generate, mapper, reducer, opt)
			case "chan":
				source := make(chan *thing)
				go func() { defer close(source); generate(source) }()
				_, _ = mr.MapReduceChan(source, mapper, reducer, opt)
			case "void":
				_ = mr.MapReduceVoid(generate, mapper, func(pipe <-chan *thing, cancel func(error)) {
					for range pipe {
					}
				}, opt)
			case "foreach":
				mr.ForEach(generate, func(*thing) {}, opt)
			}
			if n := <-out; n > 6*p.Workers+24 {
				return pbt.Errf("%s: %d of %d items are still reachable after all were taken by %d workers", p.Mode, n, p.Items, p.Workers)
			}
			for try := 0; ; try++ {
				a, b := in.reachable(), outs.reachable()
				if a <= 16 && b <= 16 {
					break
				}
				if try == 20 {
					return pbt.Errf("%s: %d of %d items and %d results are reachable after the call", p.Mode, a, p.Items, b)
				}
				time.Sleep(10 * time.Millisecond)
			}
			c.Label(p.Mode)
			if p.Items >= 100 {
				c.NonTrivial()
			}
			return nil
		},
	})
}
