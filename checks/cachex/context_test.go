package cachex

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"slices"
	"testing"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// ---- C53: contexts and arguments ------------------------------------------------

type ctxOp struct {
	Op   string
	Keys []int
	Ctx  string
	Many int // keys 0 .. Many-1 follow
}

type ctxPlan struct {
	Top    string   // "lru", "file", "none", "chain"
	Levels []string // of a chain
	Go     bool     // ContinueOnReadErr
	Ops    []ctxOp
}

type ctxKey struct{}

// ctxLevel is a level that looks at the contexts it is given.
type ctxLevel struct {
	m      map[int]int
	honour bool // refuses calls whose context has ended
	seen   []context.Context
	calls  int
}

func (l *ctxLevel) enter(ctx context.Context) error {
	l.seen = append(l.seen, ctx)
	l.calls++
	if l.honour {
		return ctx.Err()
	}
	return nil
}

func (l *ctxLevel) Get(ctx context.Context, k int) (int, bool, error) {
	if err := l.enter(ctx); err != nil {
		return 0, false, err
	}
	v, ok := l.m[k]
	return v, ok, nil
}

func (l *ctxLevel) MGet(ctx context.Context, keys ...int) ([]int, []bool, error) {
	if err := l.enter(ctx); err != nil {
		return nil, nil, err
	}
	vs, oks := make([]int, len(keys)), make([]bool, len(keys))
	for i, k := range keys {
		vs[i], oks[i] = l.m[k], l.m[k] != 0
	}
	return vs, oks, nil
}

func (l *ctxLevel) Set(ctx context.Context, k, v int, _ time.Duration) error {
	if err := l.enter(ctx); err != nil {
		return err
	}
	l.m[k] = v
	return nil
}

func (l *ctxLevel) MSet(ctx context.Context, kvs map[int]int, _ time.Duration) error {
	if err := l.enter(ctx); err != nil {
		return err
	}
	maps.Copy(l.m, kvs)
	return nil
}

func (l *ctxLevel) Delete(ctx context.Context, keys ...int) error {
	if err := l.enter(ctx); err != nil {
		return err
	}
	for _, k := range keys {
		delete(l.m, k)
	}
	return nil
}

func TestC53_Contexts(t *testing.T) {
	ctxKinds := []string{"background", "value", "cancelable", "deadline", "cancelled", "cancelled", "late", "cancelled value"}
	pbt.Check(t, pbt.Prop[ctxPlan]{
		Rule: "up to 30 single calls and batch calls of up to 60 (one in 80: up to 2500) keys, some through the helper, on an LRU cache, a file cache, the empty cache or a chain of up to four levels (LRU, file, empty, a nested chain, levels that look at their context, some of which refuse ended ones), each call with its own context: plain, with a value, cancelable, with a deadline, cancelled, past its deadline; arguments with spare room behind them, altered after the call; " +
			"oracle: a map with doubt for the plain caches (no error: full effect; an error only if the context had ended), the value, deadline and end of the contexts the levels saw, contents of all levels after writes, arguments unchanged; non-trivial: a call under an ended context and one under a context with a value that a level saw, or a plain cache under an ended one",
		Cases: 2500,
		Gen: func(t *rapid.T) ctxPlan {
			p := ctxPlan{Top: rapid.SampledFrom([]string{"lru", "file", "none", "chain", "chain", "chain"}).Draw(t, "top"), Go: rapid.Bool().Draw(t, "go")}
			if p.Top == "chain" {
				p.Levels = rapid.SliceOfN(rapid.SampledFrom([]string{"lru", "file", "none", "nested", "watch", "watch", "honour"}), 1, 4).Draw(t, "levels")
			}
			p.Ops = pbt.Ops(t, 30, func(t *rapid.T) ctxOp {
				o := ctxOp{Op: rapid.SampledFrom([]string{"get", "get", "set", "set", "mget", "helper", "mset", "mset", "delete"}).Draw(t, "op"), Ctx: rapid.SampledFrom(ctxKinds).Draw(t, "ctx")}
				n, width := 1, 7
				if o.Op != "get" && o.Op != "set" {
					n = rapid.IntRange(1, 5).Draw(t, "n")
					if rapid.IntRange(0, 11).Draw(t, "many") == 11 {
						n, width = rapid.IntRange(6, 60).Draw(t, "n"), 63
					}
				}
				for range n {
					o.Keys = append(o.Keys, rapid.IntRange(0, width).Draw(t, "k"))
				}
				if o.Op != "get" && o.Op != "set" && rapid.IntRange(0, 79).Draw(t, "huge") == 79 {
					o.Many = rapid.IntRange(100, 2500).Draw(t, "huge.n")
				}
				return o
			})
			return p
		},
		Run: func(c *pbt.Ctx, p ctxPlan) error {
			return pbt.Bubble(t, func() error { return runContexts(c, p) })
		},
	})
}

func runContexts(c *pbt.Ctx, p ctxPlan) error {
	base, done := pbt.Scratch()
	defer done()
	var watch []*ctxLevel
	var leaves []cachex.Cache[int, int] // that keep what is written
	dirs := 0
	var make1 func(kind string) cachex.Cache[int, int]
	make1 = func(kind string) cachex.Cache[int, int] {
		var l cachex.Cache[int, int]
		switch kind {
		case "lru":
			l = cachex.NewLRUCacheV2[int, int](5000, 0)
		case "file":
			dirs++
			l = &cachex.FileStore[int, int]{Dir: fmt.Sprintf("%s/%d", base, dirs), GCCycle: time.Hour}
		case "none":
			return &cachex.NoCache[int, int]{}
		case "nested":
			in := &cachex.Chain[int, int]{ContinueOnReadErr: p.Go}
			for _, k := range []string{"watch", "lru"} {
				in.Caches = append(in.Caches, &cachex.ChainItem[int, int]{Cache: make1(k), TTL: 1000 * time.Hour})
			}
			return in
		default:
			w := &ctxLevel{m: map[int]int{}, honour: kind == "honour"}
			watch = append(watch, w)
			l = w
		}
		leaves = append(leaves, l)
		return l
	}
	var top cachex.Cache[int, int]
	if p.Top == "chain" {
		ch := &cachex.Chain[int, int]{ContinueOnReadErr: p.Go}
		for _, k := range p.Levels {
			ch.Caches = append(ch.Caches, &cachex.ChainItem[int, int]{Cache: make1(k), TTL: 1000 * time.Hour})
		}
		top = ch
	} else {
		top = make1(p.Top)
	}
	// what a plain cache may hold for a key; 0: nothing
	may := map[int][]int{}
	for k := range 2500 {
		may[k] = []int{0}
	}
	ever := map[int]map[int]bool{}
	gen := 0
	endedSeen, valueSeen := false, false
	for n, o := range p.Ops {
		o.Keys = slices.Clone(o.Keys)
		for k := range o.Many {
			o.Keys = append(o.Keys, k)
		}
		time.Sleep(time.Millisecond)
		cx, cancel := context.Background(), context.CancelFunc(nil)
		token := 0
		if o.Ctx == "value" || o.Ctx == "cancelled value" {
			token = n + 1
			cx = context.WithValue(cx, ctxKey{}, token)
		}
		switch o.Ctx {
		case "cancelable", "cancelled", "cancelled value":
			cx, cancel = context.WithCancel(cx)
		case "deadline":
			cx, cancel = context.WithTimeout(cx, time.Hour)
		case "late":
			cx, cancel = context.WithTimeout(cx, -time.Hour)
		}
		if o.Ctx == "cancelled" || o.Ctx == "cancelled value" {
			cancel()
		}
		ended := cx.Err() != nil
		for _, w := range watch {
			w.seen = nil
		}
		room := append(slices.Clone(o.Keys), 900, 901, 902)
		keys := room[:len(o.Keys)]
		kvs := map[int]int{}
		what := fmt.Sprintf("op %d %s %v +%d (context: %s)", n, o.Op, o.Keys[:len(o.Keys)-o.Many], o.Many, o.Ctx)
		var err error
		got := func(k, v int, ok bool) error {
			if ok && !ever[k][v] || !ok && v != 0 {
				return pbt.Errf("%s: key %d = %d %v, which it was never set to", what, k, v, ok)
			}
			if p.Top == "chain" {
				return nil
			}
			if !ok {
				v = 0
			}
			if !slices.Contains(may[k], v) {
				return pbt.Errf("%s: key %d = %d %v, want one of %v", what, k, v, ok, may[k])
			}
			may[k] = []int{v}
			return nil
		}
		wrote := func(k, v int) {
			if err == nil {
				may[k] = []int{v}
			} else {
				may[k] = append(slices.Clone(may[k]), v, 0)
			}
			if p.Top == "none" {
				may[k] = []int{0}
			}
		}
		fresh := func(k int) int {
			gen++
			if ever[k] == nil {
				ever[k] = map[int]bool{}
			}
			ever[k][gen] = true
			return gen
		}
		var bad error
		switch o.Op {
		case "get":
			var v int
			var ok bool
			if v, ok, err = top.Get(cx, keys[0]); err == nil {
				bad = got(keys[0], v, ok)
			}
		case "mget", "helper":
			var vs []int
			var oks []bool
			if o.Op == "mget" {
				vs, oks, err = top.MGet(cx, keys...)
			} else {
				var r cachex.MGetResult[int, int]
				again := slices.Clone(o.Keys)
				if r, err = cachex.MGet[int, int](cx, top, again...); err == nil {
					for i := range again { // the caller goes on to use its slice
						again[i] = 77
					}
					var ks []int
					r.Range(func(k int, ok bool, v int) bool {
						ks, vs, oks = append(ks, k), append(vs, v), append(oks, ok)
						return true
					})
					if !slices.Equal(ks, o.Keys) {
						bad = pbt.Errf("%s: the result is about the keys %v", what, ks)
					}
				}
			}
			if err != nil || bad != nil {
				break
			}
			if len(vs) != len(keys) || len(oks) != len(keys) {
				bad = pbt.Errf("%s: %d values, %d flags", what, len(vs), len(oks))
				break
			}
			for i, k := range o.Keys {
				if bad == nil {
					bad = got(k, vs[i], oks[i])
				}
			}
		case "set":
			v := fresh(keys[0])
			err = top.Set(cx, keys[0], v, 1000*time.Hour)
			kvs[o.Keys[0]] = v
			wrote(keys[0], v)
		case "mset":
			for _, k := range keys {
				kvs[k] = fresh(k)
			}
			in := maps.Clone(kvs)
			err = top.MSet(cx, in, 1000*time.Hour)
			if !maps.Equal(in, kvs) {
				return pbt.Errf("%s: the map given to it is %v afterwards, was %v", what, in, kvs)
			}
			for k, v := range kvs {
				wrote(k, v)
				in[k] = -1 // the caller goes on to use its map
			}
		case "delete":
			err = top.Delete(cx, keys...)
			for _, k := range keys {
				wrote(k, 0)
				kvs[k] = 0
			}
		}
		if bad != nil {
			return bad
		}
		if !slices.Equal(room, append(slices.Clone(o.Keys), 900, 901, 902)) {
			return pbt.Errf("%s: the keys given to it are %v afterwards", what, room)
		}
		for i := range keys { // the caller goes on to use its slice
			keys[i] = 77
		}
		if err != nil && !ended {
			return pbt.Errf("%s: %v", what, err)
		}
		// what the levels saw
		for i, w := range watch {
			for _, s := range w.seen {
				if s == nil {
					return pbt.Errf("%s: level %d was called without a context", what, i)
				}
				if v, _ := s.Value(ctxKey{}).(int); v != token {
					return pbt.Errf("%s: level %d sees %d in its context, the caller gave %d", what, i, v, token)
				}
				if (s.Err() != nil) != ended {
					return pbt.Errf("%s: level %d sees a context with error %v, the caller's has %v", what, i, s.Err(), cx.Err())
				}
				if d, ok := cx.Deadline(); ok {
					if e, ok := s.Deadline(); !ok || e.After(d) {
						return pbt.Errf("%s: level %d sees the deadline %v %v, the caller gave %v", what, i, e, ok, d)
					}
				}
				valueSeen = valueSeen || token != 0
			}
		}
		// a write that reports no error has reached every level
		if err == nil && p.Top == "chain" && len(kvs) > 0 {
			for i, l := range leaves {
				for k, want := range kvs {
					v, ok, e := l.Get(context.Background(), k)
					if v != want || ok != (want != 0) || e != nil {
						return pbt.Errf("%s reports no error, but level %d has %d %v %v for key %d, want %d", what, i, v, ok, e, k, want)
					}
				}
			}
		}
		if cancel != nil {
			cancel()
			for i, w := range watch {
				for _, s := range w.seen {
					if s != nil && s != context.Background() && s.Err() == nil {
						return pbt.Errf("%s: the context was cancelled, but the one that level %d was given has not ended", what, i)
					}
				}
			}
		}
		endedSeen = endedSeen || ended
	}
	if endedSeen && (valueSeen || p.Top != "chain") {
		c.NonTrivial()
	}
	return nil
}

// refVal is a value that may refuse to be encoded.
type refVal struct {
	N   int
	Bad bool
}

func (v refVal) MarshalJSON() ([]byte, error) {
	if v.Bad {
		return nil, errors.New("no encoding")
	}
	return fmt.Appendf(nil, `{"N":%d}`, v.N), nil
}

// refLevel is a level that refuses some keys.
type refLevel struct {
	cachex.Cache[int, refVal]
	bad int // refuses keys below it
}

func (l *refLevel) check(keys ...int) error {
	for _, k := range keys {
		if k < l.bad {
			return fmt.Errorf("key %d", k)
		}
	}
	return nil
}

func (l *refLevel) Get(ctx context.Context, k int) (refVal, bool, error) {
	if err := l.check(k); err != nil {
		return refVal{}, false, err
	}
	return l.Cache.Get(ctx, k)
}

func (l *refLevel) MGet(ctx context.Context, keys ...int) ([]refVal, []bool, error) {
	if err := l.check(keys...); err != nil {
		return nil, nil, err
	}
	return l.Cache.MGet(ctx, keys...)
}

func (l *refLevel) Set(ctx context.Context, k int, v refVal, ttl time.Duration) error {
	return errors.Join(l.check(k), l.Cache.Set(ctx, k, v, ttl))
}

func (l *refLevel) MSet(ctx context.Context, kvs map[int]refVal, ttl time.Duration) error {
	return errors.Join(l.check(slices.Collect(maps.Keys(kvs))...), l.Cache.MSet(ctx, kvs, ttl))
}

func (l *refLevel) Delete(ctx context.Context, keys ...int) error {
	return errors.Join(l.check(keys...), l.Cache.Delete(ctx, keys...))
}

type refusePlan struct {
	Levels []string
	Bad    []int
	Go     bool
	Ops    []ctxOp
}

func TestC53_Refused(t *testing.T) {
	pbt.Check(t, pbt.Prop[refusePlan]{
		Rule:  "up to 20 calls with up to 20 keys on a chain of up to three LRU, file and empty caches that refuse some keys, with values that cannot be encoded; after each call, refused or not, the keys and the map are compared with what was given; non-trivial: a batch write was refused",
		Cases: 1200,
		Gen: func(t *rapid.T) refusePlan {
			p := refusePlan{Go: rapid.Bool().Draw(t, "go")}
			p.Levels = rapid.SliceOfN(rapid.SampledFrom([]string{"lru", "file", "none"}), 1, 3).Draw(t, "levels")
			for range p.Levels {
				p.Bad = append(p.Bad, rapid.SampledFrom([]int{0, 0, 3, 20}).Draw(t, "bad"))
			}
			p.Ops = pbt.Ops(t, 20, func(t *rapid.T) ctxOp {
				o := ctxOp{Op: rapid.SampledFrom([]string{"get", "set", "mget", "helper", "mset", "mset", "mset", "delete"}).Draw(t, "op"), Ctx: rapid.SampledFrom([]string{"background", "cancelled"}).Draw(t, "ctx")}
				for range rapid.IntRange(1, 20).Draw(t, "n") {
					o.Keys = append(o.Keys, rapid.IntRange(0, 19).Draw(t, "k"))
				}
				return o
			})
			return p
		},
		Run: func(c *pbt.Ctx, p refusePlan) error {
			return pbt.Bubble(t, func() error { return runRefused(c, p) })
		},
	})
}

func runRefused(c *pbt.Ctx, p refusePlan) error {
	base, done := pbt.Scratch()
	defer done()
	ch := &cachex.Chain[int, refVal]{ContinueOnReadErr: p.Go}
	for i, k := range p.Levels {
		var l cachex.Cache[int, refVal] = &cachex.NoCache[int, refVal]{}
		switch k {
		case "lru":
			l = cachex.NewLRUCacheV2[int, refVal](10, 0)
		case "file":
			l = &cachex.FileStore[int, refVal]{Dir: fmt.Sprintf("%s/%d", base, i), GCCycle: time.Hour}
		}
		if p.Bad[i] > 0 {
			l = &refLevel{l, p.Bad[i]}
		}
		ch.Caches = append(ch.Caches, &cachex.ChainItem[int, refVal]{Cache: l, TTL: 1000 * time.Hour})
	}
	var top cachex.Cache[int, refVal] = ch
	if len(p.Levels) == 1 {
		top = ch.Caches[0].Cache
	}
	for n, o := range p.Ops {
		time.Sleep(time.Millisecond)
		cx, cancel := context.WithCancel(context.Background())
		if o.Ctx == "cancelled" {
			cancel()
		}
		room := append(slices.Clone(o.Keys), 900, 901)
		keys := room[:len(o.Keys)]
		was := map[int]refVal{}
		for i, k := range keys {
			was[k] = refVal{n*100 + i, (k+n)%5 == 0}
		}
		kvs := maps.Clone(was)
		var err error
		switch o.Op {
		case "get":
			_, _, err = top.Get(cx, keys[0])
		case "set":
			err = top.Set(cx, keys[0], kvs[keys[0]], 1000*time.Hour)
		case "mget":
			_, _, err = top.MGet(cx, keys...)
		case "helper":
			_, err = cachex.MGet[int, refVal](cx, top, keys...)
		case "mset":
			err = top.MSet(cx, kvs, 1000*time.Hour)
			if err != nil {
				c.NonTrivial()
			}
		case "delete":
			err = top.Delete(cx, keys...)
		}
		cancel()
		if !maps.Equal(kvs, was) {
			return pbt.Errf("op %d %s (%v): the map given to it is %v afterwards, was %v", n, o.Op, err, kvs, was)
		}
		if !slices.Equal(room, append(slices.Clone(o.Keys), 900, 901)) {
			return pbt.Errf("op %d %s (%v): the keys given to it are %v afterwards, were %v", n, o.Op, err, room, o.Keys)
		}
	}
	return nil
}
