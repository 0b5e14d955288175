package cachex

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"sync"
	"testing"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

type stored struct {
	V   int
	TTL time.Duration
}

type levelErr struct{ msg string }

func (e levelErr) Error() string { return e.msg }

// level is a scripted cache: it records every call and fails on request.
type level struct {
	mu        sync.Mutex
	m         map[string]stored
	failRead  error
	failWrite error
	asked     map[string]int
	reads     int
	writes    []string
	order     *[]int
	id        int
}

func (l *level) read() error {
	l.reads++
	*l.order = append(*l.order, l.id)
	return l.failRead
}

func (l *level) Get(_ context.Context, k string) (int, bool, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.asked[k]++
	if err := l.read(); err != nil {
		return 0, false, err
	}
	s, ok := l.m[k]
	return s.V, ok, nil
}

func (l *level) MGet(_ context.Context, keys ...string) ([]int, []bool, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, k := range keys {
		l.asked[k]++
	}
	if err := l.read(); err != nil {
		return nil, nil, err
	}
	if len(keys) == 0 {
		return nil, nil, nil
	}
	vs, oks := make([]int, len(keys)), make([]bool, len(keys))
	for i, k := range keys {
		if s, ok := l.m[k]; ok {
			vs[i], oks[i] = s.V, true
		}
	}
	return vs, oks, nil
}

func (l *level) Set(_ context.Context, k string, v int, ttl time.Duration) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.writes = append(l.writes, fmt.Sprintf("set %s=%d for %v", k, v, ttl))
	if l.failWrite != nil {
		return l.failWrite
	}
	l.m[k] = stored{v, ttl}
	return nil
}

func (l *level) MSet(_ context.Context, kvs map[string]int, ttl time.Duration) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	for k, v := range kvs {
		l.writes = append(l.writes, fmt.Sprintf("set %s=%d for %v", k, v, ttl))
	}
	if l.failWrite != nil {
		return l.failWrite
	}
	for k, v := range kvs {
		l.m[k] = stored{v, ttl}
	}
	return nil
}

func (l *level) Delete(_ context.Context, keys ...string) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, k := range keys {
		l.writes = append(l.writes, "delete "+k)
	}
	if l.failWrite != nil {
		return l.failWrite
	}
	for _, k := range keys {
		delete(l.m, k)
	}
	return nil
}

type chainOp struct {
	Op        string
	Level     int // for direct writes to one level
	Keys      []int
	FailRead  []bool
	FailWrite []bool
	ErrKind   int
}

type chainPlan struct {
	Levels   int
	TTLms    []int64
	Continue bool
	Range    int
	Ops      []chainOp
}

func flags(t *rapid.T, n int, one int, label string) []bool {
	if rapid.IntRange(0, 2).Draw(t, label+".any") != 0 {
		return make([]bool, n)
	}
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) bool { return rapid.IntRange(0, one).Draw(t, "f") == 0 }), n, n).Draw(t, label)
}

func mkErr(kind int, msg string) error {
	switch kind {
	case 0:
		return errors.New(msg)
	case 1:
		return levelErr{msg}
	case 2:
		return fmt.Errorf("wrapped: %w", levelErr{msg})
	case 3:
		return errors.Join(errors.New(msg), context.DeadlineExceeded)
	case 4:
		return fmt.Errorf("%s: %w", msg, context.Canceled)
	case 5:
		return context.Canceled
	case 6:
		return fmt.Errorf("%s: %w", msg, fs.ErrNotExist)
	default:
		return io.EOF
	}
}

func sameMap(a, b map[string]stored) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func clone(m map[string]stored) map[string]stored {
	n := make(map[string]stored, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func TestC27_Chain(t *testing.T) {
	pbt.Check(t, pbt.Prop[chainPlan]{
		Rule: "0..5 recording levels with their own times to live, read and write failures injected per operation and level, up to 40 gets, batch gets (repeated keys included), sets, batch sets, deletes and direct level changes; every answer, error, level content and the levels and keys consulted compared with a model; " +
			"non-trivial: at least two levels, a hit below the first level and a failing level",
		Cases: 6000,
		Gen: func(t *rapid.T) chainPlan {
			p := chainPlan{Levels: rapid.SampledFrom([]int{0, 1, 2, 2, 3, 3, 4, 5}).Draw(t, "levels"), Continue: rapid.Bool().Draw(t, "cont"), Range: rapid.IntRange(1, 6).Draw(t, "range")}
			for i := 0; i < p.Levels; i++ {
				p.TTLms = append(p.TTLms, int64(1000*(i+1)+rapid.SampledFrom([]int{0, 0, 0, 7, -1000 * (i + 1), -5000000}).Draw(t, "ttl")))
			}
			p.Ops = pbt.Ops(t, 40, func(t *rapid.T) chainOp {
				o := chainOp{Op: rapid.SampledFrom([]string{"get", "get", "get", "mget", "mget", "mget", "set", "mset", "delete", "direct", "direct", "direct", "forget"}).Draw(t, "op"),
					Level: rapid.IntRange(0, max(0, p.Levels-1)).Draw(t, "level"), ErrKind: rapid.IntRange(0, 7).Draw(t, "ek")}
				n := 1
				if o.Op != "get" && o.Op != "set" {
					n = rapid.IntRange(0, 7).Draw(t, "nkeys")
				}
				o.Keys = rapid.SliceOfN(rapid.IntRange(0, p.Range-1), n, n).Draw(t, "keys")
				o.FailRead = flags(t, p.Levels, 2, "fr")
				o.FailWrite = flags(t, p.Levels, 1, "fw")
				return o
			})
			return p
		},
		Run: func(c *pbt.Ctx, p chainPlan) error { return runChain(c, p) },
	})
}

func runChain(c *pbt.Ctx, p chainPlan) error {
	var order []int
	levels := make([]*level, p.Levels)
	models := make([]map[string]stored, p.Levels)
	ttls := make([]time.Duration, p.Levels)
	ch := &cachex.Chain[string, int]{ContinueOnReadErr: p.Continue}
	for i := range levels {
		levels[i] = &level{m: map[string]stored{}, id: i, order: &order}
		models[i] = map[string]stored{}
		ttls[i] = time.Duration(p.TTLms[i]) * time.Millisecond
		ch.Caches = append(ch.Caches, &cachex.ChainItem[string, int]{Cache: levels[i], TTL: ttls[i]})
	}
	gen := 0
	deepHit, failed := false, false
	for n, o := range p.Ops {
		keys := []string{}
		for _, k := range o.Keys {
			keys = append(keys, fmt.Sprintf("k%d", k))
		}
		what := fmt.Sprintf("op %d %s %v (failing reads %v, writes %v, continue %v)", n, o.Op, keys, o.FailRead, o.FailWrite, p.Continue)
		order = order[:0]
		rerr, werr := make([]error, p.Levels), make([]error, p.Levels)
		for i, l := range levels {
			l.asked, l.reads, l.writes = map[string]int{}, 0, nil
			if o.FailRead[i] {
				rerr[i] = mkErr(o.ErrKind, fmt.Sprintf("read failure %d of level %d", n, i))
			}
			if o.FailWrite[i] {
				werr[i] = mkErr(o.ErrKind, fmt.Sprintf("write failure %d of level %d", n, i))
			}
			l.failRead, l.failWrite = rerr[i], werr[i]
		}
		var lastErr error // of the last level asked
		// lookup is the model of one batch: results, which keys each level is
		// asked, whether it ends with an error, the errors seen.
		lookup := func(keys []string) (vals map[string]int, asked []map[string]bool, fatal error, seen []error) {
			lastErr = nil
			vals = map[string]int{}
			asked = make([]map[string]bool, p.Levels)
			missing := map[string]bool{}
			for _, k := range keys {
				missing[k] = true
			}
			for i := range levels {
				if len(missing) == 0 {
					break
				}
				asked[i] = map[string]bool{}
				lastErr = rerr[i]
				for k := range missing {
					asked[i][k] = true
				}
				if rerr[i] != nil {
					failed = true
					seen = append(seen, rerr[i])
					if !p.Continue {
						return vals, asked, rerr[i], seen
					}
					continue
				}
				for k := range asked[i] {
					s, ok := models[i][k]
					if !ok {
						continue
					}
					vals[k] = s.V
					delete(missing, k)
					deepHit = deepHit || i > 0
					for j := 0; j < i; j++ {
						if werr[j] == nil {
							models[j][k] = stored{s.V, ttls[j]}
						}
					}
				}
			}
			return
		}
		before := make([]map[string]stored, p.Levels)
		for i := range models {
			before[i] = clone(models[i])
		}
		consulted := func(asked []map[string]bool) error {
			for i, l := range levels {
				for k := range asked[i] {
					if l.asked[k] == 0 {
						return pbt.Errf("%s: level %d was not asked for %s", what, i, k)
					}
				}
				for k := range l.asked {
					if !asked[i][k] {
						return pbt.Errf("%s: level %d was asked for %s without need", what, i, k)
					}
				}
			}
			for i := 1; i < len(order); i++ {
				if order[i] < order[i-1] {
					return pbt.Errf("%s: levels asked in order %v", what, order)
				}
			}
			return nil
		}
		readErr := func(err, fatal error, seen []error, allHit bool) error {
			switch {
			case fatal != nil:
				if !errors.Is(err, fatal) {
					return pbt.Errf("%s: error %v, want %v", what, err, fatal)
				}
			case len(seen) == 0:
				if err != nil {
					return pbt.Errf("%s: error %v out of nothing", what, err)
				}
			case err == nil && lastErr != nil:
				return pbt.Errf("%s: no error though the last level asked failed with %v", what, lastErr)
			case err != nil:
				for _, s := range seen {
					if errors.Is(err, s) {
						return nil
					}
				}
				return pbt.Errf("%s: error %v is none of %v", what, err, seen)
			}
			return nil
		}
		writeErr := func(err error) error {
			any := false
			for i, w := range werr {
				if w != nil {
					any = true
					failed = true
					if !errors.Is(err, w) {
						return pbt.Errf("%s: error %v does not contain the one of level %d, %v", what, err, i, w)
					}
				}
			}
			if !any && err != nil {
				return pbt.Errf("%s: error %v though no level failed", what, err)
			}
			return nil
		}
		switch o.Op {
		case "direct":
			gen++
			for _, k := range keys {
				if p.Levels > 0 {
					levels[o.Level].m[k] = stored{gen, 1}
					models[o.Level][k] = stored{gen, 1}
				}
			}
		case "forget":
			for _, k := range keys {
				for i := 0; i <= o.Level && i < p.Levels; i++ {
					delete(levels[i].m, k)
					delete(models[i], k)
				}
			}
		case "get":
			vals, asked, fatal, seen := lookup(keys)
			v, ok, err := ch.Get(ctx, keys[0])
			w, wok := vals[keys[0]]
			if v != w || ok != wok {
				return pbt.Errf("%s: %v %v %v, want %v %v", what, v, ok, err, w, wok)
			}
			if wok && err != nil {
				return pbt.Errf("%s: a hit with error %v", what, err)
			}
			if e := readErr(err, fatal, seen, wok); e != nil {
				return e
			}
			if e := consulted(asked); e != nil {
				return e
			}
		case "mget":
			vals, asked, fatal, seen := lookup(keys)
			in := append([]string{}, keys...)
			vs, oks, err := ch.MGet(ctx, in...)
			if fmt.Sprint(in) != fmt.Sprint(keys) {
				return pbt.Errf("%s: the keys passed are now %v", what, in)
			}
			if e := readErr(err, fatal, seen, len(vals) == len(keys)); e != nil {
				return e
			}
			if e := consulted(asked); e != nil {
				return e
			}
			if fatal != nil {
				for i, ok := range oks {
					if ok && (i >= len(vs) || i >= len(keys) || vs[i] != vals[keys[i]]) {
						return pbt.Errf("%s: wrong hits next to error %v: %v %v", what, err, vs, oks)
					}
				}
				break
			}
			if len(vs) != len(keys) || len(oks) != len(keys) {
				return pbt.Errf("%s: %d values and %d flags for %d keys", what, len(vs), len(oks), len(keys))
			}
			for i, k := range keys {
				w, wok := vals[k]
				if vs[i] != w || oks[i] != wok {
					return pbt.Errf("%s: position %d (%s) is %v %v, want %v %v", what, i, k, vs[i], oks[i], w, wok)
				}
			}
		case "set":
			gen++
			if e := writeErr(ch.Set(ctx, keys[0], gen, 12345)); e != nil {
				return e
			}
			for i := range models {
				if werr[i] == nil {
					models[i][keys[0]] = stored{gen, ttls[i]}
				}
			}
		case "mset":
			kvs := map[string]int{}
			for _, k := range keys {
				gen++
				kvs[k] = gen
			}
			err := ch.MSet(ctx, kvs, 12345)
			if len(kvs) == 0 {
				if err != nil && p.Levels == 0 {
					return pbt.Errf("%s: %v", what, err)
				}
				break
			}
			if e := writeErr(err); e != nil {
				return e
			}
			for i := range models {
				for k, v := range kvs {
					if werr[i] == nil {
						models[i][k] = stored{v, ttls[i]}
					}
				}
			}
		case "delete":
			err := ch.Delete(ctx, keys...)
			if len(keys) == 0 {
				break
			}
			if e := writeErr(err); e != nil {
				return e
			}
			for i := range models {
				for _, k := range keys {
					if werr[i] == nil {
						delete(models[i], k)
					}
				}
			}
		}
		for i, l := range levels {
			if !sameMap(l.m, models[i]) {
				return pbt.Errf("%s: level %d holds %v, want %v (before: %v)", what, i, l.m, models[i], before[i])
			}
			if (o.Op == "get" || o.Op == "mget") && len(l.writes) > 0 && werr[i] == nil && sameMap(before[i], models[i]) {
				// a write that changed nothing: only what was just found may be rewritten
				for _, w := range l.writes {
					ok := false
					for k, s := range models[i] {
						ok = ok || w == fmt.Sprintf("set %s=%d for %v", k, s.V, s.TTL)
					}
					if !ok {
						return pbt.Errf("%s: level %d got %v", what, i, l.writes)
					}
				}
			}
		}
	}
	c.LabelIf(deepHit, "hit below the first level")
	c.LabelIf(failed, "failing level")
	if p.Levels >= 2 && deepHit && failed {
		c.NonTrivial()
	}
	return nil
}

// ---- a chain of real caches --------------------------------------------------

type realOp struct {
	Op    string
	Keys  []int
	Sleep int64
	Level int
}

type realPlan struct {
	Kinds []string
	TTLms []int64
	Ops   []realOp
}

type timed struct {
	v   int
	exp time.Time
}

func TestC27_RealLevels(t *testing.T) {
	pbt.Check(t, pbt.Prop[realPlan]{
		Rule:  "a chain of LRU caches, always-empty caches and nested chains with different times to live under virtual time; answers compared with a model of expiring levels; non-trivial: at least two levels and a value that expired in one level only",
		Cases: 3000,
		Gen: func(t *rapid.T) realPlan {
			p := realPlan{Kinds: rapid.SliceOfN(rapid.SampledFrom([]string{"lru", "lru", "lru", "none", "nested"}), 1, 4).Draw(t, "kinds")}
			for range p.Kinds {
				p.TTLms = append(p.TTLms, rapid.SampledFrom([]int64{10, 50, 200, 1000}).Draw(t, "ttl"))
			}
			p.Ops = pbt.Ops(t, 40, func(t *rapid.T) realOp {
				o := realOp{Op: rapid.SampledFrom([]string{"get", "get", "mget", "mget", "set", "mset", "delete", "drop"}).Draw(t, "op"), Sleep: rapid.SampledFrom([]int64{0, 0, 5, 10, 49, 100, 300}).Draw(t, "sleep"), Level: rapid.IntRange(0, 3).Draw(t, "level")}
				o.Keys = genKeys(t, o.Op, 5, 5)
				return o
			})
			return p
		},
		Run: func(c *pbt.Ctx, p realPlan) error {
			return pbt.Bubble(t, func() error {
				ch := &cachex.Chain[int, int]{}
				var flat []cachex.Cache[int, int]
				var models []map[int]timed
				var ttls []time.Duration
				for i, kind := range p.Kinds {
					d := time.Duration(p.TTLms[i]) * time.Millisecond
					var l cachex.Cache[int, int] = cachex.NewLRUCacheV2[int, int](100, 0)
					switch kind {
					case "none":
						l = &cachex.NoCache[int, int]{}
					case "nested":
						// a chain that holds one cache behaves as that cache with the inner time to live
						in := l
						l = &cachex.Chain[int, int]{Caches: []*cachex.ChainItem[int, int]{{Cache: &cachex.NoCache[int, int]{}, TTL: time.Hour}, {Cache: in, TTL: d}}}
					}
					item := &cachex.ChainItem[int, int]{Cache: l, TTL: d}
					if kind == "nested" {
						item.TTL = 7 * time.Hour
					}
					ch.Caches = append(ch.Caches, item)
					flat = append(flat, l)
					models = append(models, map[int]timed{})
					ttls = append(ttls, d)
				}
				put := func(i, k, v int, now time.Time) {
					if p.Kinds[i] != "none" {
						models[i][k] = timed{v, now.Add(ttls[i])}
					}
				}
				split := false
				find := func(k int, now time.Time) (int, bool) {
					gone := false
					for i := range models {
						s, ok := models[i][k]
						if ok && s.exp.Before(now) {
							delete(models[i], k)
							ok, gone = false, true
						}
						if ok {
							split = split || gone
							for j := 0; j < i; j++ {
								put(j, k, s.v, now)
							}
							return s.v, true
						}
					}
					return 0, false
				}
				gen := 0
				for n, o := range p.Ops {
					time.Sleep(time.Duration(o.Sleep)*time.Millisecond + 1)
					now := time.Now()
					what := fmt.Sprintf("op %d %s %v", n, o.Op, o.Keys)
					switch o.Op {
					case "get":
						v, ok, err := ch.Get(ctx, o.Keys[0])
						w, wok := find(o.Keys[0], now)
						if v != w || ok != wok || err != nil {
							return pbt.Errf("%s: %v %v %v, want %v %v", what, v, ok, err, w, wok)
						}
					case "mget":
						vs, oks, err := ch.MGet(ctx, o.Keys...)
						if err != nil || len(vs) != len(o.Keys) || len(oks) != len(o.Keys) {
							return pbt.Errf("%s: %v %v %v", what, vs, oks, err)
						}
						for i, k := range o.Keys {
							w, wok := find(k, now)
							if vs[i] != w || oks[i] != wok {
								return pbt.Errf("%s: position %d: %v %v, want %v %v", what, i, vs[i], oks[i], w, wok)
							}
						}
					case "set", "mset":
						kvs := map[int]int{}
						for _, k := range o.Keys {
							gen++
							kvs[k] = gen
						}
						var err error
						if o.Op == "set" {
							err = ch.Set(ctx, o.Keys[0], gen, time.Nanosecond)
						} else {
							err = ch.MSet(ctx, kvs, time.Nanosecond)
						}
						if err != nil {
							return pbt.Errf("%s: %v", what, err)
						}
						for k, v := range kvs {
							for i := range models {
								put(i, k, v, now)
							}
						}
					case "delete":
						if err := ch.Delete(ctx, o.Keys...); err != nil {
							return pbt.Errf("%s: %v", what, err)
						}
						for i := range models {
							for _, k := range o.Keys {
								delete(models[i], k)
							}
						}
					case "drop":
						i := o.Level % len(flat)
						if err := flat[i].Delete(ctx, o.Keys...); err != nil {
							return pbt.Errf("%s: %v", what, err)
						}
						for _, k := range o.Keys {
							delete(models[i], k)
						}
					}
				}
				if split && len(p.Kinds) > 1 {
					c.NonTrivial()
				}
				return nil
			})
		},
	})
}

func TestC27_NoCache(t *testing.T) {
	pbt.Check(t, pbt.Prop[chainPlan]{
		Rule:  "any operations on the always-empty cache: writes succeed, nothing is ever found, batch answers have one slot per key; non-trivial: a get after a set",
		Cases: 500,
		Gen: func(t *rapid.T) chainPlan {
			return chainPlan{Ops: pbt.Ops(t, 20, func(t *rapid.T) chainOp {
				o := chainOp{Op: rapid.SampledFrom([]string{"get", "mget", "set", "mset", "delete"}).Draw(t, "op")}
				o.Keys = genKeys(t, o.Op, 4, 5)
				return o
			})}
		},
		Run: func(c *pbt.Ctx, p chainPlan) error {
			nc := &cachex.NoCache[int, string]{}
			set := false
			for _, o := range p.Ops {
				var err error
				switch o.Op {
				case "get":
					var v string
					var ok bool
					v, ok, err = nc.Get(ctx, o.Keys[0])
					if ok || v != "" {
						return pbt.Errf("Get found %q %v", v, ok)
					}
					if set {
						c.NonTrivial()
					}
				case "mget":
					var vs []string
					var oks []bool
					vs, oks, err = nc.MGet(ctx, o.Keys...)
					if len(vs) != len(o.Keys) || len(oks) != len(o.Keys) {
						return pbt.Errf("MGet of %d keys has %d values and %d flags", len(o.Keys), len(vs), len(oks))
					}
					for i := range vs {
						if vs[i] != "" || oks[i] {
							return pbt.Errf("MGet found %q %v", vs[i], oks[i])
						}
					}
				case "set":
					err, set = nc.Set(ctx, o.Keys[0], "v", time.Hour), true
				case "mset":
					m := map[int]string{}
					for _, k := range o.Keys {
						m[k] = "v"
					}
					err, set = nc.MSet(ctx, m, time.Hour), true
				case "delete":
					err = nc.Delete(ctx, o.Keys...)
				}
				if err != nil {
					return pbt.Errf("%s: %v", o.Op, err)
				}
			}
			return nil
		},
	})
}

// ---- C28 ----------------------------------------------------------------------

type mgPlan struct {
	Source string // "raw": any answer; "lru", "chain", "none": a real cache
	Keys   []int
	Hits   []bool
	Vals   []int
	Stop   int
	Fail   bool
}

type rawGetter struct {
	keys []int
	hits []bool
	vals []int
	err  error
}

func (r *rawGetter) MGet(_ context.Context, keys ...int) ([]int, []bool, error) {
	r.keys = append([]int{}, keys...)
	if r.err != nil {
		return nil, nil, r.err
	}
	return append([]int{}, r.vals...), append([]bool{}, r.hits...), nil
}

func TestC28_MGetResult(t *testing.T) {
	pbt.Check(t, pbt.Prop[mgPlan]{
		Rule:  "0..12 (now and then 60) requested keys with repetitions, any hit pattern and values from a raw cache (also differing per occurrence) or a real LRU, chain or empty cache, callbacks stopping at every drawn point; all helpers compared with the raw answer; non-trivial: at least one hit, one miss and a repeated key",
		Cases: 6000,
		Gen: func(t *rapid.T) mgPlan {
			p := mgPlan{Source: rapid.SampledFrom([]string{"raw", "raw", "raw", "lru", "chain", "none"}).Draw(t, "src"), Fail: rapid.IntRange(0, 19).Draw(t, "fail") == 0}
			n := pbt.Size(t, 12, "n")
			p.Keys = rapid.SliceOfN(rapid.IntRange(0, 7), n, n).Draw(t, "keys")
			p.Hits = rapid.SliceOfN(rapid.Bool(), n, n).Draw(t, "hits")
			p.Vals = rapid.SliceOfN(rapid.IntRange(0, 3), n, n).Draw(t, "vals")
			p.Stop = rapid.OneOf(rapid.IntRange(1, 14), rapid.IntRange(1, max(1, n))).Draw(t, "stop")
			return p
		},
		Run: runMG,
	})
}

func runMG(c *pbt.Ctx, p mgPlan) error {
	n := len(p.Keys)
	raw := &rawGetter{hits: p.Hits, vals: p.Vals}
	var cache cachex.MGetter[int, int] = raw
	if p.Source != "raw" {
		var sc cachex.Cache[int, int] = cachex.NewLRUCacheV2[int, int](max(20, n), 0)
		switch p.Source {
		case "chain":
			sc = &cachex.Chain[int, int]{Caches: []*cachex.ChainItem[int, int]{{Cache: sc, TTL: time.Hour}, {Cache: cachex.NewLRUCacheV2[int, int](max(20, n), 0), TTL: time.Hour}}}
		case "none":
			sc = &cachex.NoCache[int, int]{}
		}
		for i, k := range p.Keys {
			if p.Hits[i] {
				_ = sc.Set(ctx, k, p.Vals[i], time.Hour)
			}
		}
		vs, hs, err := sc.MGet(ctx, p.Keys...)
		if err != nil {
			return pbt.Errf("MGet: %v", err)
		}
		p.Vals, p.Hits, cache = vs, hs, sc
	} else if p.Fail {
		raw.err = errors.New("no answer")
	}
	keys := append([]int{}, p.Keys...)
	res, err := cachex.MGet[int, int](ctx, cache, keys...)
	if err != raw.err {
		return pbt.Errf("error %v, want %v", err, raw.err)
	}
	if raw.err != nil {
		return nil
	}
	if p.Source == "raw" && fmt.Sprint(raw.keys) != fmt.Sprint(append([]int{}, p.Keys...)) {
		return pbt.Errf("the cache was asked for %v, want %v", raw.keys, p.Keys)
	}
	for i := range keys { // the caller goes on to use its slice
		keys[i] = -1 - i
	}
	type ent struct {
		K   int
		Hit bool
		V   int
	}
	var all, hits, misses []ent
	hk, mk := []int{}, []int{}
	rep := map[int]bool{}
	dup := false
	vals := map[int]map[int]bool{}
	for i, k := range p.Keys {
		e := ent{k, p.Hits[i], p.Vals[i]}
		all = append(all, e)
		if e.Hit {
			hits, hk = append(hits, e), append(hk, k)
			if vals[k] == nil {
				vals[k] = map[int]bool{}
			}
			vals[k][e.V] = true
		} else {
			misses, mk = append(misses, ent{K: k}), append(mk, k)
		}
		dup = dup || rep[k]
		rep[k] = true
	}
	if len(hits) > 0 && len(misses) > 0 && dup {
		c.NonTrivial()
	}
	for _, stop := range []int{n + 1, p.Stop, 1} {
		walk := func(what string, want []ent, run func(func(ent) bool)) error {
			var got []ent
			run(func(e ent) bool {
				got = append(got, e)
				return len(got) < stop
			})
			w := want[:min(len(want), stop)]
			if fmt.Sprint(got) != fmt.Sprint(append([]ent(nil), w...)) {
				return pbt.Errf("%s stopping after %d gave %v, want %v", what, stop, got, w)
			}
			return nil
		}
		if err := walk("Range", all, func(f func(ent) bool) {
			res.Range(func(k int, h bool, v int) bool { return f(ent{k, h, v}) })
		}); err != nil {
			return err
		}
		if err := walk("RangeHit", hits, func(f func(ent) bool) {
			res.RangeHit(func(k int, v int) bool { return f(ent{k, true, v}) })
		}); err != nil {
			return err
		}
		if err := walk("RangeMiss", misses, func(f func(ent) bool) {
			res.RangeMiss(func(k int) bool { return f(ent{K: k}) })
		}); err != nil {
			return err
		}
	}
	h2, m2 := res.HitMissKeys()
	for _, q := range []struct {
		what      string
		got, want []int
	}{{"HitKeys", res.HitKeys(), hk}, {"MissKeys", res.MissKeys(), mk}, {"HitMissKeys hits", h2, hk}, {"HitMissKeys misses", m2, mk}} {
		if len(q.got) != len(q.want) || fmt.Sprint(q.got) != fmt.Sprint(q.want) && len(q.got) > 0 {
			return pbt.Errf("%s = %v, want %v", q.what, q.got, q.want)
		}
	}
	hm := res.HitMapValues()
	if len(hm) != len(vals) {
		return pbt.Errf("HitMapValues = %v, want the keys of %v", hm, vals)
	}
	for k, v := range hm {
		if !vals[k][v] {
			return pbt.Errf("HitMapValues[%d] = %d, want one of %v", k, v, vals[k])
		}
	}
	return nil
}
