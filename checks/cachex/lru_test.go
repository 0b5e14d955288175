package cachex

import (
	"context"
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

var ctx = context.Background()

type lruOp struct {
	Op    string
	Keys  []int
	TTLms int64
	Sleep int64 // ms before the operation
	Near  int64 `json:",omitempty"` // else: sleep until Near-1 ms after (before) some entry expires
}

// untilExpiry is how long to sleep (in whole ms) until about Near-1 ms after an
// entry set at that time with that ttl expires.
func untilExpiry(at time.Time, ttl time.Duration, near int64) time.Duration {
	if ttl <= 0 || ttl > 400*24*time.Hour {
		return 0
	}
	return max(0, time.Until(at.Add(ttl+time.Duration(near)*time.Millisecond)).Truncate(time.Millisecond))
}

// genTTL is a time to live in ms from minimal to maximal.
func genTTL(t *rapid.T, fixed []int64) int64 {
	if rapid.IntRange(0, 2).Draw(t, "ttl kind") > 0 {
		return rapid.SampledFrom(fixed).Draw(t, "ttl")
	}
	e := rapid.IntRange(0, 34).Draw(t, "ttl exp")
	return 1<<e + rapid.Int64Range(0, 1<<e).Draw(t, "ttl rest")
}

// genNear is 0 or a distance from an expiry in ms.
func genNear(t *rapid.T) int64 {
	if rapid.IntRange(0, 5).Draw(t, "near kind") > 0 {
		return 0
	}
	return rapid.SampledFrom([]int64{1, 1, 2, 2, -1, -1000, 3, 100, 500, 900, 1001, 5000, 30000, 60001, 3600001}).Draw(t, "near")
}

type lruPlan struct {
	KeyType string
	Cap     int
	MaxUsed int
	Range   int
	Ops     []lruOp
}

type skey struct {
	A string
	B int
}

const forever = math.MaxInt64 / int64(time.Millisecond)

func ttl(ms int64) time.Duration {
	switch ms {
	case forever:
		return math.MaxInt64
	case -forever:
		return math.MinInt64
	}
	return time.Duration(ms) * time.Millisecond
}

type lruEnt[K comparable] struct {
	k     K
	v     int
	at    time.Time
	ttl   time.Duration
	used  int
	group int // entries of one batch set share an unknown order; 0: known
}

// lruModel keeps entries from most to least recently set or hit.
type lruModel[K comparable] struct {
	cap, maxUsed int
	l            []lruEnt[K]
}

func (m *lruModel[K]) find(k K) int {
	for i := range m.l {
		if m.l[i].k == k {
			return i
		}
	}
	return -1
}

func (m *lruModel[K]) del(i int) lruEnt[K] {
	e := m.l[i]
	m.l = append(append([]lruEnt[K]{}, m.l[:i]...), m.l[i+1:]...)
	return e
}

func (m *lruModel[K]) front(e lruEnt[K]) { m.l = append([]lruEnt[K]{e}, m.l...) }

func (m *lruModel[K]) get(k K, now time.Time) (int, bool) {
	i := m.find(k)
	if i < 0 {
		return 0, false
	}
	e := m.del(i)
	if m.maxUsed > 0 && e.used >= m.maxUsed || now.Sub(e.at) > e.ttl {
		return 0, false
	}
	e.used++
	e.group = 0
	m.front(e)
	return e.v, true
}

func (m *lruModel[K]) set(k K, v int, now time.Time, d time.Duration, group int) (evicted int) {
	if i := m.find(k); i >= 0 {
		m.del(i)
	}
	m.front(lruEnt[K]{k, v, now, d, 0, group})
	for len(m.l) > m.cap {
		m.del(len(m.l) - 1)
		evicted++
	}
	return
}

// splits tells which batch group would lose some but not all of its members
// (whose order is unknown) if keys were set now.
func (m *lruModel[K]) splits(keys []K) []K {
	set := map[K]bool{}
	for _, k := range keys {
		set[k] = true
	}
	rest := []lruEnt[K]{}
	for _, e := range m.l {
		if !set[e.k] {
			rest = append(rest, e)
		}
	}
	keep := m.cap - len(set)
	if keep <= 0 || len(rest) <= keep {
		return nil
	}
	if g := rest[keep].group; g != 0 && rest[keep-1].group == g {
		var out []K
		for _, e := range rest {
			if e.group == g {
				out = append(out, e.k)
			}
		}
		return out
	}
	return nil
}

func runLRU[K comparable](c *pbt.Ctx, p lruPlan, key func(int) K) error {
	cache := cachex.NewLRUCacheV2[K, int](p.Cap, p.MaxUsed)
	m := &lruModel[K]{cap: p.Cap, maxUsed: p.MaxUsed}
	gen, group := 0, 0
	evicted, expired, usedUp := 0, 0, 0
	get := func(what string, k K) error {
		now := time.Now()
		if i := m.find(k); i >= 0 {
			if now.Sub(m.l[i].at) > m.l[i].ttl {
				expired++
			} else if p.MaxUsed > 0 && m.l[i].used >= p.MaxUsed {
				usedUp++
			}
		}
		wv, wok := m.get(k, now)
		v, ok, err := cache.Get(ctx, k)
		if v != wv || ok != wok || err != nil {
			return pbt.Errf("%s: Get(%v) = %v %v %v, want %v %v", what, k, v, ok, err, wv, wok)
		}
		return nil
	}
	mget := func(what string, keys []K) error {
		now := time.Now()
		in := append([]K{}, keys...)
		vs, oks, err := cache.MGet(ctx, in...)
		if err != nil || len(vs) != len(keys) || len(oks) != len(keys) {
			return pbt.Errf("%s: MGet of %d keys: %d values, %d flags, %v", what, len(keys), len(vs), len(oks), err)
		}
		for i, k := range keys {
			if in[i] != k {
				return pbt.Errf("%s: MGet changed its arguments", what)
			}
			wv, wok := m.get(k, now)
			if vs[i] != wv || oks[i] != wok {
				return pbt.Errf("%s: MGet position %d (%v) = %v %v, want %v %v", what, i, k, vs[i], oks[i], wv, wok)
			}
		}
		return nil
	}
	for n, o := range p.Ops {
		// operation n happens n ns after a whole millisecond and all times to
		// live are whole milliseconds: no operation hits an expiry instant
		var keys []K
		for _, i := range o.Keys {
			keys = append(keys, key(i))
		}
		nap := time.Duration(o.Sleep) * time.Millisecond
		if o.Near != 0 && len(m.l) > 0 {
			e := m.l[n%len(m.l)]
			if len(keys) > 0 && m.find(keys[0]) >= 0 {
				e = m.l[m.find(keys[0])]
			}
			nap = untilExpiry(e.at, e.ttl, o.Near)
		}
		time.Sleep(nap + 1)
		what := fmt.Sprintf("op %d %s %v", n, o.Op, keys)
		if o.Op == "set" || o.Op == "mset" {
			if o.Op == "set" {
				keys = keys[:1]
			}
			for s := m.splits(keys); s != nil; s = m.splits(keys) {
				if err := mget(what+" (ordering a batch)", s); err != nil {
					return err
				}
			}
		}
		now := time.Now()
		switch o.Op {
		case "get":
			if err := get(what, keys[0]); err != nil {
				return err
			}
		case "mget":
			if err := mget(what, keys); err != nil {
				return err
			}
		case "set":
			gen++
			if err := cache.Set(ctx, keys[0], gen, ttl(o.TTLms)); err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
			evicted += m.set(keys[0], gen, now, ttl(o.TTLms), 0)
		case "mset":
			kvs := map[K]int{}
			for _, k := range keys {
				if len(kvs) < p.Cap {
					gen++
					kvs[k] = gen
				}
			}
			group++
			arg := make(map[K]int, len(kvs))
			for k, v := range kvs {
				arg[k] = v
			}
			if err := cache.MSet(ctx, arg, ttl(o.TTLms)); err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
			if len(arg) != len(kvs) {
				return pbt.Errf("%s: MSet changed its argument", what)
			}
			// first move what is there to the front, so that no batch member is evicted
			for k, v := range kvs {
				if i := m.find(k); i >= 0 {
					m.front(m.del(i))
				}
				_ = v
			}
			for k, v := range kvs {
				evicted += m.set(k, v, now, ttl(o.TTLms), group)
			}
		case "delete":
			if err := cache.Delete(ctx, keys...); err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
			for _, k := range keys {
				if i := m.find(k); i >= 0 {
					m.del(i)
				}
			}
		}
	}
	time.Sleep(1)
	all := []K{}
	for i := 0; i < p.Range; i++ {
		all = append(all, key(i))
	}
	if err := mget("at the end", all); err != nil {
		return err
	}
	c.LabelIf(evicted > 0, "eviction")
	c.LabelIf(expired > 0, "expiry seen")
	c.LabelIf(usedUp > 0, "use limit seen")
	if evicted > 0 && (expired > 0 || usedUp > 0) {
		c.NonTrivial()
	}
	return nil
}

func genKeys(t *rapid.T, op string, rng, batch int) []int {
	n := 1
	switch op {
	case "mget", "delete":
		n = rapid.IntRange(0, batch).Draw(t, "nkeys")
	case "mset":
		n = rapid.IntRange(0, batch).Draw(t, "nkeys")
	}
	return rapid.SliceOfN(rapid.IntRange(0, rng-1), n, n).Draw(t, "keys")
}

func TestC22_LRU(t *testing.T) {
	pbt.Check(t, pbt.Prop[lruPlan]{
		Rule: "capacity 1..40, use limit 0..5, 4..60 int, string, struct or mixed interface keys; up to 80 gets, sets, batches (repeated keys included) and deletes with times to live from minimal to maximal, virtual time passing in between; every answer and the final content compared with an ordered-list model; " +
			"non-trivial: something was evicted and an expired or used-up entry was asked for",
		Cases: 6000,
		Gen: func(t *rapid.T) lruPlan {
			p := lruPlan{KeyType: rapid.SampledFrom([]string{"int", "string", "struct", "any", "float"}).Draw(t, "kt"),
				Cap: rapid.SampledFrom([]int{1, 2, 3, 3, 4, 5, 8, 40}).Draw(t, "cap"), MaxUsed: rapid.SampledFrom([]int{0, 0, 1, 2, 3, 5}).Draw(t, "maxUsed")}
			p.Range = p.Cap + rapid.SampledFrom([]int{1, 2, 4, 20}).Draw(t, "extra")
			p.Ops = pbt.Ops(t, 80, func(t *rapid.T) lruOp {
				o := lruOp{Op: rapid.SampledFrom([]string{"get", "get", "get", "set", "set", "set", "mget", "mset", "delete"}).Draw(t, "op")}
				o.Keys = genKeys(t, o.Op, p.Range, min(p.Range, 6))
				o.TTLms = genTTL(t, []int64{10, 20, 50, 50, 100, 100, 1000, 1000000, 1000000, forever, 0, -1, -forever})
				o.Near = genNear(t)
				o.Sleep = rapid.SampledFrom([]int64{0, 0, 0, 0, 1, 9, 10, 30, 99, 100, 2000}).Draw(t, "sleep")
				return o
			})
			return p
		},
		Run: func(c *pbt.Ctx, p lruPlan) error {
			return pbt.Bubble(t, func() error {
				switch p.KeyType {
				case "int":
					return runLRU(c, p, func(i int) int { return i })
				case "string":
					return runLRU(c, p, func(i int) string { return fmt.Sprint(i * 7) })
				case "struct":
					return runLRU(c, p, func(i int) skey { return skey{fmt.Sprint(i / 3), i % 3} })
				case "float":
					return runLRU(c, p, func(i int) float64 { return []float64{0, math.Inf(1), math.Inf(-1), 0.5}[i%4] + float64(i/4) })
				default:
					return runLRU(c, p, func(i int) any {
						switch i % 5 {
						case 0:
							return i / 5
						case 1:
							return int64(i / 5)
						case 2:
							return fmt.Sprint(i / 5)
						case 3:
							return float64(i / 5)
						default:
							return skey{"", i / 5}
						}
					})
				}
			})
		},
	})
}

func TestC22_Capacity(t *testing.T) {
	pbt.Check(t, pbt.Prop[struct{ Cap, MaxUsed, N int }]{
		Rule:  "construction with any capacity up to 3000 (non-positive ones panic), then more distinct keys than that: exactly the newest capacity many are found; non-trivial: capacity at least 1 and more keys than that",
		Cases: 300,
		Gen: func(t *rapid.T) struct{ Cap, MaxUsed, N int } {
			c := rapid.IntRange(-5, 60).Draw(t, "cap")
			if rapid.IntRange(0, 9).Draw(t, "big") == 0 {
				c = rapid.SampledFrom([]int{math.MinInt, math.MinInt / 3, 127, 128, 129, 255, 256, 257, 1000, 1024, 3000}).Draw(t, "cap2")
			}
			return struct{ Cap, MaxUsed, N int }{c, rapid.IntRange(0, 2).Draw(t, "mu"), max(0, c) + rapid.IntRange(0, 40).Draw(t, "n")}
		},
		Run: func(c *pbt.Ctx, p struct{ Cap, MaxUsed, N int }) error {
			var cache *cachex.LRUCacheV2[int, int]
			_, did := pbt.Panics(func() { cache = cachex.NewLRUCacheV2[int, int](p.Cap, p.MaxUsed) })
			if did != (p.Cap <= 0) {
				return pbt.Errf("construction with capacity %d panics: %v", p.Cap, did)
			}
			if did {
				return nil
			}
			if p.N > p.Cap {
				c.NonTrivial()
			}
			for i := 0; i < p.N; i++ {
				_ = cache.Set(ctx, i, i, time.Hour)
			}
			for i := 0; i < p.N; i++ {
				v, ok, _ := cache.Get(ctx, i)
				if want := i >= p.N-p.Cap; ok != want || ok && v != i {
					return pbt.Errf("capacity %d, keys 0..%d set in order: key %d found %v (%d)", p.Cap, p.N-1, i, ok, v)
				}
			}
			return nil
		},
	})
}
