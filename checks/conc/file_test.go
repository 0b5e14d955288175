package conc

import (
	"errors"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/miniLCT/gosb/library/cachex"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

type fsOp struct {
	Op   string
	Keys []int
	TTL  int // rounds; 0: an hour; negative: over
	Pad  int
	Wait int // rounds before the call
}

type fsPlan struct {
	Keys    int
	Wide    int  // batches also have the keys 3 .. 2+Wide
	GC      bool // clean on every call
	Prep    []fsOp
	Workers [][]fsOp
	Sched   sched
}

// fsVal tells by itself whether it is complete.
type fsVal struct {
	N   int
	Pad string
	End int
}

func mkVal(n, pad int) fsVal { return fsVal{n, strings.Repeat("<"+fmt.Sprint(n)+">", pad), n} }

type fsIn struct {
	Op             string
	K, V           int
	From, To       time.Duration // when the call was made and had returned
	ExpMin, ExpMax time.Duration // bounds of a set value's expiry
}

type fsState struct {
	V              int
	ExpMin, ExpMax time.Duration
}

// a read of key K at some moment in [From, To]
func fsStep(state, in, out any) (bool, any) {
	s, i, got := state.(fsState), in.(fsIn), out.(int)
	switch i.Op {
	case "set":
		return true, fsState{i.V, i.ExpMin, i.ExpMax}
	case "delete":
		return true, fsState{}
	}
	if got != 0 {
		return s.V == got && i.From <= s.ExpMax, s
	}
	return s.V == 0 || i.To >= s.ExpMin, s
}

var fsModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		var out [][]porcupine.Operation
		for _, o := range h {
			k := o.Input.(fsIn).K
			for len(out) <= k {
				out = append(out, nil)
			}
			out[k] = append(out[k], o)
		}
		return out
	},
	Init:              func() any { return fsState{} },
	Step:              fsStep,
	Equal:             func(a, b any) bool { return a == b },
	DescribeOperation: func(in, out any) string { return fmt.Sprintf("%+v -> %v", in, out) },
}

func genFsOp(t *rapid.T, keys int) fsOp {
	o := fsOp{Op: rapid.SampledFrom([]string{"get", "get", "get", "mget", "set", "set", "set", "mset", "delete", "purge", "purge"}).Draw(t, "op")}
	if o.Op == "purge" && rapid.IntRange(0, 1).Draw(t, "nopurge") == 0 {
		o.Op = "get"
	}
	n := 1
	if o.Op == "mget" || o.Op == "mset" || o.Op == "delete" {
		n = rapid.IntRange(1, keys).Draw(t, "n")
	}
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		k := rapid.IntRange(0, keys-1).Draw(t, "k")
		if o.Op == "mset" && used[k] {
			continue
		}
		used[k] = true
		o.Keys = append(o.Keys, k)
	}
	if o.Op == "set" || o.Op == "mset" {
		o.TTL = rapid.SampledFrom([]int{0, 0, 0, -1, 3, 10, 30, 100}).Draw(t, "ttl")
		o.Pad = rapid.SampledFrom([]int{0, 1, 10, 40, 400, 1000}).Draw(t, "pad")
	}
	if rapid.IntRange(0, 4).Draw(t, "waits") == 0 {
		o.Wait = rapid.IntRange(1, 60).Draw(t, "wait")
	}
	return o
}

func genFs(t *rapid.T) fsPlan {
	p := fsPlan{Keys: rapid.IntRange(1, 3).Draw(t, "keys"), GC: rapid.IntRange(0, 4).Draw(t, "gc") > 0}
	op := rapid.Custom(func(t *rapid.T) fsOp { return genFsOp(t, p.Keys) })
	p.Prep = rapid.SliceOfN(op, 0, 5).Draw(t, "prep")
	n, most := rapid.IntRange(2, 4).Draw(t, "workers"), 5
	if rapid.IntRange(0, 24).Draw(t, "wide") == 24 {
		p.Wide, most = rapid.IntRange(10, 70).Draw(t, "width"), 3
	}
	for i := 0; i < n; i++ {
		p.Workers = append(p.Workers, rapid.SliceOfN(op, 1, most).Draw(t, "ops"))
	}
	p.Sched = genSched(t, n+2, 120)
	return p
}

func runFs(t *testing.T, c *pbt.Ctx, p fsPlan) error {
	dir, done := pbt.Scratch()
	defer done()
	f := &cachex.FileStore[string, fsVal]{Dir: dir, GCCycle: time.Hour}
	if p.GC {
		f.GCCycle = time.Millisecond // below its granularity: on every call
	}
	key := func(k int) string { return fmt.Sprint("key", k) }
	var h, vals history
	var start time.Time
	hits, misses := 0, 0
	do := func(client int, o fsOp) error {
		what := o
		if o.Op == "mget" || o.Op == "mset" || o.Op == "delete" {
			o.Keys = append([]int{}, o.Keys...)
			for i := 0; i < p.Wide; i++ {
				o.Keys = append(o.Keys, 3+i)
			}
		}
		if o.Wait > 0 {
			time.Sleep(time.Duration(o.Wait) * round)
		}
		point()
		at := func() time.Duration { return time.Since(start) }
		var err error
		read := func(from time.Duration, call int64, k int, v fsVal, ok bool) {
			n := 0
			if ok {
				n = v.N
				if n <= 0 || v.End != n || v.Pad != strings.Repeat("<"+fmt.Sprint(n)+">", len(v.Pad)/(2+len(fmt.Sprint(n)))) {
					err = pbt.Errf("%+v returned a value nobody set: %+v", what, v)
				}
			} else if v != (fsVal{}) {
				err = pbt.Errf("%+v missed and returned a value: %+v", what, v)
			}
			h.add(client, fsIn{Op: "get", K: k, From: from, To: at()}, call, n)
		}
		ttl := time.Hour
		if o.TTL > 0 {
			ttl = time.Duration(o.TTL)*round - round/2
		} else if o.TTL < 0 {
			ttl = -time.Hour
		}
		from, call := at(), h.now()
		switch o.Op {
		case "get":
			v, ok, e := f.Get(ctx, key(o.Keys[0]))
			if e != nil {
				return pbt.Errf("%+v: %v", what, e)
			}
			read(from, call, o.Keys[0], v, ok)
		case "mget":
			var ks []string
			for _, k := range o.Keys {
				ks = append(ks, key(k))
			}
			vs, oks, e := f.MGet(ctx, ks...)
			if e != nil || len(vs) != len(ks) || len(oks) != len(ks) {
				return pbt.Errf("%+v: %d values, %d flags, %v", what, len(vs), len(oks), e)
			}
			for i, k := range o.Keys {
				read(from, call, k, vs[i], oks[i])
			}
		case "set", "mset":
			kvs := map[string]fsVal{}
			ns := map[int]int{}
			for _, k := range o.Keys {
				ns[k] = int(vals.now())
				kvs[key(k)] = mkVal(ns[k], o.Pad)
			}
			if o.Op == "set" {
				err = f.Set(ctx, key(o.Keys[0]), kvs[key(o.Keys[0])], ttl)
			} else {
				err = f.MSet(ctx, kvs, ttl)
			}
			to := at()
			for _, k := range o.Keys {
				h.add(client, fsIn{"set", k, ns[k], from, to, from + ttl, to + ttl}, call, 0)
			}
		case "delete":
			var ks []string
			for _, k := range o.Keys {
				ks = append(ks, key(k))
			}
			err = f.Delete(ctx, ks...)
			for _, k := range o.Keys {
				h.add(client, fsIn{Op: "delete", K: k, From: from, To: at()}, call, 0)
			}
		case "purge":
			err = f.Purge()
			for k := 0; k < 3+p.Wide; k++ {
				h.add(client, fsIn{Op: "delete", K: k, From: from, To: at()}, call, 0)
			}
		}
		if err != nil {
			return pbt.Errf("%+v: %v", what, err)
		}
		return nil
	}
	err := runWorkers(t, p.Sched, len(p.Workers), func() error {
		start = time.Now()
		for _, o := range p.Prep {
			o.Wait = 0
			if err := do(1000, o); err != nil {
				return err
			}
		}
		return nil
	}, func(w int) error {
		for _, o := range p.Workers[w] {
			if err := do(w, o); err != nil {
				return err
			}
		}
		return nil
	}, func() error {
		if instrumented {
			time.Sleep(20 * time.Second) // the cleaner is done
		}
		c.LabelIf(p.Wide > 0, "wide")
		for k := 0; k < 3+p.Wide; k++ {
			if k >= p.Keys && k < 3 {
				continue
			}
			if err := do(1001, fsOp{Op: "get", Keys: []int{k}}); err != nil {
				return err
			}
			if h.ops[len(h.ops)-1].Output.(int) != 0 {
				hits++
			} else {
				misses++
			}
		}
		if instrumented {
			time.Sleep(20 * time.Second)
		}
		return nil
	})
	if err != nil {
		return pbt.Errf("%v\n%s", err, h.describe(fsModel.DescribeOperation))
	}
	writes := false
	for _, o := range h.ops {
		writes = writes || o.ClientId < 1000 && o.Input.(fsIn).Op == "set"
	}
	if writes && h.overlaps() {
		c.NonTrivial()
		c.LabelIf(hits > 0, "a value remained")
	}
	err = h.linearizable(c, fsModel)
	if err != nil {
		err = errors.New(strings.ReplaceAll(err.Error(), "sequential order", "sequential order (with expiry)"))
	}
	return err
}

const fsRule = "2..4 workers with 1..5 calls each (get, batch get, set, batch set, delete, purge; values from empty to long, times to live over, ending during the run or an hour) on one file store of 1..3 keys (one case in 25: batches of 10..70 more), the cleaner started by every call in four fifths of the cases; no call may fail or block for ever, and each key must behave like a register with expiry, linearizably, to the end; non-trivial: a set and overlapping calls"

func TestC26_Sched(t *testing.T) {
	only(t, true)
	pbt.Check(t, pbt.Prop[fsPlan]{
		Rule: fsRule + "; every statement and every step of reading and writing a file a scheduling point", Cases: 4000, Gen: genFs,
		Run: func(c *pbt.Ctx, p fsPlan) error { return runFs(t, c, p) },
	})
}

func TestC26_Race(t *testing.T) {
	only(t, false)
	pbt.Check(t, pbt.Prop[fsPlan]{
		Rule: fsRule + "; real threads under the race detector", Cases: 1200, NoShrink: true, Repeats: 300, Gen: genFs,
		Run: func(c *pbt.Ctx, p fsPlan) error { return runFs(t, c, p) },
	})
}

// ---- cleaning does not hold up the call that starts it ---------------------------

type fsCleanPlan struct {
	Op      string
	Keys    int // of the call
	Expired int
	Live    int
	Sched   sched
}

func runFsClean(t *testing.T, c *pbt.Ctx, p fsCleanPlan) error {
	base, done := pbt.Scratch()
	defer done()
	// One store has nothing to clean, the other a lot.
	stores := []*cachex.FileStore[string, int]{{Dir: base + "/a", GCCycle: time.Second}, {Dir: base + "/b", GCCycle: time.Second}}
	name := func(i int) string { return fmt.Sprint("key", i) }
	var took [2]time.Duration
	return runWorkers(t, p.Sched, 1, func() error {
		for i, f := range stores {
			if _, _, err := f.Get(ctx, "first use"); err != nil {
				return err
			}
			for j := range i*p.Expired + p.Live {
				ttl := time.Hour
				if j >= p.Live {
					ttl = time.Millisecond
				}
				if err := f.Set(ctx, name(j), j, ttl); err != nil {
					return err
				}
			}
		}
		return nil
	}, func(int) error {
		for i, f := range stores {
			time.Sleep(5 * time.Second)
			keys, kvs := []string{}, map[string]int{}
			for j := range p.Keys {
				keys = append(keys, name(j))
				kvs[name(j)] = j
			}
			point()
			start := time.Now()
			var err error
			switch p.Op {
			case "get":
				_, _, err = f.Get(ctx, keys[0])
			case "mget":
				_, _, err = f.MGet(ctx, keys...)
			case "set":
				err = f.Set(ctx, keys[0], 7, time.Hour)
			case "mset":
				err = f.MSet(ctx, kvs, time.Hour)
			case "delete":
				err = f.Delete(ctx, keys...)
			}
			took[i] = time.Since(start)
			if err != nil {
				return pbt.Errf("%s: %v", p.Op, err)
			}
		}
		return nil
	}, func() error {
		time.Sleep(20 * time.Second)
		rounds := func(d time.Duration) int { return int(d / round) }
		c.LabelIf(rounds(took[0]) > 0, "measured")
		if p.Expired >= 40 {
			c.NonTrivial()
		}
		if took[1] > 4*took[0]+100*round {
			return pbt.Errf("a %s of %d keys that starts the cleaning takes %d steps when %d entries have expired and %d when none has: it waits for the cleaning", p.Op, p.Keys, rounds(took[1]), p.Expired, rounds(took[0]))
		}
		return nil
	})
}

func TestC26_SchedClean(t *testing.T) {
	only(t, true)
	pbt.Check(t, pbt.Prop[fsCleanPlan]{
		Rule:  "a get, set, delete or batch of 1..3 keys that starts the cleaning of a store with 0..120 expired entries and of one with none, every statement and every step of reading and writing a file a step: the call must not take longer for what there is to clean; non-trivial: at least 40 expired entries",
		Cases: 60,
		Gen: func(t *rapid.T) fsCleanPlan {
			return fsCleanPlan{
				Op:      rapid.SampledFrom([]string{"get", "mget", "set", "mset", "delete"}).Draw(t, "op"),
				Keys:    rapid.IntRange(1, 3).Draw(t, "keys"),
				Expired: rapid.IntRange(0, 120).Draw(t, "expired"),
				Live:    rapid.IntRange(0, 4).Draw(t, "live"),
				Sched:   sched{Order: rapid.Uint64Range(0, 50).Draw(t, "order")},
			}
		},
		Run: func(c *pbt.Ctx, p fsCleanPlan) error { return runFsClean(t, c, p) },
	})
}
