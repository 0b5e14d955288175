package cachex

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"testing"
	"testing/synctest"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// ---- C46: cleaning cycles -------------------------------------------------------

type cleanOp struct {
	Op    string
	Keys  []int
	TTLms int64
	Sleep int64
	Near  int64 `json:",omitempty"` // relative to the expiry of the first key
	Due   int64 `json:",omitempty"` // relative to the moment cleaning is due
	Many  int   `json:",omitempty"` // so many other keys
}

type cleanPlan struct {
	Dir  string
	GCms int64
	Ops  []cleanOp
}

const slack = time.Second + 10*time.Millisecond // moments of cleaning may be kept in whole seconds

func regular(root string) map[string]bool {
	m := map[string]bool{}
	_ = filepath.WalkDir(filepath.Clean(root)+"/", func(path string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() {
			m[path] = true
		}
		return nil
	})
	return m
}

func runClean(c *pbt.Ctx, p cleanPlan) error {
	base, done := pbt.Scratch()
	defer done()
	dir, err := place(p.Dir, base)
	if err != nil {
		return err
	}
	gc := time.Duration(p.GCms) * time.Millisecond
	cycle := gc
	if cycle <= 0 {
		cycle = time.Minute
	}
	var st *cachex.FileStore[string, string]
	// the last cleaning, or first use, was between lo and hi
	var lo, hi time.Time
	open := func() {
		st = &cachex.FileStore[string, string]{Dir: dir, GCCycle: gc}
		lo, hi = time.Time{}, time.Time{}
	}
	open()
	type ent struct {
		v   string
		at  time.Time
		ttl time.Duration
	}
	ents := map[string]ent{}
	files := map[string]string{} // entry file of a key, found by watching
	name := func(i int) string { return fmt.Sprintf("key %d %s", i, strKey(i)) }
	on := func(k string) bool {
		_, err := os.Lstat(files[k])
		return err == nil
	}
	cleaned, idle, gen := 0, 0, 0
	for n, o := range p.Ops {
		nap := time.Duration(o.Sleep) * time.Millisecond
		e, ok := ent{}, false
		if len(o.Keys) > 0 {
			e, ok = ents[name(o.Keys[0])]
		}
		if ok && o.Near != 0 {
			nap = untilExpiry(e.at, e.ttl, o.Near)
		} else if o.Due != 0 && !hi.IsZero() {
			nap = max(0, time.Until(hi.Add(cycle+time.Duration(o.Due)*time.Millisecond)))
		}
		time.Sleep(nap + 1)
		what := fmt.Sprintf("op %d %s", n, o.Op)
		if o.Op == "reopen" {
			open()
			continue
		}
		if o.Op == "obstacle" {
			// something cleaning cannot read, or need not, in the way of the entries
			at := dir
			if f := files[name(o.Keys[0])]; f != "" {
				for at = filepath.Dir(f); o.Many > 0 && at != filepath.Clean(dir); o.Many-- {
					at = filepath.Dir(at)
				}
			}
			if err := os.MkdirAll(at, 0o755); err != nil {
				return fmt.Errorf("harness: %w", err)
			}
			at = filepath.Join(at, []string{"!", "zz", "0", "8"}[o.Sleep%4]+[]string{"x.cache", "x", "x.cache"}[o.Sleep%3])
			switch o.Sleep % 5 {
			case 0:
				_ = os.WriteFile(at, []byte("locked"), 0)
			case 1:
				_ = os.Mkdir(at, 0)
			case 2:
				_ = os.Symlink(at, at)
			case 3:
				_ = os.Symlink(at+".nowhere", at)
			case 4:
				_ = os.WriteFile(at, []byte("what"), 0o400)
			}
			c.Label("obstacle")
			continue
		}
		touched := map[string]bool{}
		keys := []string{}
		for _, i := range o.Keys {
			keys = append(keys, name(i))
			touched[name(i)] = true
		}
		// expired entries this operation has no other reason to remove
		garbage := []string{}
		for k, e := range ents {
			if !touched[k] && time.Since(e.at) >= e.ttl && on(k) {
				garbage = append(garbage, k)
			}
		}
		now := time.Now()
		if lo.IsZero() { // the first use
			lo, hi = now, now
		}
		must := now.Sub(hi) >= cycle+slack
		mustnt := now.Sub(lo) <= cycle.Truncate(time.Second)-slack
		switch o.Op {
		case "get":
			_, _, err = st.Get(ctx, keys[0])
		case "mget":
			_, _, err = st.MGet(ctx, keys...)
		case "delete":
			err = st.Delete(ctx, keys...)
			for _, k := range keys {
				delete(ents, k)
			}
		case "flood":
			was := regular(dir)
			other := []string{}
			for i := range o.Many {
				k := fmt.Sprintf("flood %d %d", n, i)
				other = append(other, k)
				if err == nil {
					err = st.Set(ctx, k, "", ttl(o.TTLms))
				}
			}
			synctest.Wait()
			for f := range regular(dir) {
				if !was[f] && len(other) > 0 { // which is whose does not matter
					ents[other[0]], files[other[0]] = ent{"", now, ttl(o.TTLms)}, f
					other = other[1:]
				}
			}
			c.Label("flood")
		case "set", "mset":
			var was map[string]bool
			if o.Op == "set" && files[keys[0]] == "" {
				was = regular(dir)
			}
			gen++
			v := fmt.Sprint(gen)
			if o.Op == "set" {
				err = st.Set(ctx, keys[0], v, ttl(o.TTLms))
			} else {
				kvs := map[string]string{}
				for _, k := range keys {
					kvs[k] = v
				}
				err = st.MSet(ctx, kvs, ttl(o.TTLms))
			}
			for k := range touched {
				ents[k] = ent{v, now, ttl(o.TTLms)}
				if files[k] == "" && o.Op == "set" {
					synctest.Wait()
					for f := range regular(dir) {
						if !was[f] {
							files[k] = f
						}
					}
				}
			}
		}
		if err != nil {
			return pbt.Errf("%s: %v", what, err)
		}
		synctest.Wait()
		left, gone := 0, 0
		example := ""
		for _, k := range garbage {
			if on(k) {
				left++
				example = k
			} else {
				gone++
			}
		}
		for k, e := range ents {
			if files[k] != "" && time.Since(e.at) < e.ttl && !on(k) {
				return pbt.Errf("%s: the file of the unexpired entry %q is gone", what, k)
			}
		}
		switch {
		case must && left > 0:
			return pbt.Errf("%s, %v after the last cleaning (cycle %v): %d expired entries are removed, %d (one is %q) are not", what, now.Sub(hi), cycle, gone, left, example)
		case mustnt && gone > 0:
			return pbt.Errf("%s, %v after the last cleaning (cycle %v): %d expired entries are removed already", what, now.Sub(lo), cycle, gone)
		case left > 0 && gone > 0:
			return pbt.Errf("%s: cleaning removes %d expired entries and leaves %d (one is %q)", what, gone, left, example)
		}
		switch {
		case must || gone > 0:
			lo, hi = now, now
		case !mustnt && left == 0:
			hi = now // perhaps
		case mustnt && left > 0:
			idle++
		}
		if gone > 0 {
			cleaned++
		}
	}
	c.LabelIf(cleaned > 0, "cleaned")
	c.LabelIf(idle > 0, "garbage within the cycle")
	c.LabelIf(cleaned > 1, "several cycles")
	if cleaned > 0 && idle > 0 {
		c.NonTrivial()
	}
	return nil
}

func TestC46_Cleaning(t *testing.T) {
	pbt.Check(t, pbt.Prop[cleanPlan]{
		Rule: "up to 60 gets, sets, batches and deletes of up to 13 keys, and now and then up to 150 others, with naps relative to expiries and to the moment cleaning is due, cleaning cycles from a millisecond to 200 days and not positive ones, directories of all kinds, files and directories in between that cannot be read, under virtual time; after each operation the files of entries that expired are looked at: once the cycle has passed since the last cleaning or first use all must be gone, before that none; " +
			"non-trivial: an operation that cleaned and one within the cycle that left expired entries",
		Cases: 2500,
		Gen: func(t *rapid.T) cleanPlan {
			p := cleanPlan{Dir: rapid.SampledFrom(places).Draw(t, "dir"),
				GCms: rapid.SampledFrom([]int64{0, -1, -60000, 1, 999, 1000, 1500, 5000, 5000, 30000, 59999, 60000, 61000, 3600000, 3 * 86400000, 26 * 86400000, 55 * 86400000, 200 * 86400000}).Draw(t, "gc")}
			width := rapid.SampledFrom([]int{1, 3, 6, 12}).Draw(t, "width")
			p.Ops = pbt.Ops(t, 60, func(t *rapid.T) cleanOp {
				o := cleanOp{Op: rapid.SampledFrom([]string{"get", "get", "set", "set", "set", "set", "mset", "mget", "delete", "reopen", "obstacle"}).Draw(t, "op")}
				if o.Op == "reopen" && rapid.IntRange(0, 3).Draw(t, "really") > 0 {
					o.Op = "set"
				}
				n := 1
				if o.Op[0] == 'm' || o.Op == "delete" {
					n = rapid.IntRange(0, 3).Draw(t, "nkeys")
				}
				if o.Op == "get" && rapid.IntRange(0, 149).Draw(t, "flood") == 0 {
					o.Op, n = "flood", 0
					o.Many = rapid.IntRange(20, 150).Draw(t, "many")
				}
				for range n {
					o.Keys = append(o.Keys, rapid.IntRange(0, width).Draw(t, "k"))
				}
				if o.Op == "obstacle" {
					o.Sleep, o.Many = int64(rapid.IntRange(0, 59).Draw(t, "kind")), rapid.IntRange(0, 6).Draw(t, "up")
					return o
				}
				o.TTLms = rapid.SampledFrom([]int64{1, 5, 100, 900, 2000, 10000, 59000, 61000, 100000, 10000000, forever, 0, -1}).Draw(t, "ttl")
				switch rapid.IntRange(0, 5).Draw(t, "nap") {
				case 0:
					o.Near = rapid.SampledFrom([]int64{1, 2, -1, 500, 1001}).Draw(t, "near")
				case 1, 2:
					o.Due = rapid.SampledFrom([]int64{1011, 1011, 1100, 2000, -1011, -1011, -1500, -1, 1, 400, 60000, -10000}).Draw(t, "due")
				default:
					o.Sleep = rapid.SampledFrom([]int64{0, 0, 1, 6, 200, 1500, 4000, 61000}).Draw(t, "sleep")
				}
				if o.Op == "flood" {
					o.TTLms = max(o.TTLms, 1)
				}
				return o
			})
			return p
		},
		Run: func(c *pbt.Ctx, p cleanPlan) error {
			return pbt.Bubble(t, func() error { return runClean(c, p) })
		},
	})
}
