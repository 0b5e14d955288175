package cachex

import (
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// ---- C47: refused file operations -------------------------------------------------

type faultOp struct {
	Op    string
	Keys  []int
	Len   int   // length of the value's text
	TTLms int64 // of a set
	Sleep int64
	Fault string `json:",omitempty"` // what is broken during the operation
	At    int    `json:",omitempty"`
	More  []int  `json:",omitempty"` // where else it is broken
	All   bool   `json:",omitempty"` // all keys
}

type faultPlan struct {
	Dir  string
	N    int `json:",omitempty"` // number of keys, if not six
	GCms int64
	Ops  []faultOp
}

func init() { signal.Ignore(syscall.SIGXFSZ) }

// limit lowers a soft limit of the process and returns what restores it.
func limit(which int, to uint64) (func(), error) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(which, &old); err != nil {
		return nil, err
	}
	if err := syscall.Setrlimit(which, &syscall.Rlimit{Cur: min(to, old.Max), Max: old.Max}); err != nil {
		return nil, err
	}
	return func() { _ = syscall.Setrlimit(which, &old) }, nil
}

var modes = map[string]os.FileMode{"dir readonly": 0o555, "dir closed": 0, "dir unlisted": 0o333, "dir listed": 0o444, "file closed": 0, "file readonly": 0o444, "file writeonly": 0o222}

type faultState struct {
	v       string
	at      time.Time
	ttl     time.Duration
	present bool
	// left in doubt by a refused operation:
	mayGone bool
	mayErr  bool     // what is there may be damaged: one error
	mayVals []string // refused values
	mayTTL  time.Duration
	mayAt   time.Time
}

func (s *faultState) alive() bool { return s.present && time.Since(s.at) < s.ttl }

func runFault(c *pbt.Ctx, p faultPlan) error {
	base, done := pbt.Scratch()
	defer done()
	dir, err := place(p.Dir, base)
	if err != nil {
		return err
	}
	st := &cachex.FileStore[string, string]{Dir: dir, GCCycle: time.Duration(p.GCms) * time.Millisecond}
	name := func(i int) string { return fmt.Sprintf("key %d %s", i, strKey(i)) }
	states := map[string]*faultState{}
	files := map[string]string{}
	nkeys := 6
	if p.N > 0 {
		nkeys = p.N
	}
	for i := range nkeys {
		states[name(i)] = &faultState{}
		was := regular(dir)
		if err := st.Set(ctx, name(i), "", time.Hour); err != nil {
			return pbt.Errf("set: %v", err)
		}
		for f := range regular(dir) {
			if !was[f] {
				files[name(i)] = f
			}
		}
		if files[name(i)] == "" {
			return pbt.Errf("a set of a new key makes no file")
		}
	}
	if err := st.Purge(); err != nil {
		return pbt.Errf("purge: %v", err)
	}
	refusals, swallowed, gen := 0, 0, 0
	// read judges one answer; faulty tells that the key was out of reach
	read := func(what, k string, v string, ok bool, err error, faulty bool) error {
		s := states[k]
		switch {
		case err != nil:
			if !faulty && !s.mayErr {
				return pbt.Errf("%s: key %q reports %v", what, k, err)
			}
			if !faulty { // reported, and gone
				*s = faultState{}
			}
			return nil
		case ok:
			if s.alive() && v == s.v {
				s.mayGone, s.mayErr, s.mayVals = false, false, nil
				return nil
			}
			for _, m := range s.mayVals {
				if v == m && time.Since(s.mayAt) < s.mayTTL {
					*s = faultState{v: v, at: s.mayAt, ttl: s.mayTTL, present: true}
					return nil
				}
			}
			return pbt.Errf("%s: key %q = %.40q, which it was not set to (%.40q, there: %v)", what, k, v, s.v, s.alive())
		default:
			if v != "" {
				return pbt.Errf("%s: a miss of key %q with value %.40q", what, k, v)
			}
			if s.alive() && !s.mayGone {
				return pbt.Errf("%s: key %q is a miss without an error, but its value is there", what, k)
			}
			if !faulty {
				*s = faultState{}
			}
			return nil
		}
	}
	check := func(what string) error {
		for i := range nkeys {
			k := name(i)
			v, ok, err := st.Get(ctx, k)
			synctest.Wait()
			if err := read(what, k, v, ok, err, false); err != nil {
				return err
			}
		}
		return nil
	}
	for n, o := range p.Ops {
		time.Sleep(time.Duration(o.Sleep)*time.Millisecond + 1)
		keys := []string{}
		if o.All {
			for i := range nkeys {
				keys = append(keys, name(i))
			}
		}
		for _, i := range o.Keys {
			keys = append(keys, name(i))
		}
		what := fmt.Sprintf("op %d %s %q", n, o.Op, keys)
		// break something
		restore := func() {}
		out := map[string]bool{} // keys that may be out of reach
		all := func() {
			for k := range states {
				out[k] = true
			}
		}
		switch o.Fault {
		case "":
		case "no descriptors":
			restore, err = limit(syscall.RLIMIT_NOFILE, 0)
			all()
		case "quota":
			restore, err = limit(syscall.RLIMIT_FSIZE, uint64(o.At))
			if o.Op == "set" || o.Op == "mset" {
				for _, k := range keys {
					out[k] = true
				}
			}
		default:
			var undo []func()
			restore = func() {
				for i := len(undo) - 1; i >= 0; i-- {
					undo[i]()
				}
			}
			for _, x := range append([]int{o.At}, o.More...) {
				at := files[name(x%nkeys)]
				if strings.HasPrefix(o.Fault, "dir") {
					for range 1 + x/nkeys%6 {
						at = filepath.Dir(at)
					}
				}
				info, e := os.Stat(at)
				if e != nil {
					continue // nothing there to break, or out of reach already
				}
				old := info.Mode().Perm()
				if err = os.Chmod(at, modes[o.Fault]); err != nil {
					break
				}
				undo = append(undo, func() { _ = os.Chmod(at, old) })
				for k, f := range files {
					if f == at || strings.HasPrefix(f, at+"/") {
						out[k] = true
					}
				}
			}
		}
		if err != nil {
			restore()
			return fmt.Errorf("harness: %s: %w", o.Fault, err)
		}
		if o.Fault != "" {
			what += " under " + o.Fault
		}
		anyOut, doubt := false, false // of the keys asked for
		for _, k := range keys {
			anyOut = anyOut || out[k]
			doubt = doubt || out[k] || states[k].mayErr
		}
		now := time.Now()
		var opErr, bad error
		switch o.Op {
		case "get":
			v, ok, err := st.Get(ctx, keys[0])
			synctest.Wait()
			restore()
			opErr = err
			bad = read(what, keys[0], v, ok, err, out[keys[0]])
		case "mget":
			vs, oks, err := st.MGet(ctx, keys...)
			synctest.Wait()
			restore()
			opErr = err
			if err != nil {
				if !doubt {
					bad = pbt.Errf("%s: %v", what, err)
				}
				for _, k := range keys { // one that was in doubt may be gone now
					if states[k].mayErr {
						states[k].mayGone = true
					}
				}
				break
			}
			if len(vs) != len(keys) || len(oks) != len(keys) {
				bad = pbt.Errf("%s: %d values, %d flags", what, len(vs), len(oks))
			}
			for i, k := range keys {
				if bad == nil {
					bad = read(what, k, vs[i], oks[i], nil, out[k])
				}
			}
		case "set", "mset":
			gen++
			v := fmt.Sprintf("%d %s", gen, strings.Repeat("v", o.Len))
			if o.Op == "set" {
				opErr = st.Set(ctx, keys[0], v, ttl(o.TTLms))
			} else {
				kvs := map[string]string{}
				for _, k := range keys {
					kvs[k] = v
				}
				opErr = st.MSet(ctx, kvs, ttl(o.TTLms))
			}
			synctest.Wait()
			restore()
			if opErr != nil && !anyOut {
				bad = pbt.Errf("%s: %v", what, opErr)
			}
			for _, k := range keys {
				s := states[k]
				if opErr == nil || !out[k] {
					*s = faultState{v: v, at: now, ttl: ttl(o.TTLms), present: true}
				} else {
					s.mayGone, s.mayErr = true, true
					s.mayVals, s.mayAt, s.mayTTL = append(s.mayVals, v), now, ttl(o.TTLms)
				}
			}
		case "delete":
			opErr = st.Delete(ctx, keys...)
			synctest.Wait()
			restore()
			if opErr != nil && !anyOut {
				bad = pbt.Errf("%s: %v", what, opErr)
			}
			for _, k := range keys {
				if opErr == nil || !out[k] {
					*states[k] = faultState{}
				} else {
					states[k].mayGone = true
				}
			}
		case "purge":
			opErr = st.Purge()
			synctest.Wait()
			restore()
			if opErr != nil && len(out) == 0 {
				bad = pbt.Errf("%s: %v", what, opErr)
			}
			for k, s := range states {
				if opErr == nil || !out[k] {
					*s = faultState{}
				} else {
					s.mayGone = true
				}
			}
		}
		if bad != nil {
			return bad
		}
		if o.Fault != "" && opErr != nil {
			refusals++
			c.Label("refused: " + o.Fault)
		} else if o.Fault != "" && len(out) > 0 {
			swallowed++
		}
		if o.Fault != "" || n == len(p.Ops)-1 {
			if err := check(fmt.Sprintf("after %s (error: %v)", what, opErr)); err != nil {
				return err
			}
		}
	}
	c.LabelIf(swallowed > 0, "without effect")
	if refusals > 0 {
		c.NonTrivial()
	}
	return nil
}

func faultKinds() []string {
	kinds := []string{"no descriptors", "quota", "quota"}
	if os.Geteuid() != 0 { // the superuser is refused nothing
		kinds = append(kinds, "dir readonly", "dir readonly", "dir closed", "dir unlisted", "dir listed", "file closed", "file readonly", "file writeonly")
	}
	return kinds
}

// Many keys and many refusals within one batch, purge or cleaning.
func TestC47_Many(t *testing.T) {
	kinds := faultKinds()
	pbt.Check(t, pbt.Prop[faultPlan]{
		Rule:  "2..8 batch writes, batch reads, batch deletes and purges over all of 33..120 keys, during most of them the same thing broken at 1..40 places; oracle of the histories of six keys; non-trivial: an operation was refused",
		Cases: 20,
		Gen: func(t *rapid.T) faultPlan {
			p := faultPlan{Dir: rapid.SampledFrom([]string{"plain", "deep", "link", "below"}).Draw(t, "dir"), N: pbt.Large(t, 120, "n"), GCms: rapid.SampledFrom([]int64{1, 1000, 3600000}).Draw(t, "gc")}
			p.Ops = append(p.Ops, faultOp{Op: "mset", All: true, TTLms: 1e9})
			for range rapid.IntRange(1, 7).Draw(t, "ops") {
				o := faultOp{Op: rapid.SampledFrom([]string{"mset", "mset", "mget", "delete", "purge", "purge"}).Draw(t, "op"), All: true}
				o.Len = rapid.SampledFrom([]int{0, 10, 5000}).Draw(t, "len")
				o.TTLms = rapid.SampledFrom([]int64{5000, 1e9, 1e9, forever}).Draw(t, "ttl")
				o.Sleep = rapid.SampledFrom([]int64{0, 0, 1, 2000}).Draw(t, "sleep")
				if rapid.IntRange(0, 3).Draw(t, "broken") > 0 {
					o.Fault = rapid.SampledFrom(kinds).Draw(t, "fault")
					at := func() int { // mostly the leaf directories
						return rapid.IntRange(0, p.N-1).Draw(t, "key") + p.N*rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4, 5}).Draw(t, "up")
					}
					o.At = at()
					if o.Fault == "quota" {
						o.At = rapid.SampledFrom([]int{0, 5, 60, 110, 4096}).Draw(t, "bytes")
					}
					for range rapid.SampledFrom([]int{0, 1, 3, 10, 39}).Draw(t, "more") {
						o.More = append(o.More, at())
					}
				}
				p.Ops = append(p.Ops, o)
			}
			return p
		},
		Run: func(c *pbt.Ctx, p faultPlan) error {
			return pbt.Bubble(t, func() error { return runFault(c, p) })
		},
	})
}

func TestC47_Refused(t *testing.T) {
	kinds := faultKinds()
	pbt.Check(t, pbt.Prop[faultPlan]{
		Rule: "up to 40 gets, sets, batches, deletes and purges of six keys; during about half of them something is broken: no free file descriptors, a file size limit at a drawn byte, or the permissions of an entry's file or of one of the directories above it; a call that returns no error must have had its full effect, one that returns an error leaves the keys within reach as if nothing was broken and the others with the old value, the new one, none or one damaged entry; reads never show anything else; " +
			"non-trivial: an operation was refused",
		Cases: 1600,
		Gen: func(t *rapid.T) faultPlan {
			p := faultPlan{Dir: rapid.SampledFrom([]string{"plain", "plain", "deep", "link", "below"}).Draw(t, "dir"), GCms: rapid.SampledFrom([]int64{1, 1000, 0, 3600000}).Draw(t, "gc")}
			p.Ops = pbt.Ops(t, 40, func(t *rapid.T) faultOp {
				o := faultOp{Op: rapid.SampledFrom([]string{"get", "get", "set", "set", "set", "set", "mset", "mget", "delete", "delete", "purge"}).Draw(t, "op")}
				n := 1
				switch o.Op {
				case "mget", "mset", "delete":
					n = rapid.IntRange(1, 4).Draw(t, "nkeys")
				case "purge":
					n = 0
				}
				for range n {
					o.Keys = append(o.Keys, rapid.IntRange(0, 5).Draw(t, "k"))
				}
				o.Len = rapid.SampledFrom([]int{0, 1, 10, 300, 5000, 20000}).Draw(t, "len")
				o.TTLms = rapid.SampledFrom([]int64{100, 5000, 1e9, 1e9, 1e9, forever}).Draw(t, "ttl")
				o.Sleep = rapid.SampledFrom([]int64{0, 0, 0, 1, 99, 2000}).Draw(t, "sleep")
				if rapid.Bool().Draw(t, "broken") {
					o.Fault = rapid.SampledFrom(kinds).Draw(t, "fault")
					o.At = rapid.IntRange(0, 35).Draw(t, "at")
					if rapid.IntRange(0, 3).Draw(t, "several") == 0 {
						o.More = rapid.SliceOfN(rapid.IntRange(0, 35), 1, 4).Draw(t, "more")
					}
					if o.Fault == "quota" {
						o.At = rapid.SampledFrom([]int{0, 1, 5, 20, 60, 100, 110, 120, 300, 4096}).Draw(t, "bytes")
					}
				}
				return o
			})
			return p
		},
		Run: func(c *pbt.Ctx, p faultPlan) error {
			return pbt.Bubble(t, func() error { return runFault(c, p) })
		},
	})
}
