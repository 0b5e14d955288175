package cachex

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// ---- C48: restarts and crashes ------------------------------------------------------

type runOp struct {
	Op    string
	Keys  []int
	Vals  []int
	Stale bool // set with a time to live that is over at once
	Brief bool `json:",omitempty"` // or over before the next process begins
}

type life struct {
	Ops    []runOp
	KillAt int  `json:",omitempty"` // killed when so many operations were answered (0: ends by itself)
	Delay  int  `json:",omitempty"` // and so many microseconds passed
	Unread bool `json:",omitempty"` // the next process is the first to read
}

type restartPlan struct {
	KeyType string
	GCms    int64
	Lives   []life
}

type ack struct {
	Err  string  `json:",omitempty"`
	Vals []fsVal `json:",omitempty"`
	Oks  []bool  `json:",omitempty"`
}

const briefly = 25 * time.Millisecond

func runVal(i int) fsVal {
	return fsVal{i, fsStr(i) + strings.Repeat("x", i*i*i%30000), []int{i, i + 1}}
}

func perform[K comparable](st *cachex.FileStore[K, fsVal], key func(int) K, o runOp) ack {
	var a ack
	var err error
	d := 1000 * time.Hour
	if o.Stale {
		d = -1
	} else if o.Brief {
		d = briefly
	}
	keys := []K{}
	for _, i := range o.Keys {
		keys = append(keys, key(i))
	}
	switch o.Op {
	case "get":
		var v fsVal
		var ok bool
		v, ok, err = st.Get(ctx, keys[0])
		a.Vals, a.Oks = []fsVal{v}, []bool{ok}
	case "mget":
		a.Vals, a.Oks, err = st.MGet(ctx, keys...)
	case "set":
		err = st.Set(ctx, keys[0], runVal(o.Vals[0]), d)
	case "mset":
		kvs := map[K]fsVal{}
		for i, k := range keys {
			kvs[k] = runVal(o.Vals[i])
		}
		err = st.MSet(ctx, kvs, d)
	case "delete":
		err = st.Delete(ctx, keys...)
	case "purge":
		err = st.Purge()
	}
	if err != nil {
		a.Err = err.Error()
	}
	return a
}

type restartRunner struct {
	open  func(dir string, gc time.Duration) func(runOp) ack
	canon func(int) int // the first number with an equal key
}

func runner[K comparable](key func(int) K) restartRunner {
	return restartRunner{
		open: func(dir string, gc time.Duration) func(runOp) ack {
			st := &cachex.FileStore[K, fsVal]{Dir: dir, GCCycle: gc}
			return func(o runOp) ack { return perform(st, key, o) }
		},
		canon: func(i int) int {
			j := 0
			for key(j) != key(i) {
				j++
			}
			return j
		},
	}
}

var restartKeys = map[string]restartRunner{
	"string": runner(strKey),
	"int":    runner(func(i int) int { return i * 7919 }),
	"uint":   runner(func(i int) uint16 { return uint16(i) }),
	"float":  runner(func(i int) float64 { return float64(i) / 3 }),
	"pair":   runner(func(i int) pairKey { return pairKey{strKey(i), strKey(i / 2)} }),
	"array":  runner(func(i int) [3]int { return [3]int{i, 0, -i} }),
	"hidden": runner(func(i int) hidden { return hidden{i % 2, strKey(i / 2)} }),
	"time":   runner(func(i int) time.Time { return time.Date(2001, 2, 3, 4, 5, i, 6, time.UTC) }),
	"any": runner(func(i int) any {
		return []any{1, "1", int64(1), 1.0, true, nil, pairKey{"a", "b"}, [2]string{"a", "b"}, uint8(1), errKey(1)}[i%10]
	}),
}

// TestChildProcess is no test: it is one life of a store, run by the others in
// a process of its own.
func TestChildProcess(t *testing.T) {
	path := os.Getenv("GOSBVERIF_LIFE")
	if path == "" {
		t.Skip("not a child process")
	}
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var p restartPlan
	if err := json.Unmarshal(b, &p); err != nil {
		t.Fatal(err)
	}
	do := restartKeys[p.KeyType].open(os.Getenv("GOSBVERIF_DIR"), time.Duration(p.GCms)*time.Millisecond)
	for _, o := range p.Lives[0].Ops {
		b, err := json.Marshal(do(o))
		if err != nil {
			t.Fatal(err)
		}
		if _, err := os.Stdout.Write(append(append([]byte("ACK "), b...), '\n')); err != nil {
			t.Fatal(err)
		}
	}
}

// live runs one life in another process; the answers it gave before it ended.
func live(base, dir string, p restartPlan, l life) (acks []ack, err error) {
	plan, err := json.Marshal(restartPlan{KeyType: p.KeyType, GCms: p.GCms, Lives: []life{l}})
	if err != nil {
		return nil, err
	}
	file := filepath.Join(base, "plan.json")
	if err := os.WriteFile(file, plan, 0o644); err != nil {
		return nil, err
	}
	cmd := exec.Command(os.Args[0], "-test.run=^TestChildProcess$", "-test.count=1")
	cmd.Env = []string{"GOSBVERIF_LIFE=" + file, "GOSBVERIF_DIR=" + dir}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	sc := bufio.NewScanner(out)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		line, ok := strings.CutPrefix(sc.Text(), "ACK ")
		if !ok {
			continue
		}
		var a ack
		if json.Unmarshal([]byte(line), &a) != nil {
			break // cut off by the kill
		}
		acks = append(acks, a)
		if len(acks) == l.KillAt {
			for start := time.Now(); time.Since(start) < time.Duration(l.Delay)*time.Microsecond; {
			}
			_ = cmd.Process.Kill()
		}
	}
	err = cmd.Wait()
	if err != nil && l.KillAt == 0 {
		return acks, fmt.Errorf("the process ended with %v after %d operations", err, len(acks))
	}
	return acks, nil
}

func runRestart(c *pbt.Ctx, p restartPlan) error {
	base, done := pbt.Scratch()
	defer done()
	base, err := filepath.Abs(base)
	if err != nil {
		return err
	}
	dir := filepath.Join(base, "data")
	states := map[int]*faultVal{}
	canon := restartKeys[p.KeyType].canon
	state := func(i int) *faultVal {
		i = canon(i)
		if states[i] == nil {
			states[i] = &faultVal{}
		}
		return states[i]
	}
	read := func(what string, i int, v fsVal, ok bool) error {
		s := state(i)
		if !ok {
			if s.present && !s.mayGone && !s.brief {
				return pbt.Errf("%s: key %d is a miss, want value %d", what, i, s.v)
			}
			*s = faultVal{}
			return nil
		}
		if s.present && reflect.DeepEqual(v, runVal(s.v)) {
			*s = faultVal{v: s.v, present: true, brief: s.brief}
			return nil
		}
		if s.may && reflect.DeepEqual(v, runVal(s.mayVal)) {
			*s = faultVal{v: s.mayVal, present: true, brief: s.mayBrief}
			return nil
		}
		return pbt.Errf("%s: key %d = value %d (%d bytes), want %d (there: %v)", what, i, v.N, len(v.S), s.v, s.present)
	}
	crashes, crossed := 0, false
	apply := func(what string, o runOp, a ack) error {
		doubt := false
		for _, i := range o.Keys {
			doubt = doubt || state(i).mayErr
		}
		if a.Err != "" {
			if !doubt || (o.Op != "get" && o.Op != "mget") {
				return pbt.Errf("%s: %s", what, a.Err)
			}
			if o.Op == "get" {
				*state(o.Keys[0]) = faultVal{}
			} else {
				for _, i := range o.Keys {
					if s := state(i); s.mayErr {
						s.mayGone = true
					}
				}
			}
			return nil
		}
		switch o.Op {
		case "get", "mget":
			if len(a.Vals) != len(o.Keys) || len(a.Oks) != len(o.Keys) {
				return pbt.Errf("%s: %d values, %d flags", what, len(a.Vals), len(a.Oks))
			}
			for j, i := range o.Keys {
				crossed = crossed || state(i).present
				if err := read(what, i, a.Vals[j], a.Oks[j]); err != nil {
					return err
				}
			}
		case "set", "mset":
			for j, i := range o.Keys {
				*state(i) = faultVal{v: o.Vals[j], present: !o.Stale, brief: o.Brief}
			}
		case "delete":
			for _, i := range o.Keys {
				*state(i) = faultVal{}
			}
		case "purge":
			for _, s := range states {
				*s = faultVal{}
			}
		}
		return nil
	}
	for n, l := range p.Lives {
		acks, err := live(base, dir, p, l)
		if err != nil {
			return pbt.Errf("process %d: %v", n, err)
		}
		for m, a := range acks {
			if err := apply(fmt.Sprintf("process %d op %d %v", n, m, l.Ops[m]), l.Ops[m], a); err != nil {
				return err
			}
		}
		if len(acks) < len(l.Ops) {
			if l.KillAt == 0 {
				return pbt.Errf("process %d answered %d of %d operations", n, len(acks), len(l.Ops))
			}
			crashes++
			o := l.Ops[len(acks)]
			hit := []*faultVal{}
			for _, i := range o.Keys {
				hit = append(hit, state(i))
			}
			switch o.Op {
			case "set", "mset":
				for j, s := range hit {
					s.mayGone, s.mayErr, s.may, s.mayVal, s.mayBrief = true, true, !o.Stale, o.Vals[j], o.Brief
				}
			case "delete":
				for _, s := range hit {
					s.mayGone = true
				}
			case "purge":
				for _, s := range states {
					s.mayGone = true
				}
			}
		}
		over := false
		for _, s := range states {
			over = over || s.brief || s.mayBrief
		}
		if over {
			time.Sleep(briefly + time.Millisecond)
			for _, s := range states {
				s.present = s.present && !s.brief
				s.may = s.may && !s.mayBrief
			}
			c.Label("expired between processes")
		}
		// this process reads what the other one left, if it is not to be left to the next one
		if l.Unread && l.KillAt == 0 {
			continue
		}
		do := restartKeys[p.KeyType].open(dir, time.Hour)
		for i := range states {
			o := runOp{Op: "get", Keys: []int{i}}
			if err := apply(fmt.Sprintf("after process %d, %d of %d operations: get %d", n, len(acks), len(l.Ops), i), o, do(o)); err != nil {
				return err
			}
		}
	}
	c.LabelIf(crashes > 0, "crash")
	c.LabelIf(crossed, "read across processes")
	if crossed && len(p.Lives) > 1 {
		c.NonTrivial()
	}
	return nil
}

type faultVal struct {
	v                    int
	present, brief       bool // brief: gone once the process has ended, perhaps before
	mayGone, mayErr, may bool
	mayVal               int
	mayBrief             bool
}

func TestC48_Restart(t *testing.T) {
	kinds := []string{"string", "string", "int", "uint", "float", "pair", "array", "hidden", "time", "any"}
	pbt.Check(t, pbt.Prop[restartPlan]{
		Rule: "up to four processes in turn, each performing up to 30 gets, sets, batches, deletes and purges of up to 11 keys of nine types on one directory, some killed at a drawn moment after a drawn answer, some with entries that expire before the next one begins; the answers of every process and what another process reads afterwards are compared with a map in which only the operation cut off by a kill is in doubt; " +
			"non-trivial: a value read in another process than the one that set it",
		Cases:    450,
		NoShrink: true,
		Repeats:  60,
		Gen: func(t *rapid.T) restartPlan {
			p := restartPlan{KeyType: rapid.SampledFrom(kinds).Draw(t, "kt"), GCms: rapid.SampledFrom([]int64{0, 1, 5}).Draw(t, "gc")}
			base := rapid.IntRange(0, 30).Draw(t, "base")
			width := rapid.SampledFrom([]int{0, 2, 4, 10}).Draw(t, "width")
			val := 0
			brief := rapid.IntRange(0, 2).Draw(t, "briefs") == 0
			for range rapid.IntRange(1, 4).Draw(t, "lives") {
				var l life
				l.Ops = pbt.Ops(t, 30, func(t *rapid.T) runOp {
					o := runOp{Op: rapid.SampledFrom([]string{"get", "get", "set", "set", "set", "set", "mset", "mget", "delete", "purge"}).Draw(t, "op")}
					if o.Op == "purge" && rapid.Bool().Draw(t, "spare") {
						o.Op = "set"
					}
					n := 1
					switch o.Op {
					case "mget", "mset", "delete":
						n = rapid.IntRange(1, 4).Draw(t, "nkeys")
					case "purge":
						n = 0
					}
					seen := map[int]bool{}
					for range n {
						k := base + rapid.IntRange(0, width).Draw(t, "k")
						c := restartKeys[p.KeyType].canon(k)
						if o.Op == "mset" && seen[c] {
							continue
						}
						seen[c] = true
						o.Keys = append(o.Keys, k)
						val++
						o.Vals = append(o.Vals, val)
					}
					o.Stale = rapid.IntRange(0, 7).Draw(t, "stale") == 0
					o.Brief = brief && rapid.IntRange(0, 2).Draw(t, "brief") == 0
					return o
				})
				if len(l.Ops) > 0 && rapid.Bool().Draw(t, "kill") {
					l.KillAt = rapid.IntRange(1, len(l.Ops)).Draw(t, "at")
					l.Delay = rapid.SampledFrom([]int{0, 0, 20, 50, 100, 200, 400}).Draw(t, "delay")
				}
				l.Unread = rapid.IntRange(0, 2).Draw(t, "unread") == 0
				p.Lives = append(p.Lives, l)
			}
			return p
		},
		Run: runRestart,
	})
}
