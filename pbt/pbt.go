// Package pbt drives one property as a generated-input search: a generator
// draws a JSON-serialisable plan, an oracle executes the plan against the real
// code, failures shrink to a minimal plan that becomes the replay file, and
// every run reports what it generated.
package pbt

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Ctx collects what one executed case was like.
type Ctx struct {
	labels     map[string]int
	nontrivial bool
	Replay     bool
}

// Label classifies the case (or an event inside it).
func (c *Ctx) Label(l string) {
	if c.labels == nil {
		c.labels = map[string]int{}
	}
	c.labels[l]++
}

// LabelIf adds the label when cond holds.
func (c *Ctx) LabelIf(cond bool, l string) {
	if cond {
		c.Label(l)
	}
}

// NonTrivial marks the case as non-trivial by the property's stated rule.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// Prop is one executable property.
type Prop[P any] struct {
	Rule     string             // how cases are made and what makes one non-trivial
	Cases    int                // cases in the quick tier
	PerShard int                // if set: cases in each quick process, instead of Cases
	Mult     int                // thorough tier multiplier (default 20)
	Gen      func(t *rapid.T) P // generator (sound: only inputs in the domain)
	Run      func(c *Ctx, p P) error
	LongCase bool // one case may take minutes of CPU time
	NoShrink bool // executions are schedule dependent: report the first failing plan
	Repeats  int  // executions per replay when NoShrink
}

type stats struct {
	Test       string            `json:"test"`
	Rule       string            `json:"rule"`
	Evals      int               `json:"evaluations"`
	NonTrivial int               `json:"nontrivial"`
	Labels     map[string]int    `json:"labels"`
	Samples    []json.RawMessage `json:"samples"`
	Failed     string            `json:"failed,omitempty"`
	WallS      float64           `json:"wall_s"`
}

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Test     string          `json:"test"`
	Error    string          `json:"error"`
	Plan     json.RawMessage `json:"plan"`
}

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

func envInt(k string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return def
}

// OutDir is where statistics and replay candidates go (set by the driver).
func OutDir() string { return env("PBT_OUT", filepath.Join(os.TempDir(), "pbt-out")) }

// Thorough tells whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func seedFor(test string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%s", env("VERIF_SEED", "1"), env("PBT_SHARD", "0"), test)
	s := h.Sum64()
	if s == 0 {
		s = 1
	}
	return s
}

// ---- watchdog ------------------------------------------------------------

var wd struct {
	sync.Mutex
	active  bool
	serial  int
	long    bool
	cpu0    time.Duration
	wall0   time.Time
	started bool
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rssMB() int {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize() / (1 << 20)
}

// watchdog ends the process with exit code 97 when one case burns far more CPU
// or memory than any correct execution needs, or makes no progress at all. The
// driver decides what that means by replaying the recorded case.
func watchdog() {
	cpuLimit := time.Duration(envInt("PBT_CASE_CPU_S", 25)) * time.Second
	wallLimit := time.Duration(envInt("PBT_CASE_WALL_S", 90)) * time.Second
	memLimit := envInt("PBT_CASE_RSS_MB", 3000)
	for {
		time.Sleep(500 * time.Millisecond)
		wd.Lock()
		active, cpu0, wall0, cpuLimit := wd.active, wd.cpu0, wd.wall0, cpuLimit
		if wd.long {
			cpuLimit *= 10
		}
		wd.Unlock()
		if !active {
			continue
		}
		why := ""
		if c := cpuTime() - cpu0; c > cpuLimit {
			why = fmt.Sprintf("one case used more than %v of CPU time", cpuLimit)
		} else if m := rssMB(); m > memLimit {
			why = fmt.Sprintf("one case used more than %d MB", memLimit)
		} else if w := time.Since(wall0); w > wallLimit {
			// idle for the whole wall limit: blocked, not merely slow
			if cpuTime()-cpu0 < wallLimit/20 {
				why = fmt.Sprintf("one case made no progress for %v", wallLimit)
			} else if w > 6*wallLimit {
				why = fmt.Sprintf("one case did not finish in %v", 6*wallLimit)
			}
		}
		if why == "" {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		_ = os.WriteFile(filepath.Join(OutDir(), "hang.txt"), append([]byte(why+"\n\n"), buf...), 0o644)
		fmt.Fprintf(os.Stderr, "PBT-HANG: %s\n", why)
		os.Exit(97)
	}
}

func beginCase(long bool) {
	wd.Lock()
	wd.long = long
	wd.active, wd.cpu0, wd.wall0 = true, cpuTime(), time.Now()
	wd.serial++
	if !wd.started {
		wd.started = true
		go watchdog()
	}
	wd.Unlock()
}

func endCase() {
	wd.Lock()
	wd.active = false
	wd.Unlock()
}

// ---- running -------------------------------------------------------------

func runSafely[P any](run func(*Ctx, P) error, c *Ctx, p P) (err error) {
	done := false
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		} else if !done && err == nil {
			err = fmt.Errorf("the case ended with runtime.Goexit")
		}
	}()
	err = run(c, p)
	done = true
	return
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Check searches for a violation of prop. The property id is the leading
// "Cnn" of the test name.
func Check[P any](t *testing.T, prop Prop[P]) {
	t.Helper()
	id := strings.TrimPrefix(t.Name(), "Test")
	if i := strings.IndexByte(id, '_'); i > 0 {
		id = id[:i]
	}
	out := OutDir()
	_ = os.MkdirAll(out, 0o755)

	if rp := os.Getenv("PBT_REPLAY"); rp != "" {
		replay(t, rp, prop)
		return
	}

	st := stats{Test: t.Name(), Rule: prop.Rule, Labels: map[string]int{}}
	start := time.Now()
	distinct := map[uint64]struct{}{}
	cur, err := os.Create(filepath.Join(out, "current-"+t.Name()+".json"))
	if err != nil {
		t.Fatalf("harness: %v", err)
	}
	defer cur.Close()
	var failPlan []byte
	var failErr string
	curLen := 0

	cases := prop.Cases
	if cases == 0 {
		cases = 1000
	}
	if !Thorough() {
		cases *= envInt("PBT_SCALE", 1)
	} else {
		m := prop.Mult
		if m == 0 {
			m = 20
		}
		cases *= m
	}
	shards := envInt("PBT_SHARDS", 1)
	cases = (cases + shards - 1) / shards
	if prop.PerShard > 0 {
		cases = prop.PerShard
		if Thorough() {
			cases *= max(1, prop.Mult)
		}
	}
	_ = flag.Set("rapid.checks", strconv.Itoa(cases))
	_ = flag.Set("rapid.seed", strconv.FormatUint(seedFor(t.Name()), 10))
	_ = flag.Set("rapid.nofailfile", "true")
	if prop.NoShrink {
		_ = flag.Set("rapid.shrinktime", "0s")
	} else {
		_ = flag.Set("rapid.shrinktime", env("PBT_SHRINK", "20s"))
	}

	// On a slow or busy machine the search ends early rather than late.
	budget := time.Duration(envInt("PBT_BUDGET_S", 60)) * time.Second
	failed := false
	ok := t.Run("search", rapid.MakeCheck(func(rt *rapid.T) {
		if !failed && time.Since(start) > budget {
			return
		}
		p := prop.Gen(rt)
		enc, err := json.Marshal(p)
		if err != nil {
			rt.Fatalf("harness: plan not serialisable: %v", err)
		}
		rec := enc
		if len(enc) < curLen {
			rec = append(append(make([]byte, 0, curLen), enc...), make([]byte, curLen-len(enc))...)
			for i := len(enc); i < len(rec); i++ {
				rec[i] = ' '
			}
		}
		if _, err := cur.WriteAt(rec, 0); err != nil {
			rt.Fatalf("harness: %v", err)
		}
		curLen = max(curLen, len(rec))
		// Execute what a replay would execute: the plan as it decodes.
		var q P
		if err := json.Unmarshal(enc, &q); err != nil {
			rt.Fatalf("harness: plan does not decode: %v", err)
		}
		c := &Ctx{}
		beginCase(prop.LongCase)
		rerr := runSafely(prop.Run, c, q)
		endCase()
		if !failed {
			st.Evals++
			for l, n := range c.labels {
				st.Labels[l] += n
			}
			if c.nontrivial {
				st.NonTrivial++
				h := fnv.New64a()
				h.Write([]byte(t.Name()))
				h.Write(enc)
				k := h.Sum64()
				if _, dup := distinct[k]; !dup {
					distinct[k] = struct{}{}
					n := len(distinct)
					if len(enc) < 4000 && (n == 1 || n == 10 || n == 100) {
						st.Samples = append(st.Samples, json.RawMessage(enc))
					}
				}
			}
		}
		if rerr != nil {
			failed = true
			failPlan, failErr = enc, rerr.Error()
			rt.Fatalf("%v", rerr)
		}
	}))
	st.WallS = time.Since(start).Seconds()
	if !ok {
		st.Failed = failErr
		if failPlan != nil {
			rep := Replay{Property: id, Test: t.Name(), Error: failErr, Plan: failPlan}
			b, _ := json.MarshalIndent(rep, "", " ")
			_ = os.WriteFile(filepath.Join(out, "fail-"+t.Name()+".json"), b, 0o644)
		}
	}
	writeStats(out, t.Name(), &st, distinct)
	_ = os.Remove(cur.Name())
}

func writeStats(out, name string, st *stats, distinct map[uint64]struct{}) {
	b, _ := json.Marshal(st)
	_ = os.WriteFile(filepath.Join(out, "stats-"+name+".json"), b, 0o644)
	hs := make([]uint64, 0, len(distinct))
	for h := range distinct {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	hb := make([]byte, 0, 8*len(hs))
	for _, h := range hs {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	_ = os.WriteFile(filepath.Join(out, "hashes-"+name+".bin"), hb, 0o644)
}

func replay[P any](t *testing.T, path string, prop Prop[P]) {
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatalf("harness: %v", err)
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		t.Fatalf("harness: bad replay file: %v", err)
	}
	if rep.Test != t.Name() {
		t.Skipf("replay is for %s", rep.Test)
	}
	var p P
	if err := json.Unmarshal(rep.Plan, &p); err != nil {
		t.Fatalf("harness: bad plan: %v", err)
	}
	n := max(1, prop.Repeats)
	for i := 0; i < n; i++ {
		c := &Ctx{Replay: true}
		beginCase(prop.LongCase)
		err := runSafely(prop.Run, c, p)
		endCase()
		if err != nil {
			fmt.Printf("PBT-REPLAY-FAILED %v\n", err)
			t.Fatalf("%v", err)
		}
	}
	fmt.Println("PBT-REPLAY-PASSED")
}

// Errf is fmt.Errorf.
func Errf(format string, a ...any) error {
	err := fmt.Errorf(format, a...)
	if s := err.Error(); len(s) > 12000 {
		return fmt.Errorf("%s ... (%d bytes) ... %s", s[:8000], len(s), s[len(s)-2000:])
	}
	return err
}

// Panics reports whether f panics, and with what.
func Panics(f func()) (v any, did bool) {
	did = true
	defer func() {
		if did {
			v = recover()
		}
	}()
	f()
	did = false
	return
}
