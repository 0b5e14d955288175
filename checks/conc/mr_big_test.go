package conc

import (
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/mr"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// Large calls: more workers, items and values than the scheduled plans hold.
type bigPlan struct {
	Mode    string
	Workers int
	Items   int
	Fan     int
	Meet    bool // the first mappers wait until as many run as there are workers or items
	Fault   string
	Faults  []int // items with the fault
}

func genBig(kind string) func(t *rapid.T) bigPlan {
	return func(t *rapid.T) bigPlan {
		modes := []string{"mapreduce", "chan", "void", "foreach", "finish", "finishvoid"}
		switch kind {
		case "cancel":
			modes = []string{"mapreduce", "chan", "void", "finish"}
		}
		p := bigPlan{Mode: rapid.SampledFrom(modes).Draw(t, "mode"), Fault: kind}
		p.Workers = rapid.SampledFrom([]int{1, 2, 8, 16, 17, 33, 65, 100, 129, 200, 257, 300, 1000}).Draw(t, "workers")
		p.Items = rapid.SampledFrom([]int{1, 15, 16, 17, 63, 64, 65, 100, 128, 129, 255, 256, 257, 500, 1000, 1500}).Draw(t, "items")
		if rapid.IntRange(0, 3).Draw(t, "free") == 0 {
			p.Items = rapid.IntRange(0, 1200).Draw(t, "items2")
		}
		p.Fan = rapid.SampledFrom([]int{0, 1, 1, 1, 2, 5, 17}).Draw(t, "fan")
		p.Meet = kind == "" && rapid.Bool().Draw(t, "meet")
		if kind != "" && p.Items > 0 {
			for i := rapid.IntRange(1, 4).Draw(t, "nfaults"); i > 0; i-- {
				p.Faults = append(p.Faults, rapid.IntRange(0, p.Items-1).Draw(t, "at"))
			}
		}
		return p
	}
}

type bigPanic struct{ item int }

func runBig(c *pbt.Ctx, p bigPlan) error {
	if p.Workers > 50 || p.Items > 50 {
		c.NonTrivial()
	}
	c.Label(p.Mode)
	base := runtime.NumGoroutine()
	workers := p.Workers
	if p.Mode == "finish" || p.Mode == "finishvoid" {
		workers = max(1, p.Items)
	}
	faulty := map[int]bool{}
	for _, i := range p.Faults {
		faulty[i] = true
	}
	boom := errors.New("giving up")
	var mu sync.Mutex
	var bad error
	fail := func(format string, a ...any) {
		mu.Lock()
		if bad == nil {
			bad = pbt.Errf(format, a...)
		}
		mu.Unlock()
	}
	mapped := make([]atomic.Int32, p.Items)
	var running, begun, ended atomic.Int32
	met := make(chan struct{})
	need := min(workers, p.Items)
	mapper := func(item int, write func(int), cancel func(error)) error {
		defer ended.Add(1)
		if n := running.Add(1); int(n) > workers {
			fail("%d mappers run at once, %d workers", n, workers)
		}
		defer running.Add(-1)
		if item < 0 || item >= p.Items {
			fail("the mapper got item %d, which was not generated", item)
			return nil
		}
		if mapped[item].Add(1) > 1 {
			fail("item %d was handed to the mapper twice", item)
		}
		if p.Meet {
			if int(begun.Add(1)) == need {
				close(met)
			}
			select {
			case <-met:
			case <-time.After(20 * time.Second):
				fail("only %d mappers run at once for 20 seconds, %d workers, %d items", running.Load(), workers, p.Items)
			}
		}
		for i := 0; i < p.Fan; i++ {
			write(item*p.Fan + i)
		}
		if faulty[item] {
			switch p.Fault {
			case "cancel":
				if cancel != nil {
					cancel(boom)
				}
				return boom
			case "panic":
				panic(bigPanic{item})
			}
		}
		return nil
	}
	got := make([]atomic.Int32, p.Items*p.Fan)
	reducer := func(pipe <-chan int) (sum int) {
		for v := range pipe {
			if v < 0 || v >= len(got) {
				fail("the reducer got %d, which nobody wrote", v)
			} else if got[v].Add(1) > 1 {
				fail("the reducer got %d twice", v)
			}
			sum += v + 1
		}
		return
	}
	generate := func(source chan<- int) {
		for i := 0; i < p.Items; i++ {
			source <- i
		}
	}
	sum, err := 0, error(nil)
	var voidSum atomic.Int64
	v, panicked := pbt.Panics(func() {
		switch p.Mode {
		case "mapreduce", "chan":
			m := func(item int, w mr.Writer[int], cancel func(error)) { _ = mapper(item, w.Write, cancel) }
			r := func(pipe <-chan int, w mr.Writer[int], cancel func(error)) { w.Write(reducer(pipe)) }
			if p.Mode == "mapreduce" {
				sum, err = mr.MapReduce(generate, m, r, mr.WithWorkers(p.Workers))
			} else {
				source := make(chan int)
				go func() { generate(source); close(source) }()
				sum, err = mr.MapReduceChan(source, m, r, mr.WithWorkers(p.Workers))
			}
		case "void":
			err = mr.MapReduceVoid(generate, func(item int, w mr.Writer[int], cancel func(error)) { _ = mapper(item, w.Write, cancel) },
				func(pipe <-chan int, cancel func(error)) { voidSum.Store(int64(reducer(pipe))) }, mr.WithWorkers(p.Workers))
		case "foreach":
			mr.ForEach(generate, func(item int) { _ = mapper(item, func(int) {}, nil) }, mr.WithWorkers(p.Workers))
		default:
			var fns []func() error
			var vfns []func()
			for i := 0; i < p.Items; i++ {
				item := i
				fns = append(fns, func() error { return mapper(item, func(int) {}, nil) })
				vfns = append(vfns, func() { _ = mapper(item, func(int) {}, nil) })
			}
			if p.Mode == "finish" {
				err = mr.Finish(fns...)
			} else {
				mr.FinishVoid(vfns...)
			}
		}
	})
	done := int(ended.Load())
	for i := 0; runtime.NumGoroutine() > base && i < 20000; i++ {
		time.Sleep(time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > base {
		buf := make([]byte, 20000)
		fail("%d goroutines are left 20 seconds after the call\n%s", n-base, buf[:runtime.Stack(buf, true)])
	}
	mu.Lock()
	defer mu.Unlock()
	what := fmt.Sprintf("%s of %d items with %d workers", p.Mode, p.Items, workers)
	if bad != nil {
		return fmt.Errorf("%s: %w", what, bad)
	}
	faults := len(faulty) > 0
	switch {
	case panicked && !(faults && p.Fault == "panic"):
		return pbt.Errf("%s: panic %v", what, v)
	case faults && p.Fault == "panic":
		b, mine := v.(bigPanic)
		if !panicked || !mine || !faulty[b.item] {
			return pbt.Errf("%s: mappers of %v panicked, the call ended with %v (%v)", what, p.Faults, v, err)
		}
		return nil
	case faults && p.Fault == "cancel":
		if err != boom {
			return pbt.Errf("%s: mappers of %v cancelled, the call returned %v", what, p.Faults, err)
		}
		if sum != 0 {
			return pbt.Errf("%s: a result next to the error: %v", what, sum)
		}
		return nil
	case err != nil:
		return pbt.Errf("%s: error %v", what, err)
	}
	if done != p.Items {
		return pbt.Errf("%s: %d mappers had finished when the call returned", what, done)
	}
	for i := range mapped {
		if mapped[i].Load() != 1 {
			return pbt.Errf("%s: item %d was mapped %d times", what, i, mapped[i].Load())
		}
	}
	if p.Mode == "mapreduce" || p.Mode == "chan" || p.Mode == "void" {
		for i := range got {
			if got[i].Load() != 1 {
				return pbt.Errf("%s: value %d reached the reducer %d times", what, i, got[i].Load())
			}
		}
		if p.Mode == "void" {
			sum = int(voidSum.Load())
		}
		if n := len(got); sum != n*(n+1)/2 {
			return pbt.Errf("%s: result %d, the reducer wrote %d", what, sum, n*(n+1)/2)
		}
	}
	return nil
}

func bigMR(t *testing.T, cases int, kind, rule string) {
	only(t, false)
	pbt.Check(t, pbt.Prop[bigPlan]{
		Rule:     "up to 1500 items, 1000 workers and 17 values an item on real threads under the race detector, " + rule + "; non-trivial: more than 50 workers or items",
		Cases:    cases,
		NoShrink: true,
		Repeats:  5,
		Gen:      genBig(kind),
		Run:      runBig,
	})
}

func TestC04_RaceBig(t *testing.T) {
	bigMR(t, 40, "", "nothing goes wrong: exact accounting; in half of them the first mappers wait until as many run as there are workers or items")
}

func TestC05_RaceBig(t *testing.T) {
	bigMR(t, 40, "cancel", "up to four mappers cancel with an error: that error is returned, nothing is mapped twice")
}

func TestC06_RaceBig(t *testing.T) {
	bigMR(t, 40, "panic", "up to four mappers panic: one of the panics is re-raised, no goroutine is left")
}
