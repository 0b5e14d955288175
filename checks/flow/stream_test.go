package flow

import (
	"sync"
	"testing"
	"time"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/mr"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// ---- C49: map-reduce calls as pipelines -------------------------------------------

type streamItem struct {
	Gap    int   // seconds before it is sent
	Work   int   // seconds before its first write
	Writes []int // a value each, followed by so many seconds
}

type streamPlan struct {
	Mode    string
	Workers int
	Items   []streamItem
	Tail    int   // seconds the generator goes on after the last item
	Lag     int   // seconds before the reducer begins to read
	Reads   []int // seconds it spends on the values, cyclic
	Stop    int   // it stops reading after so many values, -1: reads all
	After   int   // seconds it goes on after that
	Answer  bool  // it writes a result before it ends
}

type flow struct {
	mu                                         sync.Mutex
	sending, sent, begun, ended, wrote, passed int
	read                                       int
	waiting, reducing, reduced                 bool
	generated                                  bool
	last                                       time.Time
	bad                                        error
	writes                                     []time.Time
}

func (f *flow) do(g func()) {
	f.mu.Lock()
	g()
	f.last = time.Now()
	f.mu.Unlock()
}

func (f *flow) fail(format string, a ...any) {
	if f.bad == nil {
		f.bad = pbt.Errf(format, a...)
	}
}

func secs(n int) { time.Sleep(time.Duration(n) * time.Second) }

func runStream(c *pbt.Ctx, p streamPlan) error {
	f := &flow{}
	start := time.Now()
	at := func(t time.Time) string { return t.Sub(start).String() }
	workers := p.Workers
	opts := []mr.Option{mr.WithWorkers(p.Workers)}
	if p.Workers == 0 {
		workers = 1
	}
	if p.Workers < 0 {
		workers, opts = 16, nil // the default
	}
	if p.Mode == "finish" || p.Mode == "finishvoid" {
		workers = len(p.Items)
	}
	generate := func(source chan<- int) {
		for i, it := range p.Items {
			secs(it.Gap)
			f.do(func() { f.sending++ })
			source <- i
			f.do(func() { f.sent++ })
		}
		secs(p.Tail)
		f.do(func() { f.generated = true })
	}
	work := func(i int, write func(int)) {
		f.do(func() { f.begun++ })
		it := p.Items[i]
		secs(it.Work)
		for j, gap := range it.Writes {
			f.do(func() { f.wrote++; f.writes = append(f.writes, time.Now()) })
			write(i*1000 + j)
			f.do(func() { f.passed++ })
			secs(gap)
		}
		f.do(func() { f.ended++ })
	}
	mapper := func(i int, w mr.Writer[int], cancel func(error)) { work(i, w.Write) }
	reduce := func(pipe <-chan int, answer func()) {
		f.do(func() { f.reducing = true })
		secs(p.Lag)
		for n := 0; n != p.Stop; n++ {
			f.do(func() { f.waiting = true })
			asked := time.Now()
			_, ok := <-pipe
			f.do(func() {
				f.waiting = false
				if !ok {
					return
				}
				f.read++
				// everything written before this moment was read before, unless
				// this is read at the moment it was asked for
				if now := time.Now(); now.After(asked) {
					early := 0
					for _, w := range f.writes {
						if w.Before(now) {
							early++
						}
					}
					if early > f.read-1 {
						f.fail("at %s the reducer, waiting since %s, gets its value number %d, although %d were written before", at(now), at(asked), f.read, early)
					}
				}
			})
			if !ok {
				break
			}
			if len(p.Reads) > 0 {
				secs(p.Reads[n%len(p.Reads)])
			}
		}
		secs(p.After)
		if p.Answer {
			answer()
		}
		f.do(func() { f.reducing, f.reduced = false, true })
	}
	reducer := func(pipe <-chan int, w mr.Writer[string], cancel func(error)) {
		reduce(pipe, func() { w.Write("answer") })
	}
	returned := make(chan struct{})
	slept := false
	var watch sync.WaitGroup
	watch.Go(func() {
		// half a second off, nothing is under way: everybody waits or sleeps
		time.Sleep(time.Second / 2)
		for {
			select {
			case <-returned:
				return
			default:
			}
			f.mu.Lock()
			now := at(time.Now())
			running := f.begun - f.ended
			stuck := f.wrote - f.passed
			if running > workers {
				f.fail("at %s %d mappers run, allowed are %d", now, running, workers)
			}
			if running < workers && (f.begun < f.sent || f.sent < f.sending) {
				f.fail("at %s %d of %d mappers run, but of %d items offered %d are taken and %d begun", now, running, workers, f.sending, f.sent, f.begun)
			}
			if f.sent-f.ended > 2*workers+2 {
				f.fail("at %s %d items are taken and not finished with %d workers", now, f.sent-f.ended, workers)
			}
			if f.waiting && f.read < f.wrote {
				f.fail("at %s the reducer waits, although it read %d of %d values written", now, f.read, f.wrote)
			}
			if f.reduced && stuck > 0 {
				f.fail("at %s %d writers are held back although the reducer has ended", now, stuck)
			}
			if f.reducing && f.passed-f.read > 2*workers+2 {
				f.fail("at %s %d values are taken and not read with %d workers", now, f.passed-f.read, workers)
			}
			slept = slept || stuck > 0
			f.mu.Unlock()
			time.Sleep(time.Second)
		}
	})
	var err error
	switch p.Mode {
	case "mapreduce":
		_, err = mr.MapReduce(generate, mapper, reducer, opts...)
	case "chan":
		source := make(chan int)
		go func() {
			defer close(source)
			generate(source)
		}()
		_, err = mr.MapReduceChan(source, mapper, reducer, opts...)
	case "void":
		err = mr.MapReduceVoid(generate, mapper, func(pipe <-chan int, cancel func(error)) { reduce(pipe, func() {}) }, opts...)
	case "foreach":
		mr.ForEach(generate, func(i int) { work(i, func(int) {}) }, opts...)
	case "finish", "finishvoid":
		var fns []func() error
		var voids []func()
		for i := range p.Items {
			fns = append(fns, func() error { work(i, func(int) {}); return nil })
			voids = append(voids, func() { work(i, func(int) {}) })
		}
		f.sending, f.sent = len(fns), len(fns)
		if p.Mode == "finish" {
			err = mr.Finish(fns...)
		} else {
			mr.FinishVoid(voids...)
		}
	}
	end := time.Now()
	close(returned)
	watch.Wait()
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.last.IsZero() {
		f.last = start
	}
	if f.bad != nil {
		return f.bad
	}
	if err != nil && (p.Answer || err != mr.ErrReduceNoOutput || p.Mode == "void" || p.Mode == "finish") {
		return pbt.Errf("the call returns %v", err)
	}
	if !end.Equal(f.last) {
		return pbt.Errf("the call returns at %s, the last of its functions ended at %s", at(end), at(f.last))
	}
	if f.begun != len(p.Items) || f.ended != len(p.Items) {
		return pbt.Errf("%d of %d items begun, %d finished", f.begun, len(p.Items), f.ended)
	}
	c.Label(p.Mode)
	c.LabelIf(slept, "writers held back")
	c.LabelIf(p.Stop >= 0 && p.Stop < f.wrote, "stopped early")
	if len(p.Items) > workers {
		c.Label("more items than workers")
		c.NonTrivial()
	}
	return nil
}

func TestC49_Pipeline(t *testing.T) {
	pbt.Check(t, pbt.Prop[streamPlan]{
		Rule: "one call of a map-reduce helper with up to 60 items, 1..20 workers or the default, drawn seconds between items, of mapping, between writes, of reading, a reducer that begins late, stops early or goes on, in virtual time; every half second off, when everything rests, the counts of items offered, taken, begun, finished and of values written, accepted and read must show that items begin as soon as a worker is free, values are read as soon as the reducer waits, and neither runs ahead by more than about twice the workers; the call returns the moment its last function ends; " +
			"non-trivial: more items than workers",
		Cases: 6000,
		Gen: func(t *rapid.T) streamPlan {
			p := streamPlan{Mode: rapid.SampledFrom([]string{"mapreduce", "mapreduce", "chan", "void", "foreach", "finish", "finishvoid"}).Draw(t, "mode"),
				Workers: rapid.SampledFrom([]int{-1, 0, 1, 1, 2, 2, 3, 3, 4, 5, 8, 20}).Draw(t, "workers")}
			some := rapid.SampledFrom([]int{0, 1, 3, 10, 60})
			pace := [4]int{some.Draw(t, "gaps"), some.Draw(t, "works"), some.Draw(t, "pauses"), some.Draw(t, "reads")}
			upto := func(i int, label string) int { return rapid.IntRange(0, pace[i]).Draw(t, label) }
			fan := rapid.SampledFrom([]int{0, 1, 1, 2, 5, 40}).Draw(t, "fan")
			n := pbt.Size(t, 60, "items")
			for range n {
				it := streamItem{Gap: upto(0, "gap"), Work: upto(1, "work")}
				for range rapid.IntRange(0, fan).Draw(t, "writes") {
					it.Writes = append(it.Writes, upto(2, "pause"))
				}
				p.Items = append(p.Items, it)
			}
			p.Tail = rapid.SampledFrom([]int{0, 0, 0, 5, 200}).Draw(t, "tail")
			p.Lag = rapid.SampledFrom([]int{0, 0, 0, 5, 200}).Draw(t, "lag")
			for range rapid.IntRange(1, 4).Draw(t, "nreads") {
				p.Reads = append(p.Reads, upto(3, "read"))
			}
			p.Stop = rapid.SampledFrom([]int{-1, -1, -1, 0, 1, 2, 7, 30}).Draw(t, "stop")
			p.After = rapid.SampledFrom([]int{0, 0, 0, 5, 200}).Draw(t, "after")
			p.Answer = rapid.Bool().Draw(t, "answer")
			return p
		},
		Run: func(c *pbt.Ctx, p streamPlan) error {
			return pbt.Bubble(t, func() error { return runStream(c, p) })
		},
	})
}
