package flow

import (
	"context"
	"errors"
	"sync"
	"testing"
	"time"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/mr"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// ---- C52: a failed map-reduce call stops beginning work ---------------------------

type stopPlan struct {
	Mode    string // mapreduce, chan, void, foreach
	Workers int
	Items   int
	Gaps    []int // seconds before an item is sent, cyclic
	Work    []int // seconds an item takes, cyclic, at least one each
	Trigger string
	At      int // the item that panics or cancels, the value at which the reducer cancels, the second at which the context ends
}

var errStop = errors.New("stop")

func runStop(c *pbt.Ctx, p stopPlan) error {
	var mu sync.Mutex
	begun, ended, sent := 0, 0, 0
	atTrigger := -1
	trigger := func() {
		mu.Lock()
		if atTrigger < 0 {
			atTrigger = begun
		}
		mu.Unlock()
	}
	// Items begun in the moment of the trigger may be as many as there are
	// workers. After a context end and a cancel each further one needs a fair
	// coin to fall one way, so 40 never happen.
	allowed := p.Workers + 40
	if p.Trigger == "panic" {
		allowed = p.Workers + 2
	}
	ctx, end := context.WithCancel(context.Background())
	defer end()
	opts := []mr.Option{mr.WithWorkers(p.Workers), mr.WithContext(ctx)}
	generate := func(source chan<- int) {
		for i := range p.Items {
			secs(p.Gaps[i%len(p.Gaps)])
			source <- i
			mu.Lock()
			sent++
			mu.Unlock()
		}
	}
	work := func(i int, write func(int), cancel func(error)) {
		mu.Lock()
		begun++
		mu.Unlock()
		defer func() {
			mu.Lock()
			ended++
			mu.Unlock()
		}()
		secs(p.Work[i%len(p.Work)])
		if i == p.At {
			switch p.Trigger {
			case "panic":
				trigger()
				panic(errStop)
			case "cancel":
				trigger()
				cancel(errStop)
			case "cancel nil":
				trigger()
				cancel(nil)
			}
		}
		write(i)
	}
	reduce := func(pipe <-chan int, cancel func(error)) {
		n := 0
		for range pipe {
			if n++; n == p.At && p.Trigger == "reducer cancel" {
				trigger()
				cancel(errStop)
			}
		}
	}
	if p.Trigger == "context" {
		go func() {
			time.Sleep(time.Duration(p.At)*time.Second + time.Second/2)
			trigger()
			end()
		}()
	}
	mapper := func(i int, w mr.Writer[int], cancel func(error)) { work(i, w.Write, cancel) }
	var err error
	v, panicked := pbt.Panics(func() {
		switch p.Mode {
		case "mapreduce":
			_, err = mr.MapReduce(generate, mapper, func(pipe <-chan int, w mr.Writer[int], cancel func(error)) { reduce(pipe, cancel) }, opts...)
		case "chan":
			source := make(chan int)
			go func() {
				defer close(source)
				generate(source)
			}()
			_, err = mr.MapReduceChan(source, mapper, func(pipe <-chan int, w mr.Writer[int], cancel func(error)) { reduce(pipe, cancel) }, opts...)
		case "void":
			err = mr.MapReduceVoid(generate, mapper, reduce, opts...)
		case "foreach":
			mr.ForEach(generate, func(i int) { work(i, func(int) {}, func(error) {}) }, opts...)
		}
	})
	time.Sleep(10 * time.Hour) // what is left ends by itself
	mu.Lock()
	defer mu.Unlock()
	if panicked != (p.Trigger == "panic") || panicked && v != errStop {
		return pbt.Errf("the call panics (%v) with %v", panicked, v)
	}
	if p.Mode != "foreach" && p.Trigger != "panic" && p.Trigger != "context" {
		want := errStop
		if p.Trigger == "cancel nil" {
			want = mr.ErrCancelWithNil
		}
		if !errors.Is(err, want) && atTrigger >= 0 {
			return pbt.Errf("the call returns %v, want %v", err, want)
		}
	}
	if sent != p.Items {
		return pbt.Errf("only %d of %d items could be sent", sent, p.Items)
	}
	if begun != ended {
		return pbt.Errf("%d items begun, but %d finished", begun, ended)
	}
	c.Label(p.Mode)
	c.Label(p.Trigger)
	if atTrigger < 0 { // e.g. the context ended after the last item
		if begun != p.Items {
			return pbt.Errf("only %d of %d items were mapped", begun, p.Items)
		}
		return nil
	}
	if more := begun - atTrigger; more > allowed {
		return pbt.Errf("after the %s at item %d, %d of the remaining %d items still began to be mapped by %d workers", p.Trigger, atTrigger, more, p.Items-atTrigger, p.Workers)
	}
	if p.Items-atTrigger > 2*allowed {
		c.NonTrivial()
	}
	return nil
}

func TestC52_Stop(t *testing.T) {
	pbt.Check(t, pbt.Prop[stopPlan]{
		Rule: "one call with up to 400 items, sent at once or with drawn gaps, 1..10 workers, each item taking seconds of virtual time, during which a mapper panics or cancels, the reducer cancels or the context ends; " +
			"non-trivial: many more items are still to come than may begin",
		Cases: 400,
		Gen: func(t *rapid.T) stopPlan {
			p := stopPlan{Mode: rapid.SampledFrom([]string{"mapreduce", "chan", "void", "foreach"}).Draw(t, "mode"),
				Workers: rapid.IntRange(1, 10).Draw(t, "workers"),
				Items:   rapid.IntRange(1, 400).Draw(t, "items"),
				Gaps:    rapid.SliceOfN(rapid.IntRange(0, 2), 1, 4).Draw(t, "gaps"),
				Work:    rapid.SliceOfN(rapid.IntRange(1, 5), 1, 4).Draw(t, "work"),
			}
			triggers := []string{"panic", "context", "cancel", "cancel nil", "reducer cancel"}
			if p.Mode == "foreach" {
				triggers = triggers[:2]
			}
			p.Trigger = rapid.SampledFrom(triggers).Draw(t, "trigger")
			if p.Trigger != "panic" && p.Trigger != "context" {
				p.Gaps = []int{0}
			}
			p.At = rapid.IntRange(0, min(60, p.Items-1)).Draw(t, "at")
			if p.Trigger == "reducer cancel" {
				p.At++
			}
			return p
		},
		Run: func(c *pbt.Ctx, p stopPlan) error {
			return pbt.Bubble(t, func() error { return runStop(c, p) })
		},
	})
}
