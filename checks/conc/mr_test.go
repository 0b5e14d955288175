package conc

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/mr"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// mrStep is one thing a user function does.
type mrStep struct {
	Op string // sleep, write, cancel, panic, endctx; the reducer also: read, readall
	D  int    // sleep: rounds; read: how many; cancel and panic: which kind
}

type mrPlan struct {
	Mode     string // mapreduce, chan, void, foreach, finish, finishvoid
	Workers  int
	HasW     bool
	Items    [][]mrStep
	GenSleep []int // before sending each item
	GenPanic int   // panics instead of sending this item; -1: never
	GenKind  int
	GenEnd   int
	Red      []mrStep
	Ctx      string // "", far, ended, timeout, cancel
	CtxAt    int
	Barrier  bool
	Sched    sched
}

const (
	longSleep = 10 * 3600 * 1000 // rounds: far beyond what scheduling adds
	slack     = time.Hour
)

type mrCancel struct {
	begin, end int64 // end 0: has not returned
	when       time.Duration
	err        error
}

type mrEvents struct {
	sync.Mutex
	clock   int64
	start   time.Time
	cancels []*mrCancel
	panics  []mrPanic
	writes  []mrWrite
	mapped  map[int]int
	sent    map[int]bool
	emitted map[int]int
	reduced map[int]int
	running int
	peak    int
	mapEnd  int
	begun   int
	lastEnd time.Duration // the last end of a mapper or the reducer
	redEnd  bool
	redAll  bool // the reducer read to the end of its input
	genEnd  time.Duration
	genDone bool
	ctxEnd  time.Duration // -1: never
	barrier chan struct{}
	need    int
	err     error
}

type mrPanic struct {
	at   int64
	when time.Duration
	v    any
}

type mrWrite struct {
	begin int64
	when  time.Duration
	v     int
}

func (e *mrEvents) tick() int64 {
	e.clock++
	return e.clock
}

func (e *mrEvents) now() time.Duration { return time.Since(e.start) }

func (e *mrEvents) fail(format string, a ...any) {
	if e.err == nil {
		e.err = pbt.Errf(format, a...)
	}
}

type mrBoom struct{ N int }

func (p mrPlan) panicValue(kind, n int) any {
	switch kind % 4 {
	case 0:
		return fmt.Sprint("boom ", n)
	case 1:
		return fmt.Errorf("boom %d", n)
	case 2:
		return mrBoom{n}
	default:
		return []int{n}
	}
}

func samePanic(a, b any) bool {
	if x, ok := a.(error); ok {
		y, ok := b.(error)
		return ok && sameErr(x, y)
	}
	return reflect.DeepEqual(a, b)
}

func mrErr(kind, n int) error {
	switch kind {
	case 0:
		return nil
	case 1:
		return mr.ErrReduceNoOutput
	case 2:
		return context.Canceled
	case 3:
		return errSlice{n}
	case 4:
		return errStruct{n}
	}
	return fmt.Errorf("failure %d", n)
}

func sleepRounds(d int) {
	if d <= 0 {
		return
	}
	if !instrumented { // real time: short
		if d > 20 {
			d = 20
		}
		time.Sleep(time.Duration(d) * 20 * time.Microsecond)
		return
	}
	time.Sleep(time.Duration(d) * round)
}

// valuesPerWrite numbers what mappers write: item*1000 + index.
func runMR(t *testing.T, c *pbt.Ctx, p mrPlan) error {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(false))
	e := &mrEvents{mapped: map[int]int{}, sent: map[int]bool{}, emitted: map[int]int{}, reduced: map[int]int{}, ctxEnd: -1}
	var ret time.Duration
	var retAt int64
	var result int
	var callErr error
	var panicked bool
	var panicVal any
	workers := 16
	var opts []mr.Option
	if p.HasW {
		workers = max(1, p.Workers)
		opts = append(opts, mr.WithWorkers(p.Workers))
	}
	if p.Mode == "finish" || p.Mode == "finishvoid" {
		workers = max(1, len(p.Items))
	}
	e.need = min(workers, len(p.Items))
	e.barrier = make(chan struct{})

	body := func() error {
		e.barrier = make(chan struct{})
		e.start = time.Now()
		cctx, endctx := context.Background(), func() {}
		setEnd := func() {
			e.Lock()
			if e.ctxEnd < 0 || e.now() < e.ctxEnd {
				e.ctxEnd = e.now()
			}
			e.Unlock()
		}
		switch p.Ctx {
		case "far":
			c2, stop := context.WithTimeout(ctx, 10000*time.Hour)
			defer stop()
			cctx = c2
		case "timeout":
			d := time.Duration(p.CtxAt) * round
			c2, stop := context.WithTimeout(ctx, d)
			defer stop()
			cctx = c2
			end, _ := c2.Deadline()
			e.ctxEnd = end.Sub(e.start)
		default:
			if p.Ctx != "" {
				c2, stop := context.WithCancel(ctx)
				cctx = c2
				defer stop()
				endctx = func() { setEnd(); stop() }
			}
		}
		if p.Ctx == "ended" {
			endctx()
		}
		if p.Ctx == "cancel" && p.CtxAt > 0 {
			tm := time.AfterFunc(time.Duration(p.CtxAt)*round, endctx)
			defer tm.Stop()
		}
		if p.Ctx != "" {
			opts = append(opts, mr.WithContext(cctx))
		}
		// steps runs the steps of a user function and returns Finish's error.
		cancelWith := func(err error, cancel func(error)) {
			e.Lock()
			k := &mrCancel{begin: e.tick(), when: e.now(), err: err}
			e.cancels = append(e.cancels, k)
			e.Unlock()
			cancel(err)
			e.Lock()
			k.end = e.tick()
			e.Unlock()
		}
		boom := func(kind, n int) {
			v := p.panicValue(kind, n)
			e.Lock()
			e.panics = append(e.panics, mrPanic{e.tick(), e.now(), v})
			e.Unlock()
			panic(v)
		}
		mapper := func(item int, write func(int), cancel func(error)) (ferr error) {
			e.Lock()
			e.begun++
			e.running++
			e.peak = max(e.peak, e.running)
			e.mapped[item]++
			if e.mapped[item] > 1 {
				e.fail("item %d was handed to the mapper twice", item)
			}
			if !e.sent[item] {
				e.fail("the mapper got item %d, which was not generated", item)
			}
			if e.running > workers {
				e.fail("%d mappers run at once, %d workers", e.running, workers)
			}
			if p.Barrier && e.begun == e.need {
				close(e.barrier)
			}
			e.Unlock()
			defer func() {
				e.Lock()
				e.running--
				e.mapEnd++
				e.lastEnd = e.now()
				e.Unlock()
			}()
			if p.Barrier {
				<-e.barrier
			}
			n := 0
			if item < 0 || item >= len(p.Items) {
				e.Lock()
				e.fail("the mapper got the unknown item %d", item)
				e.Unlock()
				return
			}
			for i, s := range p.Items[item] {
				point()
				switch s.Op {
				case "sleep":
					sleepRounds(s.D)
				case "write":
					v := item*1000 + n
					n++
					e.Lock()
					e.emitted[v]++
					e.Unlock()
					write(v)
				case "cancel":
					err := mrErr(s.D, item*100+i)
					if p.Mode == "finish" {
						if err == nil {
							err = errStruct{item}
						}
						e.Lock()
						k := &mrCancel{begin: e.tick(), when: e.now(), err: err}
						e.cancels = append(e.cancels, k)
						e.Unlock()
						return err
					}
					cancelWith(err, cancel)
				case "panic":
					boom(s.D, item*100+i)
				case "endctx":
					endctx()
				}
			}
			return nil
		}
		reducer := func(pipe <-chan int, write func(int), cancel func(error)) {
			defer func() {
				e.Lock()
				e.lastEnd = e.now()
				e.redEnd = true
				e.Unlock()
			}()
			read := func(n int) {
				for i := 0; n < 0 || i < n; i++ {
					v, ok := <-pipe
					if !ok {
						e.Lock()
						e.redAll = true
						e.Unlock()
						return
					}
					e.Lock()
					e.reduced[v]++
					if e.emitted[v] < e.reduced[v] {
						e.fail("the reducer got %d %d times, mappers wrote it %d times", v, e.reduced[v], e.emitted[v])
					}
					e.Unlock()
				}
			}
			for i, s := range p.Red {
				point()
				switch s.Op {
				case "sleep":
					sleepRounds(s.D)
				case "read":
					read(s.D)
				case "readall":
					read(-1)
				case "write":
					if write == nil {
						continue
					}
					e.Lock()
					v := 5000 + i
					e.writes = append(e.writes, mrWrite{e.tick(), e.now(), v})
					e.Unlock()
					write(v)
				case "cancel":
					cancelWith(mrErr(s.D, 9000+i), cancel)
				case "panic":
					boom(s.D, 9000+i)
				case "endctx":
					endctx()
				}
			}
		}
		send := func(do func(int)) {
			for i := range p.Items {
				if i < len(p.GenSleep) {
					sleepRounds(p.GenSleep[i])
				}
				if i == p.GenPanic {
					boom(p.GenKind, 8000+i)
				}
				e.Lock()
				e.sent[i] = true
				e.Unlock()
				do(i)
			}
			sleepRounds(p.GenEnd)
			if len(p.Items) == p.GenPanic {
				boom(p.GenKind, 8999)
			}
		}
		generate := func(source chan<- int) {
			defer func() {
				e.Lock()
				e.genDone, e.genEnd = true, e.now()
				e.Unlock()
			}()
			send(func(i int) { source <- i })
		}
		nop := func(int) {}
		func() {
			defer func() {
				if !panicked {
					return
				}
				panicVal = recover()
				e.Lock()
				ret, retAt = e.now(), e.tick()
				e.Unlock()
			}()
			panicked = true
			mf := func(item int, w mr.Writer[int], cancel func(error)) { mapper(item, w.Write, cancel) }
			rf := func(pipe <-chan int, w mr.Writer[int], cancel func(error)) { reducer(pipe, w.Write, cancel) }
			switch p.Mode {
			case "mapreduce":
				result, callErr = mr.MapReduce(generate, mf, rf, opts...)
			case "chan":
				ch := make(chan int)
				go func() {
					generate(ch)
					close(ch)
				}()
				result, callErr = mr.MapReduceChan(ch, mf, rf, opts...)
			case "void":
				callErr = mr.MapReduceVoid(generate, mf, func(pipe <-chan int, cancel func(error)) { reducer(pipe, nil, cancel) }, opts...)
			case "foreach":
				mr.ForEach(generate, func(item int) { mapper(item, nop, nil) }, opts...)
			case "finish":
				var fns []func() error
				for i := range p.Items {
					e.sent[i] = true
					fns = append(fns, func() error { return mapper(i, nop, nil) })
				}
				e.genDone, e.genEnd = true, 0
				callErr = mr.Finish(fns...)
			case "finishvoid":
				var fns []func()
				for i := range p.Items {
					e.sent[i] = true
					fns = append(fns, func() { _ = mapper(i, nop, nil) })
				}
				e.genDone, e.genEnd = true, 0
				mr.FinishVoid(fns...)
			}
			panicked = false
			e.Lock()
			ret, retAt = e.now(), e.tick()
			e.Unlock()
		}()
		e.Lock()
		err := p.judge(c, e, mrOutcome{ret, retAt, result, callErr, panicked, panicVal, workers})
		e.Unlock()
		if instrumented {
			// Let everything the call started come to its end: the bubble
			// reports what stays blocked.
			time.Sleep(1000000 * time.Hour)
		}
		return err
	}
	if err := runWorkers(t, p.Sched, 1, nil, func(int) error { return body() }, nil); err != nil {
		return err
	}
	e.Lock()
	defer e.Unlock()
	return e.err
}

type mrOutcome struct {
	ret      time.Duration
	retAt    int64
	result   int
	err      error
	panicked bool
	val      any
	workers  int
}

func (p mrPlan) judge(c *pbt.Ctx, e *mrEvents, o mrOutcome) error {
	if e.err != nil {
		return e.err
	}
	bad := func(format string, a ...any) error {
		s := fmt.Sprintf(format, a...)
		how := fmt.Sprintf("returned %d, %v", o.result, o.err)
		if o.panicked {
			how = fmt.Sprintf("panicked with %#v", o.val)
		}
		return pbt.Errf("%s: %s (the call %s at %v; generator done %v at %v, context end %v, cancels %s, panics %v, writes %v, mappers begun %d ended %d, reducer ended %v, last end %v)",
			p.Mode, s, how, o.ret, e.genDone, e.genEnd, e.ctxEnd, descCancels(e.cancels), e.panics, e.writes, e.begun, e.mapEnd, e.redEnd, e.lastEnd)
	}
	simple := p.Mode == "foreach" || p.Mode == "finishvoid" // no errors, no reducer
	void := p.Mode == "void" || p.Mode == "finish"
	reduces := p.Mode == "mapreduce" || p.Mode == "chan" || p.Mode == "void"
	ctxEnded := e.ctxEnd >= 0 && e.ctxEnd <= o.ret
	done := e.begun == e.mapEnd && (e.redEnd || !reduces)

	// ---- panics
	if o.panicked {
		for _, x := range e.panics {
			if samePanic(x.v, o.val) {
				c.Label("re-raised a panic")
				return nil
			}
		}
		if len(e.writes) > 1 {
			if fmt.Sprint(o.val) == "more than one element written in reducer" {
				c.Label("second write")
				return nil
			}
		}
		return bad("panics with a value nobody raised")
	}
	if len(e.panics) > 0 {
		first := e.panics[0]
		for _, x := range e.panics {
			if x.when < first.when {
				first = x
			}
		}
		excused := false
		if instrumented {
			excused = ctxEnded && e.ctxEnd <= first.when+slack
			for _, k := range e.cancels {
				excused = excused || k.when <= first.when+slack
			}
			for _, w := range e.writes {
				excused = excused || w.when <= first.when+slack
			}
		} else {
			excused = ctxEnded || len(e.cancels) > 0 || len(e.writes) > 0
		}
		if !excused {
			return bad("swallows the panic")
		}
		c.Label("dropped a panic after a stop")
		return nil
	}

	clean := len(e.cancels) == 0 && !ctxEnded
	// ---- a second write of the reducer
	if len(e.writes) > 1 && clean {
		return bad("the reducer wrote twice and the call did not panic")
	}
	// ---- everything processed
	if clean && p.GenPanic < 0 {
		if !e.genDone || !done {
			return bad("returns before everything has finished")
		}
		for i := range p.Items {
			if e.mapped[i] != 1 {
				return bad("item %d was mapped %d times", i, e.mapped[i])
			}
		}
		if e.redAll {
			for v, n := range e.emitted {
				if e.reduced[v] != n {
					return bad("the value %d, written %d times, reached the reducer %d times", v, n, e.reduced[v])
				}
			}
		}
	}
	if simple {
		return nil
	}
	// ---- the result
	var wBegin int64
	var wWhen time.Duration
	wrote := false
	if void {
		if done && (p.Mode != "finish" || e.begun == len(p.Items)) {
			wrote, wWhen, wBegin = true, e.lastEnd, o.retAt
		}
	} else if len(e.writes) > 0 {
		wrote, wWhen, wBegin = true, e.writes[0].when, e.writes[0].begin
	}
	mustErr := ""
	if !wrote {
		mustErr = "without a result"
	}
	for _, k := range e.cancels {
		if k.begin < o.retAt && (!wrote || void || k.end != 0 && k.end < wBegin || instrumented && k.when+slack < wWhen) {
			mustErr = "although it was cancelled before the result"
		}
	}
	if wrote && ctxEnded && e.ctxEnd < wWhen && (instrumented || void) && p.exactCtx() {
		mustErr = "although the context ended before the result"
	}
	if o.err == nil {
		if mustErr != "" {
			return bad("succeeds %s", mustErr)
		}
		if !void && o.result != e.writes[0].v {
			return bad("the result is not what the reducer wrote")
		}
	} else {
		if o.result != 0 {
			return bad("returns a value together with an error")
		}
		ok := false
		for _, k := range e.cancels {
			if k.begin > o.retAt {
				continue
			}
			late := false
			for _, j := range e.cancels {
				late = late || j.end != 0 && j.end < k.begin
			}
			want := k.err
			if want == nil {
				want = mr.ErrCancelWithNil
			}
			ok = ok || !late && sameErr(want, o.err)
		}
		if ctxEnded && (errors.Is(o.err, context.DeadlineExceeded) || errors.Is(o.err, context.Canceled)) {
			ok = true
		}
		if o.err == mr.ErrReduceNoOutput && !void && len(e.writes) == 0 {
			called := false
			for _, k := range e.cancels {
				called = called || k.begin < o.retAt
			}
			if !called && done && !(ctxEnded && e.ctxEnd < e.lastEnd && p.exactCtx()) {
				ok = true
			}
		}
		if !ok {
			return bad("an error that is neither the first cancellation's nor the context's")
		}
	}
	// ---- in time
	if instrumented && ctxEnded && !(wrote && wWhen <= e.ctxEnd) {
		if o.ret > max(e.ctxEnd, e.genEnd)+slack {
			return bad("goes on long after the context and the generator ended")
		}
		c.LabelIf(e.begun > e.mapEnd, "returned on context end with busy mappers")
	}
	c.LabelIf(o.err == nil, "success")
	c.LabelIf(len(e.cancels) > 0, "cancelled")
	c.LabelIf(ctxEnded, "context ended")
	c.LabelIf(e.peak == o.workers, "all workers busy")
	return nil
}

// exactCtx: the moment of the context's end is known exactly.
func (p mrPlan) exactCtx() bool { return instrumented }

func descCancels(ks []*mrCancel) string {
	var s []string
	for _, k := range ks {
		s = append(s, fmt.Sprintf("[%d,%d] %v", k.begin, k.end, k.err))
	}
	return "{" + strings.Join(s, "; ") + "}"
}

// ---- generation -----------------------------------------------------------------

func genDur(t *rapid.T, long bool, name string) int {
	if long && rapid.IntRange(0, 4).Draw(t, name+".long") == 0 {
		return rapid.SampledFrom([]int{longSleep, longSleep / 2, 2 * longSleep}).Draw(t, name+".hours")
	}
	return rapid.SampledFrom([]int{0, 1, 2, 5, 10, 30, 80}).Draw(t, name)
}

// genMR draws a plan; cancels, ctxs and panics tell what may happen in it.
func genMR(t *rapid.T, cancels, ctxs, panics bool) mrPlan {
	modes := []string{"mapreduce", "mapreduce", "mapreduce", "chan", "void", "void", "foreach", "finish", "finishvoid"}
	if cancels && !panics {
		modes = []string{"mapreduce", "mapreduce", "mapreduce", "chan", "void", "void", "finish"}
	}
	p := mrPlan{Mode: rapid.SampledFrom(modes).Draw(t, "mode"), GenPanic: -1}
	n := rapid.SampledFrom([]int{0, 1, 2, 3, 3, 4, 5, 8, 20, 40}).Draw(t, "items")
	p.HasW = rapid.IntRange(0, 5).Draw(t, "hasw") > 0
	if p.HasW {
		p.Workers = rapid.SampledFrom([]int{-3, 0, 1, 1, 2, 2, 3, 4, 7, 16, 17, 50}).Draw(t, "workers")
	}
	if !instrumented {
		n = min(n, 8)
	}
	reduces := p.Mode == "mapreduce" || p.Mode == "chan" || p.Mode == "void"
	mayCancel := cancels && (reduces || p.Mode == "finish")
	mayCtx := ctxs && p.Mode != "finish" && p.Mode != "finishvoid"
	long := ctxs || rapid.IntRange(0, 3).Draw(t, "longs") == 0
	if mayCtx {
		p.Ctx = rapid.SampledFrom([]string{"", "", "far", "ended", "timeout", "timeout", "cancel", "cancel"}).Draw(t, "ctx")
	} else if p.Mode != "finish" && p.Mode != "finishvoid" && rapid.IntRange(0, 3).Draw(t, "far") == 0 {
		p.Ctx = "far"
	}
	if p.Ctx == "timeout" || p.Ctx == "cancel" {
		p.CtxAt = rapid.SampledFrom([]int{1, 2, 5, 10, 20, 30, 50, 80, 150, longSleep / 2}).Draw(t, "ctxat")
		if p.Ctx == "cancel" && rapid.IntRange(0, 2).Draw(t, "byuser") == 0 {
			p.CtxAt = 0 // a user function does it, or nobody
		}
	}
	// how often something happens in a mapper
	rare := rapid.SampledFrom([]int{2, 5, 15}).Draw(t, "rare")
	fault := func(name string) (mrStep, bool) {
		var ops []string
		if mayCancel {
			ops = append(ops, "cancel", "cancel")
		}
		if panics {
			ops = append(ops, "panic", "panic")
		}
		if p.Ctx == "cancel" && p.CtxAt == 0 {
			ops = append(ops, "endctx")
		}
		if len(ops) == 0 || rapid.IntRange(0, rare).Draw(t, name+".p") != 0 {
			return mrStep{}, false
		}
		s := mrStep{Op: rapid.SampledFrom(ops).Draw(t, name)}
		switch s.Op {
		case "cancel":
			s.D = rapid.IntRange(0, 7).Draw(t, name+".kind")
		case "panic":
			s.D = rapid.IntRange(0, 3).Draw(t, name+".kind")
		}
		return s, true
	}
	p.Items = make([][]mrStep, n)
	for i := range p.Items {
		if n > 8 && i > 3 && i%4 != 0 { // keep big plans simple
			p.Items[i] = p.Items[i-4]
			continue
		}
		for j := rapid.IntRange(0, 3).Draw(t, "nsteps"); j > 0; j-- {
			if rapid.Bool().Draw(t, "writes") && reduces {
				p.Items[i] = append(p.Items[i], mrStep{Op: "write"})
			} else {
				p.Items[i] = append(p.Items[i], mrStep{"sleep", genDur(t, long, "d")})
			}
		}
		if s, ok := fault("fault"); ok {
			at := rapid.IntRange(0, len(p.Items[i])).Draw(t, "faultat")
			p.Items[i] = append(p.Items[i][:at:at], append([]mrStep{s}, p.Items[i][at:]...)...)
		}
	}
	if rapid.Bool().Draw(t, "slowgen") {
		for i := 0; i < min(n, 6); i++ {
			p.GenSleep = append(p.GenSleep, rapid.SampledFrom([]int{0, 0, 1, 3, 10, 40}).Draw(t, "gensleep"))
		}
		p.GenEnd = rapid.SampledFrom([]int{0, 3, 20, 60}).Draw(t, "genend")
		if long && rapid.IntRange(0, 2).Draw(t, "genlong") == 0 {
			p.GenEnd = genDur(t, true, "genend")
		}
	}
	if panics && (p.Mode == "mapreduce" || p.Mode == "void" || p.Mode == "foreach") && rapid.IntRange(0, 3).Draw(t, "genpanics") == 0 {
		p.GenPanic = rapid.IntRange(0, n).Draw(t, "genpanic")
		p.GenKind = rapid.IntRange(0, 3).Draw(t, "genkind")
	}
	if reduces {
		switch rapid.IntRange(0, 5).Draw(t, "red") {
		case 0, 1, 2:
			p.Red = []mrStep{{Op: "readall"}}
		case 3:
			p.Red = []mrStep{{Op: "read", D: rapid.IntRange(0, 3).Draw(t, "read")}}
		case 4:
			p.Red = []mrStep{{Op: "read", D: rapid.IntRange(0, 3).Draw(t, "read")}, {"sleep", genDur(t, long, "reds")}, {Op: "readall"}}
		}
		insert := func(s mrStep) {
			at := rapid.IntRange(0, len(p.Red)).Draw(t, "redat")
			if s.Op == "write" && rapid.IntRange(0, 2).Draw(t, "redend") > 0 {
				at = len(p.Red)
			}
			p.Red = append(p.Red[:at:at], append([]mrStep{s}, p.Red[at:]...)...)
		}
		for j := rapid.SampledFrom([]int{0, 1, 1, 1, 1, 1, 2}).Draw(t, "nwrites"); j > 0 && p.Mode != "void"; j-- {
			insert(mrStep{Op: "write"})
		}
		if rapid.IntRange(0, 3).Draw(t, "redsleep") == 0 {
			insert(mrStep{"sleep", genDur(t, long, "redd")})
		}
		if s, ok := fault("redfault"); ok {
			insert(s)
		}
	}
	if mayCancel && reduces && n > 0 && rapid.IntRange(0, 7).Draw(t, "outlast") == 0 {
		// The generator goes on long after a mapper cancelled, and the reducer
		// does something in between.
		p.GenEnd = 2 * longSleep
		p.Items[0] = []mrStep{{Op: "cancel", D: rapid.IntRange(0, 7).Draw(t, "outlastkind")}}
		p.Red = []mrStep{{"read", rapid.IntRange(0, 1).Draw(t, "outlastread") * (n - 1)}, {"sleep", genDur(t, true, "outlastsleep")}}
		if p.Mode != "void" {
			p.Red = append(p.Red, mrStep{Op: "write"})
		}
	}
	writes := 0
	for _, s := range p.Red {
		if s.Op == "write" {
			writes++
		}
	}
	if !cancels && !panics && !mayCtx && writes < 2 && rapid.IntRange(0, 2).Draw(t, "barrier") == 0 && n > 0 {
		p.Barrier = true
	}
	p.Sched = genSched(t, 12, 80)
	return p
}

const mrRule = "MapReduce, MapReduceChan, MapReduceVoid, ForEach, Finish or FinishVoid over 0..40 items with 1..50 (or default) workers; mappers that sleep and write up to 3 values, slow generators, reducers that read all, some or nothing, early or late, and write 0..2 results; "

func mrNontrivial(c *pbt.Ctx, p mrPlan) {
	kinds := map[string]bool{}
	for _, s := range append(append([][]mrStep{}, p.Items...), p.Red) {
		for _, x := range s {
			kinds[x.Op] = true
		}
	}
	if len(p.Items) > 1 && len(kinds) > 1 {
		c.NonTrivial()
	}
	var ks []string
	for k := range kinds {
		if k == "cancel" || k == "panic" || k == "endctx" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	c.Label(p.Mode + " " + strings.Join(ks, "+"))
}

func mrCheck(t *testing.T, instr bool, cases int, what string, cancels, ctxs, panics bool) {
	only(t, instr)
	how := "every statement of the package a scheduling point, virtual time, sleeps up to 10 h, leftover blocked goroutines detected"
	if !instr {
		how = "real threads under the race detector, short sleeps"
	}
	pbt.Check(t, pbt.Prop[mrPlan]{
		Rule:     mrRule + what + "; " + how + "; non-trivial: several items and several kinds of steps",
		Cases:    cases,
		NoShrink: !instr, Repeats: map[bool]int{true: 1, false: 300}[instr],
		Gen: func(t *rapid.T) mrPlan { return genMR(t, cancels, ctxs, panics) },
		Run: func(c *pbt.Ctx, p mrPlan) error { mrNontrivial(c, p); return runMR(t, c, p) },
	})
}

// genSmallMR draws a few steps, most of them faults that meet, and a schedule
// with long stalls: many schedules of few situations.
func genSmallMR(t *rapid.T, cancels, ctxs, panics bool) mrPlan {
	p := mrPlan{GenPanic: -1, HasW: true, Workers: rapid.IntRange(1, 3).Draw(t, "workers")}
	modes := []string{"mapreduce", "mapreduce", "chan", "void"}
	if panics {
		modes = append(modes, "foreach", "finishvoid")
	}
	if cancels {
		modes = append(modes, "finish")
	}
	p.Mode = rapid.SampledFrom(modes).Draw(t, "mode")
	reduces := p.Mode == "mapreduce" || p.Mode == "chan" || p.Mode == "void"
	if ctxs && p.Mode != "finish" && p.Mode != "finishvoid" {
		p.Ctx = rapid.SampledFrom([]string{"", "timeout", "cancel"}).Draw(t, "ctx")
		if p.Ctx == "timeout" || p.Ctx == "cancel" && rapid.Bool().Draw(t, "byuser") {
			p.CtxAt = rapid.IntRange(1, 40).Draw(t, "ctxat")
		}
	}
	steps := func(red bool, name string) (out []mrStep) {
		var ops []string
		if reduces && (!red || p.Mode != "void") {
			ops = append(ops, "write")
		}
		if red {
			ops = append(ops, "read")
		}
		if cancels && (reduces || p.Mode == "finish") {
			ops = append(ops, "cancel", "cancel")
		}
		if panics {
			ops = append(ops, "panic", "panic")
		}
		if p.Ctx == "cancel" && p.CtxAt == 0 {
			ops = append(ops, "endctx")
		}
		if len(ops) == 0 {
			ops = append(ops, "sleep")
		}
		wrote := false
		for j := rapid.IntRange(0, 2).Draw(t, name+".n"); j > 0; j-- {
			s := mrStep{Op: rapid.SampledFrom(ops).Draw(t, name)}
			switch s.Op {
			case "write":
				if wrote && red {
					continue
				}
				wrote = true
			case "cancel":
				s.D = rapid.IntRange(0, 7).Draw(t, name+".kind")
			case "panic":
				s.D = rapid.IntRange(0, 3).Draw(t, name+".kind")
			case "read", "sleep":
				s.D = rapid.IntRange(0, 2).Draw(t, name+".d")
			}
			out = append(out, s)
		}
		return out
	}
	n := rapid.IntRange(0, 3).Draw(t, "items")
	for i := 0; i < n; i++ {
		p.Items = append(p.Items, steps(false, "mapper"))
	}
	if reduces {
		p.Red = steps(true, "reducer")
		if rapid.Bool().Draw(t, "readall") {
			at := rapid.IntRange(0, len(p.Red)).Draw(t, "at")
			p.Red = append(p.Red[:at:at], append([]mrStep{{Op: "readall"}}, p.Red[at:]...)...)
		}
	}
	if panics && (p.Mode == "mapreduce" || p.Mode == "void" || p.Mode == "foreach") && rapid.Bool().Draw(t, "genpanics") {
		p.GenPanic = rapid.IntRange(0, n).Draw(t, "genpanic")
		p.GenKind = rapid.IntRange(0, 3).Draw(t, "genkind")
	}
	p.Sched = sched{Order: rapid.Uint64Range(0, 50).Draw(t, "order"), Seed: rapid.Uint64Min(1).Draw(t, "seed"),
		OneIn: rapid.SampledFrom([]int{3, 5, 10, 20}).Draw(t, "onein"), MaxD: rapid.SampledFrom([]int{40, 120, 400}).Draw(t, "maxd")}
	return p
}

func smallMR(t *testing.T, cases int, what string, cancels, ctxs, panics bool) {
	only(t, true)
	pbt.Check(t, pbt.Prop[mrPlan]{
		Rule:  "few items, workers and steps under schedules with many long stalls: " + what + "; non-trivial: several items and several kinds of steps",
		Cases: cases,
		Gen:   func(t *rapid.T) mrPlan { return genSmallMR(t, cancels, ctxs, panics) },
		Run:   func(c *pbt.Ctx, p mrPlan) error { mrNontrivial(c, p); return runMR(t, c, p) },
	})
}

func TestC04_SchedSmall(t *testing.T) {
	smallMR(t, 3000, "writes and reads", false, false, false)
}
func TestC05_SchedSmall(t *testing.T) {
	smallMR(t, 6000, "cancels and context ends that meet", true, true, false)
}
func TestC06_SchedSmall(t *testing.T) {
	smallMR(t, 5000, "panics, cancels and context ends that meet", true, true, true)
}
func TestC06_SchedPanicsMeet(t *testing.T) {
	smallMR(t, 10000, "panics that meet", false, false, true)
}

const (
	mrClean  = "nothing cancels, ends or panics; in a third of the cases the first mappers wait until as many run as there are workers or items"
	mrStops  = "mappers and reducer cancel with errors of several kinds or nil, contexts end before, during or after (by deadline, from outside, from a user function)"
	mrPanics = "generator, mappers and reducer panic with values of several kinds, combined with cancels and context ends"
)

func TestC04_Sched(t *testing.T) { mrCheck(t, true, 5000, mrClean, false, false, false) }
func TestC05_Sched(t *testing.T) {
	mrCheck(t, true, 8000, mrStops, true, true, false)
}
func TestC06_Sched(t *testing.T) { mrCheck(t, true, 5000, mrPanics, true, true, true) }
func TestC06_SchedPanicsOnly(t *testing.T) {
	mrCheck(t, true, 3000, "generator, mappers and reducer panic, nothing else goes wrong", false, false, true)
}
func TestC04_Race(t *testing.T) { mrCheck(t, false, 2000, mrClean, false, false, false) }
func TestC05_Race(t *testing.T) { mrCheck(t, false, 2000, mrStops, true, true, false) }
func TestC06_Race(t *testing.T) { mrCheck(t, false, 2000, mrPanics, true, true, true) }
