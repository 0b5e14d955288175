//go:build !instr

package conc

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// not instrumented: real goroutines, under the race detector.
const instrumented = false

const round = time.Millisecond

var jitter atomic.Uint64

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func point() {
	switch h := mix(jitter.Add(1)); h % 8 {
	case 0, 1:
		runtime.Gosched()
	case 2:
		for i := uint64(0); i < h>>8%600; i++ {
			_ = mix(i)
		}
	}
}

func runWorkers(t *testing.T, s sched, n int, prep func() error, body func(w int) error, fin func() error) error {
	if prep != nil {
		if err := prep(); err != nil {
			return err
		}
	}
	errs := make([]error, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[w] = fmt.Errorf("worker %d: panic: %v\n%s", w, r, debug.Stack())
				}
			}()
			<-start
			errs[w] = body(w)
		}()
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	if fin != nil {
		return fin()
	}
	return nil
}
