//go:build instr

package conc

import (
	"fmt"
	"runtime/debug"
	"sync"
	"testing"
	"time"

	"github.com/miniLCT/gosb/hack/vpoint"
	"gosbverif/pbt"
)

// instrumented: the packages under test make scheduling points.
const instrumented = true

func point() { vpoint.P() }

func vplan(s sched) vpoint.Plan {
	p := vpoint.Plan{Order: s.Order, Seed: s.Seed, OneIn: s.OneIn, MaxD: s.MaxD}
	for _, x := range s.Stalls {
		p.Stalls = append(p.Stalls, vpoint.Stall{G: x[0], S: x[1], D: x[2]})
	}
	return p
}

// rounds is how many scheduling rounds have passed.
const round = time.Millisecond

// runWorkers runs prep alone, then n workers under the schedule, then fin alone.
func runWorkers(t *testing.T, s sched, n int, prep func() error, body func(w int) error, fin func() error) error {
	defer vpoint.Stop()
	return pbt.Bubble(t, func() error {
		if prep != nil {
			if err := prep(); err != nil {
				return err
			}
		}
		vpoint.Start(vplan(s), n)
		errs := make([]error, n)
		var wg sync.WaitGroup
		for w := 0; w < n; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errs[w] = fmt.Errorf("worker %d: panic: %v\n%s", w, r, debug.Stack())
					}
				}()
				vpoint.Enter(w)
				vpoint.P()
				errs[w] = body(w)
			}()
		}
		wg.Wait()
		vpoint.Stop()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
		if fin != nil {
			return fin()
		}
		return nil
	})
}
