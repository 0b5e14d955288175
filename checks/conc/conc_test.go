package conc

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

var ctx = context.Background()

// sched is a schedule: who runs when. Without stalls and seed every worker makes
// one statement per round, in an order given by Order.
type sched struct {
	Order  uint64
	Stalls [][3]int // worker, its n-th point, rounds
	Seed   uint64
	OneIn  int
	MaxD   int
}

func genSched(t *rapid.T, workers, points int) sched {
	s := sched{Order: rapid.Uint64Range(0, 50).Draw(t, "order")}
	if !instrumented {
		return s
	}
	switch rapid.IntRange(0, 5).Draw(t, "sched") {
	case 0, 1: // a few long stalls
		n := rapid.IntRange(0, 4).Draw(t, "nstalls")
		for i := 0; i < n; i++ {
			s.Stalls = append(s.Stalls, [3]int{rapid.IntRange(0, workers-1).Draw(t, "g"), rapid.IntRange(1, points).Draw(t, "s"), rapid.SampledFrom([]int{1, 2, 3, 5, 10, 25, 60, 150, 500}).Draw(t, "d")})
		}
	case 2, 3: // rare long random stalls
		s.Seed, s.OneIn, s.MaxD = rapid.Uint64Min(1).Draw(t, "seed"), rapid.SampledFrom([]int{5, 10, 25}).Draw(t, "onein"), rapid.SampledFrom([]int{10, 40, 120}).Draw(t, "maxd")
	case 4: // frequent short ones
		s.Seed, s.OneIn, s.MaxD = rapid.Uint64Min(1).Draw(t, "seed"), rapid.SampledFrom([]int{1, 2, 3}).Draw(t, "onein"), rapid.SampledFrom([]int{2, 5}).Draw(t, "maxd")
	default: // one worker at a time, mostly
		s.Seed, s.OneIn, s.MaxD = rapid.Uint64Min(1).Draw(t, "seed"), rapid.SampledFrom([]int{15, 30}).Draw(t, "onein"), 400
	}
	return s
}

// mode names the tests of this build and skips those of the other one.
func only(t *testing.T, instr bool) {
	if instr != instrumented {
		t.Skip("other build")
	}
}

// history records calls with the order of their beginnings and ends.
type history struct {
	clock atomic.Int64
	mu    sync.Mutex
	ops   []porcupine.Operation
}

func (h *history) now() int64 { return h.clock.Add(1) }

func (h *history) add(client int, in any, call int64, out any) {
	ret := h.now()
	h.addAt(client, in, call, out, ret)
}

func (h *history) addAt(client int, in any, call int64, out any, ret int64) {
	h.mu.Lock()
	h.ops = append(h.ops, porcupine.Operation{ClientId: client, Input: in, Call: call, Output: out, Return: ret})
	h.mu.Unlock()
}

// overlaps tells whether two operations of different clients ran concurrently.
func (h *history) overlaps() bool {
	for i, a := range h.ops {
		for _, b := range h.ops[:i] {
			if a.ClientId != b.ClientId && a.Call < b.Return && b.Call < a.Return {
				return true
			}
		}
	}
	return false
}

func (h *history) describe(describe func(in, out any) string) string {
	s := ""
	for _, o := range h.ops {
		s += fmt.Sprintf("  worker %d [%d,%d] %s\n", o.ClientId, o.Call, o.Return, describe(o.Input, o.Output))
	}
	return s
}

// linearizable decides the history against a model.
func (h *history) linearizable(c *pbt.Ctx, m porcupine.Model) error {
	switch porcupine.CheckOperationsTimeout(m, h.ops, 20*time.Second) {
	case porcupine.Illegal:
		return pbt.Errf("no sequential order explains this history:\n%s", h.describe(m.DescribeOperation))
	case porcupine.Unknown:
		c.Label("history too hard to decide")
	}
	return nil
}
