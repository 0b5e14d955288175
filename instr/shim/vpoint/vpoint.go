// Package vpoint decides, at every instrumented statement, which goroutine goes
// on. It works inside a testing/synctest bubble: a point sleeps until an instant
// of virtual time that no other goroutine sleeps to, so that one goroutine runs
// at a time and the plan of sleeps is the schedule.
package vpoint

import (
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// Stall makes one goroutine wait at one of its points for D rounds.
type Stall struct {
	G int // goroutine number
	S int // its point number
	D int // rounds
}

// Plan is a schedule: every goroutine makes one point per round, in the order
// given by Order, except where a stall says otherwise. With a Seed, further
// stalls are drawn from it, one in every OneIn points, 1..MaxD rounds long.
type Plan struct {
	Order  uint64
	Stalls []Stall
	Seed   uint64
	OneIn  int
	MaxD   int
}

type state struct {
	plan   Plan
	stalls map[[2]int]int
	mu     sync.Mutex
	ids    map[uint64]*worker
	next   int
	steps  atomic.Int64
	limit  int64
	start  time.Time
}

type worker struct {
	n, step int
}

var active atomic.Pointer[state]

// Start begins scheduling; numbered goroutines are 0..reserved-1, others get
// the numbers after that as they appear.
func Start(p Plan, reserved int) {
	s := &state{plan: p, stalls: map[[2]int]int{}, ids: map[uint64]*worker{}, next: reserved, limit: 300000, start: time.Now()}
	for _, st := range p.Stalls {
		s.stalls[[2]int{st.G, st.S}] += st.D
	}
	active.Store(s)
}

// Stop ends scheduling: points do nothing any more.
func Stop() { active.Store(nil) }

// Overrun tells whether a run was stopped for making too many steps.
func Overrun() bool {
	s := active.Load()
	return s != nil && s.steps.Load() > s.limit
}

// Steps is the number of points passed.
func Steps() int {
	if s := active.Load(); s != nil {
		return int(s.steps.Load())
	}
	return 0
}

func goid() uint64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	var id uint64
	for _, c := range buf[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

// Enter numbers the calling goroutine.
func Enter(n int) {
	s := active.Load()
	if s == nil {
		return
	}
	id := goid()
	s.mu.Lock()
	s.ids[id] = &worker{n: n}
	s.mu.Unlock()
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// P is a point.
func P() {
	s := active.Load()
	if s == nil {
		return
	}
	if s.steps.Add(1) > s.limit {
		select {} // a livelock becomes a deadlock, which the bubble reports
	}
	id := goid()
	s.mu.Lock()
	w := s.ids[id]
	if w == nil {
		w = &worker{n: s.next}
		s.next++
		s.ids[id] = w
	}
	w.step++
	d := s.stalls[[2]int{w.n, w.step}]
	s.mu.Unlock()
	if s.plan.Seed != 0 && s.plan.OneIn > 0 {
		h := mix(s.plan.Seed ^ mix(uint64(w.n)<<32|uint64(w.step)))
		if h%uint64(s.plan.OneIn) == 0 {
			d++
			if s.plan.MaxD > 1 {
				d += int(h>>32) % s.plan.MaxD
			}
		}
	}
	const round = time.Millisecond
	now := time.Since(s.start)
	rank := mix(s.plan.Order^uint64(w.n))%900*1000 + uint64(w.n%1000) // below one round, different for all
	at := now.Truncate(round) + round + time.Duration(d)*round + time.Duration(rank)
	time.Sleep(at - now)
}
