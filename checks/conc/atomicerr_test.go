package conc

import (
	"errors"
	"fmt"
	"os"
	"sync/atomic"
	"testing"

	"github.com/anishathalye/porcupine"
	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gpool"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// ---- C39 atomic error -----------------------------------------------------------

// errors of different shapes; each value carries its number
type (
	errStruct struct{ n int }
	errPtr    struct{ n int }
	errString string
	errSlice  []int // not comparable
	errFunc   func() int
	errNilPtr struct{}
	errAny    struct{ n int }
)

func (e *errAny) Error() string { return "same text" }

// Is makes every error equivalent to this one for errors.Is.
func (e *errAny) Is(error) bool { return true }

func (e errStruct) Error() string  { return fmt.Sprint("struct ", e.n) }
func (e *errPtr) Error() string    { return fmt.Sprint("ptr ", e.n) }
func (e errString) Error() string  { return string(e) }
func (e errSlice) Error() string   { return fmt.Sprint("slice ", e[0]) }
func (e errFunc) Error() string    { return fmt.Sprint("func ", e()) }
func (e *errNilPtr) Error() string { return "nil pointer" }

const errKinds = 12

func makeErr(kind, n int) error {
	switch kind {
	case 0:
		return errors.New(fmt.Sprint("new ", n))
	case 1:
		return errStruct{n}
	case 2:
		return &errPtr{n}
	case 3:
		return errString(fmt.Sprint("string ", n))
	case 4:
		return errSlice{n}
	case 5:
		return errFunc(func() int { return n })
	case 6:
		return fmt.Errorf("wrap %d: %w", n, os.ErrNotExist)
	case 7:
		return (*errNilPtr)(nil) // a non-nil error holding a nil pointer
	case 8:
		return errors.Join(errStruct{n}, errString("joined"))
	case 9:
		return errors.New("same text")
	case 10:
		return fmt.Errorf("same %s", "text")
	case 11:
		return &errAny{n}
	}
	return nil
}

// sameErr compares type and content, for pointers also identity.
func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if fmt.Sprintf("%T", a) != fmt.Sprintf("%T", b) {
		return false
	}
	switch x := a.(type) {
	case errSlice:
		return &x[0] == &b.(errSlice)[0]
	case errFunc:
		return x() == b.(errFunc)()
	}
	return a == b
}

type aeOp struct {
	Op   string // set, load
	Kind int    // -1: nil
}

type aePlan struct {
	Prep    []aeOp
	Workers [][]aeOp
	Sched   sched
}

type aeIn struct {
	Set bool
	N   int
}

var aeModel = porcupine.Model{
	Init: func() any { return 0 },
	Step: func(st, in, out any) (bool, any) {
		i := in.(aeIn)
		if i.Set {
			return true, i.N
		}
		return out == st, st
	},
	Equal:             func(a, b any) bool { return a == b },
	DescribeOperation: func(in, out any) string { return fmt.Sprintf("%+v -> %v", in, out) },
}

func genAEOp(t *rapid.T) aeOp {
	return aeOp{rapid.SampledFrom([]string{"set", "set", "load"}).Draw(t, "op"), rapid.IntRange(-1, errKinds-1).Draw(t, "kind")}
}

func genAE(t *rapid.T) aePlan {
	var p aePlan
	p.Prep = rapid.SliceOfN(rapid.Custom(genAEOp), 0, 4).Draw(t, "prep")
	n := rapid.IntRange(2, 4).Draw(t, "workers")
	for i := 0; i < n; i++ {
		p.Workers = append(p.Workers, rapid.SliceOfN(rapid.Custom(genAEOp), 1, 6).Draw(t, "ops"))
	}
	p.Sched = genSched(t, n, 30)
	return p
}

func runAE(t *testing.T, c *pbt.Ctx, p aePlan) error {
	var ae gconstraints.AtomicError
	var h history
	var made [64]error
	kinds := map[int]bool{}
	count := 0
	// the errors are made before the workers start: their numbers are fixed
	nums := make([][]int, len(p.Workers)+1)
	for w, ops := range append(append([][]aeOp{}, p.Workers...), p.Prep) {
		for _, o := range ops {
			n := 0
			if o.Op == "set" && o.Kind >= 0 {
				count++
				n = count
				made[n] = makeErr(o.Kind, n)
				kinds[o.Kind] = true
			}
			nums[w] = append(nums[w], n)
		}
	}
	lookup := func(e error) (int, error) {
		if e == nil {
			return 0, nil
		}
		for n := 1; n <= count; n++ {
			if sameErr(made[n], e) {
				return n, nil
			}
		}
		return 0, pbt.Errf("Load returned an error nobody set: %T %v", e, e)
	}
	do := func(client, n int, o aeOp) error {
		point()
		call := h.now()
		switch {
		case o.Op == "load":
			e := ae.Load()
			ret := h.now()
			m, err := lookup(e)
			if err != nil {
				return err
			}
			h.addAt(client, aeIn{}, call, m, ret)
		case n == 0:
			ae.Set(nil) // never changes anything
		default:
			ae.Set(made[n])
			if _, ok := made[n].(*errNilPtr); ok { // equal to each other
				n, _ = lookup(made[n])
			}
			h.add(client, aeIn{true, n}, call, nil)
		}
		return nil
	}
	err := runWorkers(t, p.Sched, len(p.Workers), func() error {
		for i, o := range p.Prep {
			if err := do(1000, nums[len(p.Workers)][i], o); err != nil {
				return err
			}
			if err := do(1000, 0, aeOp{Op: "load"}); err != nil {
				return err
			}
		}
		return nil
	}, func(w int) error {
		for i, o := range p.Workers[w] {
			if err := do(w, nums[w][i], o); err != nil {
				return err
			}
		}
		return nil
	}, func() error { return do(1001, 0, aeOp{Op: "load"}) })
	if err != nil {
		return err
	}
	if len(kinds) > 1 && h.overlaps() {
		c.NonTrivial()
	}
	return h.linearizable(c, aeModel)
}

const aeRule = "2..4 workers with 1..6 sets and loads each after up to 4 sequential ones, errors of 12 kinds mixed (pointers, structs, strings, uncomparable slices and functions, wrapped and joined errors, a typed nil pointer, different errors of the same text) and nil; the history must be linearizable as a register that nil does not change; non-trivial: errors of several types and overlapping calls"

func TestC39_Sched(t *testing.T) {
	only(t, true)
	pbt.Check(t, pbt.Prop[aePlan]{
		Rule: aeRule + "; every statement a scheduling point", Cases: 6000, Gen: genAE,
		Run: func(c *pbt.Ctx, p aePlan) error { return runAE(t, c, p) },
	})
}

func TestC39_Race(t *testing.T) {
	only(t, false)
	pbt.Check(t, pbt.Prop[aePlan]{
		Rule: aeRule + "; real threads under the race detector", Cases: 4000, NoShrink: true, Repeats: 2000, Gen: genAE,
		Run: func(c *pbt.Ctx, p aePlan) error { return runAE(t, c, p) },
	})
}

// ---- C18 pools --------------------------------------------------------------------

type poolConcPlan struct {
	Size    uint
	Workers [][]int // 0..5 get, 6..9 put the oldest held value, both of a kind given by parity
	Sched   sched
}

func genPoolConc(t *rapid.T) poolConcPlan {
	p := poolConcPlan{Size: uint(rapid.IntRange(1, 5).Draw(t, "size"))}
	n := rapid.IntRange(2, 5).Draw(t, "workers")
	for i := 0; i < n; i++ {
		p.Workers = append(p.Workers, rapid.SliceOfN(rapid.IntRange(0, 9), 2, 20).Draw(t, "ops"))
	}
	p.Sched = genSched(t, n, 60)
	return p
}

type pooled struct {
	owner atomic.Int64 // 0: free or in the pool
	made  bool
}

func runPoolConc(t *testing.T, c *pbt.Ctx, p poolConcPlan) error {
	pool := gpool.New(func() *pooled { return &pooled{made: true} })
	arr := gpool.NewArrayPool[int](p.Size)
	var reused, gets atomic.Int64
	err := runWorkers(t, p.Sched, len(p.Workers), nil, func(w int) error {
		me := int64(w + 1)
		var held []*pooled
		var heldA [][]int
		for _, o := range p.Workers[w] {
			point()
			switch {
			case o < 6 && o%2 == 0:
				x := pool.Get()
				gets.Add(1)
				if x == nil || !x.made {
					return pbt.Errf("Get returned something the constructor did not make")
				}
				if !x.owner.CompareAndSwap(0, me) {
					return pbt.Errf("Get handed worker %d a value that worker %d holds", w, x.owner.Load()-1)
				}
				held = append(held, x)
			case o < 6:
				s := arr.Get()
				if cap(s) != int(p.Size) {
					return pbt.Errf("array pool: a slice of capacity %d, all have %d", cap(s), p.Size)
				}
				// the first element of a slice in use holds its owner
				if len(s) == 0 {
					s = s[:1]
				} else {
					reused.Add(1)
					if s[0] != 0 {
						return pbt.Errf("array pool handed worker %d a slice worker %d holds", w, s[0]-1)
					}
				}
				s[0] = int(me)
				heldA = append(heldA, s)
			case o%2 == 0:
				if len(held) > 0 {
					x := held[0]
					held = held[1:]
					if !x.owner.CompareAndSwap(me, 0) {
						return pbt.Errf("a value held by worker %d changed hands", w)
					}
					pool.Put(x)
				}
			default:
				if len(heldA) > 0 {
					s := heldA[0]
					heldA = heldA[1:]
					if s[0] != int(me) {
						return pbt.Errf("a slice held by worker %d changed hands", w)
					}
					s[0] = 0
					arr.Put(s)
				}
			}
		}
		for _, x := range held {
			if x.owner.Load() != me {
				return pbt.Errf("a value held by worker %d changed hands", w)
			}
		}
		for _, s := range heldA {
			if s[0] != int(me) {
				return pbt.Errf("a slice held by worker %d changed hands", w)
			}
		}
		return nil
	}, nil)
	if err != nil {
		return err
	}
	if reused.Load() > 0 {
		c.NonTrivial()
	}
	return nil
}

const poolRule = "2..5 workers with 2..20 gets and puts each on one typed pool and one array pool; every value records its holder; non-trivial: a slice was handed out again"

func TestC18_Sched(t *testing.T) {
	only(t, true)
	pbt.Check(t, pbt.Prop[poolConcPlan]{
		Rule: poolRule + "; every statement a scheduling point", Cases: 3000, Gen: genPoolConc,
		Run: func(c *pbt.Ctx, p poolConcPlan) error { return runPoolConc(t, c, p) },
	})
}

func TestC18_Race(t *testing.T) {
	only(t, false)
	pbt.Check(t, pbt.Prop[poolConcPlan]{
		Rule: poolRule + "; real threads under the race detector", Cases: 4000, NoShrink: true, Repeats: 2000, Gen: genPoolConc,
		Run: func(c *pbt.Ctx, p poolConcPlan) error { return runPoolConc(t, c, p) },
	})
}
