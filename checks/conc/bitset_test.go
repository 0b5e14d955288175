package conc

import (
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"strings"
	"testing"

	"github.com/anishathalye/porcupine"
	"github.com/miniLCT/gosb/library/bitset"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

type bsOp struct {
	Op     string
	A      int
	I, J   int
	V      bool
	Others []int
}

type bsPlan struct {
	Init    [][]byte
	Pad     int // bytes that follow in each set
	Workers [][]bsOp
	Sched   sched
}

// the state: the contents of the shared sets
type bsState [3]string

func bsGet(s string, i int) bool { return s[i/8]>>(7-i%8)&1 == 1 }

// bsSpan resolves a range; ok false: empty.
func bsSpan(size, start, end int) (int, int, bool) {
	if start < 0 {
		start += size
	}
	if end < 0 {
		end += size
	}
	start, end = max(start, 0), min(end, size-1)
	return start, end, size > 0 && start <= end
}

func bsStep(state, in, out any) (bool, any) {
	st, o := state.(bsState), in.(bsOp)
	got := out.(string)
	s := st[o.A]
	size := len(s) * 8
	switch o.Op {
	case "set":
		i := o.I
		if i < 0 {
			i += size
		}
		if i < 0 {
			return got == "error", st
		}
		b := []byte(s)
		for len(b) <= i/8 {
			b = append(b, 0)
		}
		m := byte(0x80) >> (i % 8)
		was := b[i/8]&m != 0
		b[i/8] &^= m
		if o.V {
			b[i/8] |= m
		}
		st[o.A] = string(b)
		return got == fmt.Sprint(was), st
	case "clear":
		st[o.A] = strings.Repeat("\x00", len(s))
		return true, st
	}
	return got == bsRead(st, o), st
}

func bsRead(st bsState, o bsOp) string {
	s := st[o.A]
	size := len(s) * 8
	switch o.Op {
	case "get":
		i := o.I
		if i < 0 {
			i += size
		}
		return fmt.Sprint(i >= 0 && i < size && bsGet(s, i))
	case "size":
		return fmt.Sprint(size)
	case "bytes", "string":
		return hex.EncodeToString([]byte(s))
	case "range", "binary":
		var sb strings.Builder
		for i := 0; i < size; i++ {
			if bsGet(s, i) {
				sb.WriteByte('1')
			} else {
				sb.WriteByte('0')
			}
		}
		return sb.String()
	case "count":
		a, b, ok := bsSpan(size, o.I, o.J)
		n := 0
		for i := a; ok && i <= b; i++ {
			if bsGet(s, i) {
				n++
			}
		}
		return fmt.Sprint(n)
	case "sub":
		a, b, ok := bsSpan(size, o.I, o.J)
		var r []byte
		for i := a; ok && i <= b; i++ {
			if (i-a)%8 == 0 {
				r = append(r, 0)
			}
			if bsGet(s, i) {
				r[(i-a)/8] |= 0x80 >> ((i - a) % 8)
			}
		}
		return hex.EncodeToString(r)
	case "not":
		r := []byte(s)
		for i := range r {
			r[i] = ^r[i]
		}
		return hex.EncodeToString(r)
	}
	n := len(s)
	for _, x := range o.Others {
		n = max(n, len(st[x]))
	}
	r := make([]byte, n)
	copy(r, s)
	for _, x := range o.Others {
		t := make([]byte, n)
		copy(t, st[x])
		for i := range r {
			switch o.Op {
			case "and":
				r[i] &= t[i]
			case "or":
				r[i] |= t[i]
			case "xor":
				r[i] ^= t[i]
			case "andnot":
				r[i] &^= t[i]
			}
		}
	}
	return hex.EncodeToString(r)
}

func genBsOp(t *rapid.T, sets int, mode int) bsOp {
	ops := []string{"set", "set", "set", "set", "get", "get", "count", "count", "sub", "not", "and", "or", "xor", "andnot", "clear", "size", "bytes", "string", "range", "binary"}
	switch mode {
	case 1:
		ops = []string{"set", "set", "set", "clear", "and", "or", "xor", "andnot", "not", "bytes"}
	case 2: // offsets from the end of a set that grows
		o := bsOp{Op: rapid.SampledFrom([]string{"set", "set", "set", "count", "sub", "get"}).Draw(t, "op"), A: rapid.IntRange(0, sets-1).Draw(t, "a"), V: rapid.IntRange(0, 3).Draw(t, "v") > 0}
		o.I = rapid.SampledFrom([]int{-1, -1, -1, -2, -8, -9}).Draw(t, "i")
		o.J = rapid.SampledFrom([]int{-1, -1, -1, -1, -1, -7, 100}).Draw(t, "j")
		if o.Op == "set" {
			o.I = rapid.SampledFrom([]int{-1, 6, 7, 8, 14, 15, 16, 23}).Draw(t, "at")
		}
		return o
	}
	if mode == 3 { // large sets
		ops = []string{"set", "set", "set", "clear", "clear", "clear", "not", "and", "or", "xor", "andnot", "bytes", "bytes"}
	}
	o := bsOp{Op: rapid.SampledFrom(ops).Draw(t, "op"), A: rapid.IntRange(0, sets-1).Draw(t, "a"), V: rapid.Bool().Draw(t, "v")}
	off := func(name string) int {
		if mode == 3 {
			return rapid.SampledFrom([]int{0, 1, 7, -1, -2, -900, 1500}).Draw(t, name)
		}
		if rapid.IntRange(0, 3).Draw(t, name+".class") == 0 {
			return rapid.IntRange(-26, 40).Draw(t, name)
		}
		return rapid.IntRange(0, 15).Draw(t, name)
	}
	switch o.Op {
	case "set", "get":
		o.I = off("i")
	case "count", "sub":
		o.I, o.J = rapid.SampledFrom([]int{0, 0, 0, 3, 5, -8}).Draw(t, "i"), rapid.SampledFrom([]int{-1, -1, 15, 9, 4, 100}).Draw(t, "j")
	case "and", "or", "xor", "andnot":
		o.Others = rapid.SliceOfN(rapid.IntRange(0, sets-1), 1, 3).Draw(t, "others")
	}
	return o
}

func genBs(t *rapid.T) bsPlan {
	var p bsPlan
	mode, most := rapid.IntRange(0, 2).Draw(t, "mode"), 5
	if rapid.IntRange(0, 39).Draw(t, "large") == 39 {
		mode, most, p.Pad = 3, 2, rapid.IntRange(200, 1200).Draw(t, "pad")
	}
	sets := rapid.IntRange(1, 3).Draw(t, "sets")
	if mode == 2 {
		sets = 1
	}
	for i := 0; i < sets; i++ {
		if mode == 2 {
			p.Init = append(p.Init, []byte{rapid.SampledFrom([]byte{0, 0, 1, 0x80, 0x7f}).Draw(t, "byte")})
			continue
		}
		p.Init = append(p.Init, rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(t, "init"))
	}
	n := rapid.IntRange(2, 4).Draw(t, "workers")
	if mode == 3 {
		n = min(n, 3)
	}
	for i := 0; i < n; i++ {
		p.Workers = append(p.Workers, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) bsOp { return genBsOp(t, sets, mode) }), 1, most).Draw(t, "ops"))
	}
	p.Sched = genSched(t, n, 60)
	return p
}

func runBs(t *testing.T, c *pbt.Ctx, p bsPlan) error {
	var sets []*bitset.BitSet
	var init bsState
	for i, b := range p.Init {
		for j := 0; j < p.Pad; j++ {
			b = append(b[:len(b):len(b)], byte(0xa5+j%3))
		}
		init[i] = string(b)
		sets = append(sets, bitset.New(append([]byte{}, b...)...))
	}
	var h history
	do := func(client int, o bsOp) error {
		point()
		s := sets[o.A]
		var others []*bitset.BitSet
		for _, x := range o.Others {
			others = append(others, sets[x])
		}
		hexOf := func(b *bitset.BitSet) string { return hex.EncodeToString(b.Bytes()) }
		var res *bitset.BitSet
		out := ""
		call := h.now()
		switch o.Op {
		case "set":
			was, err := s.Set(o.I, o.V)
			out = fmt.Sprint(was)
			if err != nil {
				out = "error"
			}
		case "clear":
			s.Clear()
		case "get":
			out = fmt.Sprint(s.Get(o.I))
		case "size":
			out = fmt.Sprint(s.Size())
		case "bytes":
			out = hex.EncodeToString(s.Bytes())
		case "string":
			out = s.String()
		case "binary":
			out = strings.ReplaceAll(s.Binary(" "), " ", "")
		case "range":
			var sb strings.Builder
			s.Range(func(_ int, v bool) bool {
				if sb.Len()%5 == 0 {
					point()
				}
				if v {
					sb.WriteByte('1')
				} else {
					sb.WriteByte('0')
				}
				return true
			})
			out = sb.String()
		case "count":
			out = fmt.Sprint(s.Count(o.I, o.J))
		case "sub":
			res = s.Sub(o.I, o.J)
		case "not":
			res = s.Not()
		case "and":
			res = s.And(others...)
		case "or":
			res = s.Or(others...)
		case "xor":
			res = s.Xor(others...)
		case "andnot":
			res = s.AndNot(others...)
		}
		ret := h.now()
		if res != nil {
			// the result is a set of its own
			for i, x := range sets {
				if res == x {
					return pbt.Errf("%+v returned the shared set %d itself", o, i)
				}
			}
			point()
			out = hexOf(res)
		}
		h.addAt(client, o, call, out, ret)
		return nil
	}
	err := runWorkers(t, p.Sched, len(p.Workers), nil, func(w int) error {
		for _, o := range p.Workers[w] {
			if err := do(w, o); err != nil {
				return err
			}
		}
		return nil
	}, func() error {
		for i := range sets {
			if err := do(1001, bsOp{Op: "bytes", A: i}); err != nil {
				return err
			}
		}
		return nil
	})
	if err != nil {
		return pbt.Errf("%v\n%s", err, h.describe(bsDescribe))
	}
	multi, writes := 0, 0
	for _, ops := range p.Workers {
		for _, o := range ops {
			if len(o.Others) > 0 {
				multi++
			}
			if o.Op == "set" {
				writes++
			}
		}
	}
	if writes > 0 && h.overlaps() {
		c.NonTrivial()
		c.LabelIf(multi > 1, "several multi-operand operations")
	}
	return h.linearizable(c, porcupine.Model{
		Init:              func() any { return init },
		Step:              bsStep,
		Equal:             func(a, b any) bool { return a == b },
		DescribeOperation: bsDescribe,
	})
}

func bsDescribe(in, out any) string {
	s := fmt.Sprint(out)
	if len(s) > 200 {
		h := fnv.New64a()
		h.Write([]byte(s))
		s = fmt.Sprintf("%s…%s (%d characters, hash %x)", s[:60], s[len(s)-60:], len(s), h.Sum64())
	}
	return fmt.Sprintf("%+v -> %s", in, s)
}

const bsRule = "2..4 workers with 1..5 operations each over 1..3 shared sets of 0..3 bytes (one case in 40: up to 3 workers with 2 operations over sets of 200..1200 bytes): set (also growing and from the end), get, count, sub, clear, renderings, iteration, logical operations with 1..3 operands in any order including the set itself and repeats; the history must be linearizable with every operation atomic over all its sets, and must end; non-trivial: a set overlapping another call"

func TestC30_Sched(t *testing.T) {
	only(t, true)
	pbt.Check(t, pbt.Prop[bsPlan]{
		Rule: bsRule + "; every statement a scheduling point", Cases: 10000, Gen: genBs,
		Run: func(c *pbt.Ctx, p bsPlan) error { return runBs(t, c, p) },
	})
}

func TestC30_Race(t *testing.T) {
	only(t, false)
	pbt.Check(t, pbt.Prop[bsPlan]{
		Rule: bsRule + "; real threads under the race detector", Cases: 4000, NoShrink: true, Repeats: 2000, Gen: genBs,
		Run: func(c *pbt.Ctx, p bsPlan) error { return runBs(t, c, p) },
	})
}
