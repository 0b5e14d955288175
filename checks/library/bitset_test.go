package library

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/miniLCT/gosb/library/bitset"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

type bop struct {
	Op      string
	A       int   // which set
	I, J    int   // offsets, relative to the size when Rel
	Abs     bool  // take I and J as they are
	V       bool  // value
	Others  []int // operands
	Align   bool  `json:",omitempty"` // I and J at byte boundaries
	Keep    bool  // store the result as a new set
	Sep     string
	HexForm int
}

type bitsetPlan struct {
	Init [][]byte
	Ops  []bop
}

func bitsOf(b []byte) []bool {
	out := make([]bool, 0, 8*len(b))
	for _, x := range b {
		for k := 7; k >= 0; k-- {
			out = append(out, x>>k&1 == 1)
		}
	}
	return out
}

func bytesOf(m []bool) []byte {
	out := make([]byte, (len(m)+7)/8)
	for i, v := range m {
		if v {
			out[i/8] |= 0x80 >> (i % 8)
		}
	}
	return out
}

// span resolves a (start, end) range as documented; ok false: empty.
func span(size, start, end int) (int, int, bool) {
	if start < 0 {
		start += size
	}
	if end < 0 {
		end += size
	}
	start, end = max(start, 0), min(end, size-1)
	return start, end, size > 0 && start <= end
}

func TestC29_Model(t *testing.T) {
	seps := []string{"", ",", " ", "::", "0", "1", "00000000"}
	pbt.Check(t, pbt.Prop[bitsetPlan]{
		Rule: "up to 40 operations over up to 6 sets of 0..70 bytes: set/get at offsets around both ends, count and sub-range with ends inside one byte, across bytes, out of range and negative, clear, logical operations with 0..3 operands including the set itself, renderings; logical results join the pool; " +
			"non-trivial: a logical operation over different lengths and a count or sub over an unaligned non-empty range",
		Cases: 8000,
		Gen: func(t *rapid.T) bitsetPlan {
			var p bitsetPlan
			for i := rapid.IntRange(1, 3).Draw(t, "n"); i > 0; i-- {
				n := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5, 8, 9, 12, 33, 70}).Draw(t, "bytes")
				p.Init = append(p.Init, genBytes(t, n, "init"))
			}
			off := func(t *rapid.T) (int, bool) {
				switch rapid.IntRange(0, 9).Draw(t, "o.class") {
				case 0:
					return rapid.SampledFrom([]int{math.MinInt, math.MinInt + 1, math.MinInt / 3, -1000}).Draw(t, "o"), true
				case 1:
					return rapid.IntRange(-130, 130).Draw(t, "o"), true
				case 2:
					return rapid.IntRange(0, 300).Draw(t, "o"), true
				default:
					return rapid.IntRange(-1000, 1000).Draw(t, "o"), false
				}
			}
			p.Ops = pbt.Ops(t, 40, func(t *rapid.T) bop {
				o := bop{Op: rapid.SampledFrom([]string{"set", "set", "set", "set", "get", "get", "range", "count", "count", "count", "sub", "sub", "sub", "not", "and", "or", "xor", "andnot", "clear", "render", "hex"}).Draw(t, "op"),
					A: rapid.IntRange(0, 5).Draw(t, "a"), V: rapid.Bool().Draw(t, "v")}
				o.I, o.Abs = off(t)
				o.J, _ = off(t)
				o.Others = rapid.SliceOfN(rapid.IntRange(0, 5), 0, 3).Draw(t, "others")
				o.Keep = rapid.Bool().Draw(t, "keep")
				o.Align = rapid.IntRange(0, 4).Draw(t, "align") == 0
				o.Sep = rapid.SampledFrom(seps).Draw(t, "sep")
				o.HexForm = rapid.IntRange(0, 4).Draw(t, "hf")
				return o
			})
			return p
		},
		Run: runBitset,
	})
}

func runBitset(c *pbt.Ctx, p bitsetPlan) error {
	type set struct {
		b *bitset.BitSet
		m []bool
	}
	var sets []*set
	for _, in := range p.Init {
		sets = append(sets, &set{bitset.New(bytes.Clone(in)...), bitsOf(in)})
	}
	unaligned, mixed := false, false
	same := func(what string, b *bitset.BitSet, m []bool) error {
		if b.Size() != len(m) {
			return pbt.Errf("%s: size %d, want %d", what, b.Size(), len(m))
		}
		if got, want := b.Bytes(), bytesOf(m); !bytes.Equal(got, want) {
			return pbt.Errf("%s: bits %08b, want %08b", what, got, want)
		}
		return nil
	}
	// a result shares nothing with its operands
	spoil := func(r *bitset.BitSet, m []bool) {
		for k := range m {
			_, _ = r.Set(k, !m[k])
		}
	}
	for n, o := range p.Ops {
		s := sets[o.A%len(sets)]
		size := len(s.m)
		i, j := o.I, o.J
		if !o.Abs { // spread over [-size-9, size+9]
			k := 2*size + 19
			i, j = ((i%k)+k)%k-size-9, ((j%k)+k)%k-size-9
		}
		if o.Align {
			i, j = i&^7, j|7
		}
		what := fmt.Sprintf("op %d %s(set %d of %d bits, %d, %d, %v)", n, o.Op, o.A%len(sets), size, i, j, o.V)
		switch o.Op {
		case "set":
			if i > size+400 {
				i = size + i%400
			}
			at := i
			if at < 0 {
				at += size
			}
			old, err := s.b.Set(i, o.V)
			if at < 0 {
				c.Label("set before start")
				if err == nil || old {
					return pbt.Errf("%s: got %v, %v; want an error", what, old, err)
				}
				break
			}
			want := at < size && s.m[at]
			if err != nil || old != want {
				return pbt.Errf("%s: got %v, %v; want %v", what, old, err, want)
			}
			if at >= size {
				c.Label("set grows")
				s.m = append(s.m, make([]bool, (at/8+1)*8-size)...)
			}
			s.m[at] = o.V
		case "get":
			at := i
			if at < 0 {
				at += size
			}
			want := at >= 0 && at < size && s.m[at]
			if got := s.b.Get(i); got != want {
				return pbt.Errf("%s: got %v, want %v", what, got, want)
			}
		case "range":
			stop := size + 1
			if o.V && size > 0 {
				stop = 1 + ((i%size)+size)%size
			}
			seen := 0
			var bad error
			s.b.Range(func(off int, truth bool) bool {
				if off != seen || off >= size || truth != s.m[off] {
					bad = pbt.Errf("%s: Range visit %d gave offset %d %v", what, seen, off, truth)
				}
				seen++
				return bad == nil && seen < stop
			})
			if bad != nil {
				return bad
			}
			if seen != min(stop, size) {
				return pbt.Errf("%s: Range made %d visits, want %d", what, seen, min(stop, size))
			}
		case "count":
			a, b, ok := span(size, i, j)
			want := 0
			if ok {
				for k := a; k <= b; k++ {
					if s.m[k] {
						want++
					}
				}
				unaligned = unaligned || a%8 != 0 || b%8 != 7
				c.LabelIf(a/8 == b/8, "range in one byte")
			}
			if got := s.b.Count(i, j); got != want {
				return pbt.Errf("%s: Count = %d, want %d (bits %08b)", what, got, want, bytesOf(s.m))
			}
		case "sub":
			a, b, ok := span(size, i, j)
			var want []bool
			if ok {
				want = bitsOf(bytesOf(s.m[a : b+1])) // padded to whole bytes
				unaligned = unaligned || a%8 != 0 || b%8 != 7
			}
			r := s.b.Sub(i, j)
			if err := same(what, r, want); err != nil {
				return err
			}
			if o.Keep && len(sets) < 6 {
				sets = append(sets, &set{r, want})
			} else {
				spoil(r, want)
			}
		case "not":
			r := s.b.Not()
			m := make([]bool, size)
			for k := range m {
				m[k] = !s.m[k]
			}
			if err := same(what, r, m); err != nil {
				return err
			}
			if o.Keep && len(sets) < 6 {
				sets = append(sets, &set{r, m})
			} else {
				spoil(r, m)
			}
		case "and", "or", "xor", "andnot":
			var ops []*bitset.BitSet
			longest := size
			var os []*set
			for _, k := range o.Others {
				x := sets[k%len(sets)]
				os = append(os, x)
				ops = append(ops, x.b)
				longest = max(longest, len(x.m))
				mixed = mixed || len(x.m) != size
				c.LabelIf(x == s, "operand is the receiver")
			}
			at := func(m []bool, k int) bool { return k < len(m) && m[k] }
			m := make([]bool, longest)
			for k := range m {
				v := at(s.m, k)
				for _, x := range os {
					w := at(x.m, k)
					switch o.Op {
					case "and":
						v = v && w
					case "or":
						v = v || w
					case "xor":
						v = v != w
					case "andnot":
						v = v && !w
					}
				}
				m[k] = v
			}
			var r *bitset.BitSet
			switch o.Op {
			case "and":
				r = s.b.And(ops...)
			case "or":
				r = s.b.Or(ops...)
			case "xor":
				r = s.b.Xor(ops...)
			case "andnot":
				r = s.b.AndNot(ops...)
			}
			if err := same(fmt.Sprintf("%s with %v", what, o.Others), r, m); err != nil {
				return err
			}
			if len(ops) == 0 {
				if r != s.b {
					return pbt.Errf("%s without operands does not return the set itself", what)
				}
			} else if o.Keep && len(sets) < 6 {
				sets = append(sets, &set{r, m})
			} else {
				spoil(r, m)
			}
		case "clear":
			s.b.Clear()
			for k := range s.m {
				s.m[k] = false
			}
		case "render":
			raw := bytesOf(s.m)
			if got := s.b.String(); got != hex.EncodeToString(raw) {
				return pbt.Errf("%s: String %q, want %x", what, got, raw)
			}
			var parts []string
			for _, x := range raw {
				parts = append(parts, fmt.Sprintf("%08b", x))
			}
			if got, want := s.b.Binary(o.Sep), strings.Join(parts, o.Sep); got != want {
				return pbt.Errf("%s: Binary(%q) = %q, want %q", what, o.Sep, got, want)
			}
			r, err := bitset.NewFromHex(s.b.String())
			if err != nil {
				return pbt.Errf("%s: NewFromHex(String()): %v", what, err)
			}
			if err := same(what+" parsed back", r, s.m); err != nil {
				return err
			}
			got := s.b.Bytes()
			for k := range got {
				got[k] ^= 0xff // a copy: must not change the set
			}
		case "hex":
			h := hex.EncodeToString(bytesOf(s.m))
			bad := false
			switch o.HexForm {
			case 1:
				h = strings.ToUpper(h)
			case 2:
				h += "a"
				bad = true
			case 3:
				h += "g0"
				bad = true
			case 4:
				h = "0x" + h
				bad = true
			}
			r, err := bitset.NewFromHex(h)
			if bad {
				if err == nil {
					return pbt.Errf("NewFromHex(%q) accepted", h)
				}
				break
			}
			if err != nil {
				return pbt.Errf("NewFromHex(%q): %v", h, err)
			}
			if err := same("NewFromHex "+h, r, s.m); err != nil {
				return err
			}
		}
		for k, x := range sets {
			if err := same(fmt.Sprintf("set %d after %s", k, what), x.b, x.m); err != nil {
				return err
			}
		}
	}
	if unaligned && mixed {
		c.NonTrivial()
	}
	return nil
}
