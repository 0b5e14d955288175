//go:build !novars

package rnd

import (
	"math"
	"math/bits"
	"testing"
	"time"

	"github.com/miniLCT/gosb/hack/fastrand"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

type exactPlan struct {
	Fn string
	N  int64
}

// C20: every one of the 2^32 words of the source is tried as the first word of
// a draw. Draws that needed no second word must fall on every value equally
// often, to the last one; draws that needed more are repeats of the same
// experiment and so uniform too.
func TestC20_Exact(t *testing.T) {
	pbt.Check(t, pbt.Prop[exactPlan]{
		Rule: "Int31n, Intn: a bound that is not a power of two, all 2^32 source words: among the draws that used one word every value occurs exactly equally often, and fewer than half the words are turned down; " +
			"non-trivial: every bound",
		PerShard: 1,
		Mult:     8,
		NoShrink: true,
		LongCase: true,
		Gen: func(t *rapid.T) exactPlan {
			p := exactPlan{Fn: rapid.SampledFrom([]string{"Int31n", "Int31n", "Intn"}).Draw(t, "fn")}
			switch rapid.IntRange(0, 3).Draw(t, "class") {
			case 0:
				p.N = rapid.Int64Range(3, 70).Draw(t, "n")
			case 1:
				p.N = rapid.Int64Range(3, 1<<16).Draw(t, "n")
			case 2:
				p.N = 1<<rapid.IntRange(2, 20).Draw(t, "pow") + int64(rapid.SampledFrom([]int{-1, 1}).Draw(t, "d"))
			default:
				p.N = rapid.Int64Range(1<<16, 1<<22).Draw(t, "n")
			}
			if p.N&(p.N-1) == 0 {
				p.N++
			}
			return p
		},
		Run: func(c *pbt.Ctx, p exactPlan) error {
			o32, o64, ou := fastrand.Uint32, fastrand.Uint64, fastrand.Uint
			defer func() { fastrand.Uint32, fastrand.Uint64, fastrand.Uint = o32, o64, ou }()
			var word uint32
			used, other := 0, false
			fastrand.Uint32 = func() uint32 {
				used++
				w := word
				word = word*1664525 + 1013904223
				return w
			}
			fastrand.Uint64 = func() uint64 { other = true; return uint64(fastrand.Uint32())<<32 | uint64(fastrand.Uint32()) }
			fastrand.Uint = func() uint { return uint(fastrand.Uint64()) }
			counts := make([]uint32, p.N)
			rejected := uint64(0)
			n32, n := int32(p.N), int(p.N)
			start := time.Now()
			for w := uint64(0); w < 1<<32; w++ {
				if w&(1<<26-1) == 0 && time.Since(start) > 3*time.Minute {
					c.Label("machine too slow")
					return nil
				}
				word, used = uint32(w), 0
				var v int
				if p.Fn == "Int31n" {
					v = int(fastrand.Int31n(n32))
				} else {
					v = fastrand.Intn(n)
				}
				if uint(v) >= uint(n) {
					return pbt.Errf("%s(%d) returned %d for the word %#x", p.Fn, n, v, uint32(w))
				}
				if other || used == 0 {
					// not drawn from 32-bit words: out of reach of enumeration
					c.Label("not enumerable")
					return nil
				}
				if used > 1 {
					rejected++
					continue
				}
				counts[v]++
			}
			c.NonTrivial()
			c.Label(p.Fn)
			if rejected >= 1<<31 {
				return pbt.Errf("%s(%d) turns down %d of 2^32 words", p.Fn, n, rejected)
			}
			lo, hi := 0, 0
			for v := range counts {
				if counts[v] < counts[lo] {
					lo = v
				}
				if counts[v] > counts[hi] {
					hi = v
				}
			}
			if counts[lo] != counts[hi] {
				return pbt.Errf("%s(%d) is not exactly uniform: of 2^32 source words %d give %d and %d give %d", p.Fn, n, counts[lo], lo, counts[hi], hi)
			}
			return nil
		},
	})
}

type exact63Plan struct {
	Fn    string
	N     uint64
	Words []uint64
	Picks []uint64
}

// C20: where the 63-bit functions reduce a word modulo n, the words they accept
// must end at a multiple of n: accepting one more or one fewer makes a value
// likelier than the others.
func TestC20_Exact63(t *testing.T) {
	pbt.Check(t, pbt.Prop[exact63Plan]{
		Rule: "Int63n, Intn with a bound beyond 31 bits that is not a power of two; provided that a dozen sample words give their remainder, all words of the last full stretch of n words below 2^63 are accepted or all are turned down, and the words after it are turned down; " +
			"non-trivial: the sample words give their remainders",
		Cases: 3000,
		Gen: func(t *rapid.T) exact63Plan {
			p := exact63Plan{Fn: rapid.SampledFrom([]string{"Int63n", "Intn"}).Draw(t, "fn")}
			if bits.UintSize == 32 {
				p.Fn = "Int63n"
			}
			p.N = genBound(t, math.MaxInt64)
			if rapid.Bool().Draw(t, "huge") {
				p.N |= 1 << 62
			}
			if p.N <= math.MaxInt32 {
				p.N += 1 << 31
			}
			if p.N&(p.N-1) == 0 {
				p.N++
			}
			p.Words = rapid.SliceOfN(rapid.Uint64(), 12, 12).Draw(t, "words")
			p.Picks = rapid.SliceOfN(rapid.Uint64(), 4, 4).Draw(t, "picks")
			return p
		},
		Run: func(c *pbt.Ctx, p exact63Plan) error {
			n := p.N
			draw := func(w uint64) (v uint64, calls int) {
				s, restore := install(w, []uint64{w})
				defer restore()
				return call(p.Fn, n), s.calls
			}
			for _, w := range p.Words {
				w %= n // far below the limit, or within the first stretch
				v, calls := draw(w)
				if v >= n {
					return pbt.Errf("%s(%d) returned %d", p.Fn, n, v)
				}
				if calls != 1 || v != w {
					c.Label("not a remainder")
					return nil
				}
			}
			c.NonTrivial()
			c.Label(p.Fn)
			end := uint64(1<<63) - uint64(1<<63)%n
			tries := []uint64{end - 1, end - n, end - n/2}
			for _, x := range p.Picks[:2] {
				tries = append(tries, end-n+x%n)
			}
			first := false
			for i, w := range tries {
				v, calls := draw(w)
				if calls == 1 && v != w%n {
					c.Label("not a remainder")
					return nil
				}
				if i == 0 {
					first = calls == 1
				} else if first != (calls == 1) {
					return pbt.Errf("%s(%d) is not exactly uniform: of the words %d and %d, both in the last full stretch, it accepts only one", p.Fn, n, tries[0], w)
				}
			}
			over := []uint64{end, 1<<63 - 1}
			for _, x := range p.Picks[2:] {
				over = append(over, end+x%(1<<63-end))
			}
			for _, w := range over {
				if v, calls := draw(w); calls == 1 {
					return pbt.Errf("%s(%d) is not exactly uniform: the word %d behind the last full stretch gives %d", p.Fn, n, w, v)
				}
			}
			return nil
		},
	})
}
