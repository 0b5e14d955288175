package rnd

import (
	"fmt"
	"math"
	"math/bits"
	"testing"

	"github.com/miniLCT/gosb/hack/fastrand"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

type source struct {
	words []uint64
	i     int
	x     uint64
	calls int
}

func (s *source) next() uint64 {
	s.calls++
	if s.i < len(s.words) {
		s.i++
		return s.words[s.i-1]
	}
	// splitmix64
	s.x += 0x9e3779b97f4a7c15
	z := s.x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

type boundPlan struct {
	Fn    string
	N     uint64
	Neg   bool
	Words []uint64
	Seed  uint64
}

var signedMax = map[string]uint64{"Intn": math.MaxInt, "Int31n": math.MaxInt32, "Int63n": math.MaxInt64}
var unsignedMax = map[string]uint64{"Uintn": math.MaxUint, "Uint32n": math.MaxUint32, "Uint64n": math.MaxUint64}

func call(fn string, n uint64) uint64 {
	switch fn {
	case "Intn":
		return uint64(fastrand.Intn(int(n)))
	case "Int31n":
		return uint64(int64(fastrand.Int31n(int32(n))))
	case "Int63n":
		return uint64(fastrand.Int63n(int64(n)))
	case "Uintn":
		return uint64(fastrand.Uintn(uint(n)))
	case "Uint32n":
		return uint64(fastrand.Uint32n(uint32(n)))
	case "Uint64n":
		return fastrand.Uint64n(n)
	}
	panic(fn)
}

func genWord(t *rapid.T) uint64 {
	switch rapid.IntRange(0, 3).Draw(t, "w.class") {
	case 0:
		return rapid.SampledFrom([]uint64{0, 1, 2, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, math.MaxUint64, math.MaxUint64 - 1, 1<<53 - 1, 1 << 53, 1 << 24}).Draw(t, "w")
	case 1:
		return ^uint64(0) - uint64(rapid.IntRange(0, 100000).Draw(t, "w"))
	case 2: // 1<<63 minus a little: around the rejection limit
		return 1<<63 - 1 - uint64(rapid.IntRange(0, 100000).Draw(t, "w"))
	default:
		return rapid.Uint64().Draw(t, "w")
	}
}

func genBound(t *rapid.T, maxN uint64) uint64 {
	var n uint64
	switch rapid.IntRange(0, 5).Draw(t, "n.class") {
	case 0:
		n = uint64(rapid.IntRange(1, 70).Draw(t, "n"))
	case 1:
		n = 1<<rapid.IntRange(0, 63).Draw(t, "pow") + uint64(rapid.IntRange(0, 2).Draw(t, "d")) - 1
	case 2:
		n = maxN - uint64(rapid.IntRange(0, 3).Draw(t, "d"))
	case 3:
		n = 1<<31 + uint64(rapid.IntRange(-3, 3).Draw(t, "d"))
	default:
		n = rapid.Uint64Range(1, maxN).Draw(t, "n")
	}
	if n > maxN {
		n = n%maxN + 1
	}
	return max(n, 1)
}

func TestC19_Bounds(t *testing.T) {
	fns := []string{"Intn", "Int31n", "Int63n", "Uintn", "Uint32n", "Uint64n"}
	pbt.Check(t, pbt.Prop[boundPlan]{
		Rule: "a bounded function, a bound (small, around powers of two, around 2^31, maximal, arbitrary, or not positive) and an adversarial prefix of source words (all ones, zero, around the rejection limits) followed by a uniform sequence; results must stay in range, low and high ends and (for n up to 70) every value must be reached; " +
			"non-trivial: a bound that is not a power of two",
		Cases: 6000,
		Gen: func(t *rapid.T) boundPlan {
			p := boundPlan{Fn: rapid.SampledFrom(fns).Draw(t, "fn"), Seed: rapid.Uint64().Draw(t, "seed")}
			sm, signed := signedMax[p.Fn]
			if signed && rapid.IntRange(0, 9).Draw(t, "neg") == 0 {
				p.Neg = true
				p.N = rapid.SampledFrom([]uint64{0, 1, 2, 1 << 31, 1 << 40}).Draw(t, "n")
			} else if signed {
				p.N = genBound(t, sm)
			} else {
				p.N = genBound(t, unsignedMax[p.Fn])
			}
			p.Words = rapid.SliceOfN(rapid.Custom(genWord), 0, 12).Draw(t, "words")
			return p
		},
		Run: func(c *pbt.Ctx, p boundPlan) error {
			c.Label(p.Fn)
			_, restore := install(p.Seed, p.Words)
			defer restore()
			if p.Neg {
				n := -int64(p.N)
				if p.Fn == "Int31n" && n < math.MinInt32 {
					n = math.MinInt32
				}
				if _, did := pbt.Panics(func() { call(p.Fn, uint64(n)) }); !did {
					return pbt.Errf("%s(%d) does not panic", p.Fn, n)
				}
				return nil
			}
			if bits.OnesCount64(p.N) > 1 {
				c.NonTrivial()
			}
			draws := len(p.Words) + 40
			if p.N <= 70 {
				draws += 40 * int(p.N)
			} else {
				draws += 150
			}
			low, high := false, false
			seen := map[uint64]bool{}
			for i := 0; i < draws; i++ {
				v := call(p.Fn, p.N)
				if v >= p.N {
					return pbt.Errf("%s(%d) returned %d", p.Fn, p.N, int64(v))
				}
				if p.N <= 70 {
					seen[v] = true
				}
				low = low || v < p.N/4+1
				high = high || v >= p.N-p.N/4-1
			}
			if p.N <= 70 && len(seen) != int(p.N) {
				return pbt.Errf("%s(%d) only ever returned %d different values in %d draws", p.Fn, p.N, len(seen), draws)
			}
			if !low || !high {
				return pbt.Errf("%s(%d) never left one end of the range in %d draws (low quarter %v, high quarter %v)", p.Fn, p.N, draws, low, high)
			}
			return nil
		},
	})
}

func TestC19_Unbounded(t *testing.T) {
	pbt.Check(t, pbt.Prop[boundPlan]{
		Rule:  "adversarial source words through Int, Int31, Int63, Float32, Float64: signs and [0,1), and every value bit set and clear at some point; non-trivial: at least one adversarial word",
		Cases: 2000,
		Gen: func(t *rapid.T) boundPlan {
			return boundPlan{Seed: rapid.Uint64().Draw(t, "seed"), Words: rapid.SliceOfN(rapid.Custom(genWord), 0, 12).Draw(t, "words")}
		},
		Run: func(c *pbt.Ctx, p boundPlan) error {
			if len(p.Words) > 0 {
				c.NonTrivial()
			}
			for _, f := range []struct {
				name string
				bits int
				get  func() (int64, float64, bool)
			}{
				{"Int", bits.UintSize - 1, func() (int64, float64, bool) { return int64(fastrand.Int()), 0, false }},
				{"Int31", 31, func() (int64, float64, bool) { return int64(fastrand.Int31()), 0, false }},
				{"Int63", 63, func() (int64, float64, bool) { return fastrand.Int63(), 0, false }},
				{"Float32", 24, func() (int64, float64, bool) { v := float64(fastrand.Float32()); return int64(v * (1 << 24)), v, true }},
				{"Float64", 53, func() (int64, float64, bool) { v := fastrand.Float64(); return int64(v * (1 << 53)), v, true }},
			} {
				_, restore := install(p.Seed, p.Words)
				var set, clear uint64
				for i := 0; i < 60+len(p.Words); i++ {
					v, fl, isF := f.get()
					if isF && !(fl >= 0 && fl < 1) {
						restore()
						return pbt.Errf("%s() returned %v", f.name, fl)
					}
					if v < 0 || (f.name == "Int31" && v > math.MaxInt32) {
						restore()
						return pbt.Errf("%s() returned %d", f.name, v)
					}
					set |= uint64(v)
					clear |= ^uint64(v)
				}
				restore()
				mask := uint64(1)<<f.bits - 1
				if set&mask != mask || clear&mask != mask {
					return pbt.Errf("%s(): bits never set %#x, never clear %#x", f.name, ^set&mask, ^clear&mask)
				}
			}
			return nil
		},
	})
}

type readPlan struct {
	Before, Len, After int
	Seed               uint64
	Words              []uint64
}

func TestC19_Read(t *testing.T) {
	pbt.Check(t, pbt.Prop[readPlan]{
		Rule:  "a window of 0..120 (sometimes 5000) bytes at any alignment inside a larger patterned buffer is filled 14 times under different patterns and seeds; every byte inside must change at some point and no byte outside ever; non-trivial: a length that is not a multiple of 8 with bytes on both sides",
		Cases: 4000,
		Gen: func(t *rapid.T) readPlan {
			p := readPlan{Before: rapid.IntRange(0, 17).Draw(t, "before"), After: rapid.IntRange(0, 17).Draw(t, "after"), Len: rapid.IntRange(0, 120).Draw(t, "len"),
				Seed: rapid.Uint64().Draw(t, "seed"), Words: rapid.SliceOfN(rapid.Custom(genWord), 0, 3).Draw(t, "words")}
			if rapid.IntRange(0, 49).Draw(t, "big") == 0 {
				p.Len = rapid.IntRange(1000, 5000).Draw(t, "len2")
			}
			return p
		},
		Run: runRead,
	})
}

func runRead(c *pbt.Ctx, p readPlan) error {
	if p.Len%8 != 0 && p.Before > 0 && p.After > 0 {
		c.NonTrivial()
	}
	c.LabelIf(p.Len == 0, "empty")
	_, restore := install(p.Seed, p.Words)
	defer restore()
	buf := make([]byte, p.Before+p.Len+p.After)
	changed := make([]bool, p.Len)
	for round := 0; round < 14; round++ {
		for i := range buf {
			buf[i] = byte(i*31 + round*97)
		}
		win := buf[p.Before : p.Before+p.Len]
		if round%2 == 1 {
			win = buf[p.Before : p.Before+p.Len : p.Before+p.Len]
		}
		n, err := fastrand.Read(win)
		if n != p.Len || err != nil {
			return pbt.Errf("Read of %d bytes returned %d, %v", p.Len, n, err)
		}
		for i := range buf {
			same := buf[i] == byte(i*31+round*97)
			if i < p.Before || i >= p.Before+p.Len {
				if !same {
					return pbt.Errf("Read of [%d,%d) wrote byte %d", p.Before, p.Before+p.Len, i)
				}
			} else if !same {
				changed[i-p.Before] = true
			}
		}
	}
	for i, ch := range changed {
		if !ch {
			return pbt.Errf("Read of %d bytes never wrote byte %d in 14 rounds", p.Len, i)
		}
	}
	return nil
}

// ---- C20 --------------------------------------------------------------------

// tooFar reports whether a chi-square statistic with df degrees of freedom is
// further out than any uniform source plausibly gives (about 9 sigma).
func tooFar(chi2 float64, df int) bool {
	// Wilson-Hilferty
	d := float64(df)
	z := (math.Cbrt(chi2/d) - (1 - 2/(9*d))) / math.Sqrt(2/(9*d))
	return z > 9
}

func chi2(counts []int, total int) float64 {
	e := float64(total) / float64(len(counts))
	s := 0.0
	for _, n := range counts {
		s += (float64(n) - e) * (float64(n) - e) / e
	}
	return s
}

type uniPlan struct {
	Fn   string
	M    int // buckets
	Pow  int // bound is M << Pow
	Seed uint64
}

func TestC20_Bounded(t *testing.T) {
	pbt.Check(t, pbt.Prop[uniPlan]{
		Rule: "a bounded function with bound m*2^k for a small odd or even m and any k up to the type's limit; 40000 draws from a uniform source fall evenly (chi-square, about 9 sigma) both into the m equal intervals and into the m residue classes; " +
			"non-trivial: bound above 2^28 for 31-bit and 2^60 for 63-bit functions, where dropping the rejection step is visible",
		Cases: 150,
		Gen: func(t *rapid.T) uniPlan {
			p := uniPlan{Fn: rapid.SampledFrom([]string{"Intn", "Int31n", "Int31n", "Int63n", "Int63n", "Uintn", "Uint32n", "Uint64n"}).Draw(t, "fn"),
				M: rapid.SampledFrom([]int{3, 3, 5, 6, 7, 10, 13, 100}).Draw(t, "m"), Seed: rapid.Uint64().Draw(t, "seed")}
			top := 31
			switch p.Fn {
			case "Int63n":
				top = 63
			case "Intn":
				top = bits.UintSize - 1
			case "Uintn", "Uint32n", "Uint64n":
				// rounding of one source word: stay where it cannot be seen
				top = 14
			}
			maxPow := top - bits.Len(uint(p.M))
			p.Pow = max(0, maxPow-rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5, 20, 31, 40, 60}).Draw(t, "below"))
			return p
		},
		Run: func(c *pbt.Ctx, p uniPlan) error {
			c.Label(p.Fn)
			n := uint64(p.M) << p.Pow
			if p.Fn == "Int31n" && n > 1<<28 || (p.Fn == "Int63n" || p.Fn == "Intn") && n > 1<<60 {
				c.NonTrivial()
			}
			_, restore := install(p.Seed, nil)
			defer restore()
			const draws = 40000
			iv, res := make([]int, p.M), make([]int, p.M)
			for i := 0; i < draws; i++ {
				v := call(p.Fn, n)
				if v >= n {
					return pbt.Errf("%s(%d) returned %d", p.Fn, n, v)
				}
				iv[v>>p.Pow]++
				res[v%uint64(p.M)]++
			}
			for what, counts := range map[string][]int{"interval": iv, "residue": res} {
				if x := chi2(counts, draws); tooFar(x, p.M-1) {
					return pbt.Errf("%s(%d) is not uniform over %d %ss: %v (chi-square %.1f)", p.Fn, n, p.M, what, counts, x)
				}
			}
			return nil
		},
	})
}

type permPlan struct {
	Fn   string
	N    int
	Seed uint64
}

func TestC20_Permutations(t *testing.T) {
	pbt.Check(t, pbt.Prop[permPlan]{
		Rule: "Perm and Shuffle of n elements from a uniform source: always a permutation, swaps only valid indices; for n up to 5 all n! results, for larger n all (element, position) pairs occur evenly over 24000 (6000) runs (chi-square, about 9 sigma); negative n panics; " +
			"non-trivial: n of at least 3",
		Cases: 60,
		Gen: func(t *rapid.T) permPlan {
			return permPlan{Fn: rapid.SampledFrom([]string{"Perm", "Shuffle"}).Draw(t, "fn"), N: rapid.SampledFrom([]int{-1, 0, 1, 2, 3, 4, 4, 5, 5, 8, 12, 33}).Draw(t, "n"), Seed: rapid.Uint64().Draw(t, "seed")}
		},
		Run: func(c *pbt.Ctx, p permPlan) error {
			_, restore := install(p.Seed, nil)
			defer restore()
			if p.N < 0 {
				for _, n := range []int{-1, math.MinInt} {
					if _, did := pbt.Panics(func() {
						if p.Fn == "Perm" {
							fastrand.Perm(n)
						} else {
							fastrand.Shuffle(n, func(i, j int) {})
						}
					}); !did {
						return pbt.Errf("%s(%d) does not panic", p.Fn, n)
					}
				}
				return nil
			}
			if p.N >= 3 {
				c.NonTrivial()
			}
			runs := 24000
			if p.N > 5 {
				runs = 6000
			}
			whole := map[string]int{}
			fact := 1
			for i := 2; i <= min(p.N, 5); i++ {
				fact *= i
			}
			place := make([][]int, p.N)
			for i := range place {
				place[i] = make([]int, p.N)
			}
			for r := 0; r < runs; r++ {
				var perm []int
				if p.Fn == "Perm" {
					perm = fastrand.Perm(p.N)
				} else {
					perm = make([]int, p.N)
					for i := range perm {
						perm[i] = i
					}
					var bad error
					fastrand.Shuffle(p.N, func(i, j int) {
						if i < 0 || j < 0 || i >= p.N || j >= p.N {
							bad = pbt.Errf("Shuffle(%d) swaps %d and %d", p.N, i, j)
							return
						}
						perm[i], perm[j] = perm[j], perm[i]
					})
					if bad != nil {
						return bad
					}
				}
				if len(perm) != p.N {
					return pbt.Errf("%s(%d) has %d elements", p.Fn, p.N, len(perm))
				}
				seen := make([]bool, p.N)
				for i, v := range perm {
					if v < 0 || v >= p.N || seen[v] {
						return pbt.Errf("%s(%d) = %v is not a permutation", p.Fn, p.N, perm)
					}
					seen[v] = true
					place[i][v]++
				}
				if p.N <= 5 {
					whole[fmt.Sprint(perm)]++
				}
			}
			if p.N >= 2 && p.N <= 5 {
				counts := make([]int, 0, fact)
				for _, n := range whole {
					counts = append(counts, n)
				}
				for len(counts) < fact {
					counts = append(counts, 0)
				}
				if x := chi2(counts, runs); tooFar(x, fact-1) {
					return pbt.Errf("%s(%d) is not uniform over the %d permutations: %v (chi-square %.1f)", p.Fn, p.N, fact, whole, x)
				}
			} else if p.N > 5 {
				for i := range place {
					if x := chi2(place[i], runs); tooFar(x, p.N-1) {
						return pbt.Errf("%s(%d): position %d is not uniform: %v (chi-square %.1f)", p.Fn, p.N, i, place[i], x)
					}
				}
			}
			return nil
		},
	})
}

type bytesPlan struct {
	Len  int
	Seed uint64
}

func TestC20_ReadUniform(t *testing.T) {
	pbt.Check(t, pbt.Prop[bytesPlan]{
		Rule:  "6000 fillings of a slice of 1..40 bytes from a uniform source: byte values fall evenly at every position (chi-square over 256 values) and no two positions are tied (equal about once in 256); non-trivial: length not a multiple of 8",
		Cases: 40,
		Gen: func(t *rapid.T) bytesPlan {
			return bytesPlan{rapid.SampledFrom([]int{1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 31, 40}).Draw(t, "len"), rapid.Uint64().Draw(t, "seed")}
		},
		Run: func(c *pbt.Ctx, p bytesPlan) error {
			if p.Len%8 != 0 {
				c.NonTrivial()
			}
			_, restore := install(p.Seed, nil)
			defer restore()
			const runs = 6000
			counts := make([][]int, p.Len)
			for i := range counts {
				counts[i] = make([]int, 256)
			}
			eq := make([]int, p.Len*p.Len)
			buf := make([]byte, p.Len)
			for r := 0; r < runs; r++ {
				for i := range buf {
					buf[i] = 0
				}
				if n, err := fastrand.Read(buf); n != p.Len || err != nil {
					return pbt.Errf("Read returned %d, %v", n, err)
				}
				for i, b := range buf {
					counts[i][b]++
					for j := 0; j < i; j++ {
						if buf[j] == b {
							eq[i*p.Len+j]++
						}
					}
				}
			}
			for i := range counts {
				if x := chi2(counts[i], runs); tooFar(x, 255) {
					return pbt.Errf("byte %d of %d is not uniform (chi-square %.1f over 256 values)", i, p.Len, x)
				}
				for j := 0; j < i; j++ {
					// expected 23.4, sigma 4.8
					if n := eq[i*p.Len+j]; n > 90 {
						return pbt.Errf("bytes %d and %d of %d were equal %d times in %d", j, i, p.Len, n, runs)
					}
				}
			}
			return nil
		},
	})
}

type hugePlan struct {
	N    int64
	Seed uint64
}

type enough struct{}

// The first swaps of a shuffle of more elements than any program holds: the
// swap function records its indices and leaves by a panic of its own.
func TestC20_HugeShuffle(t *testing.T) {
	pbt.Check(t, pbt.Prop[hugePlan]{
		Rule:  "the first 64 swaps of Shuffle for counts around 2^31, 2^32 and beyond, up to the largest int: indices valid, the first of each pair counting down from n-1, the second reaching both halves; non-trivial: n above 2^31-1",
		Cases: 300,
		Gen: func(t *rapid.T) hugePlan {
			p := hugePlan{Seed: rapid.Uint64().Draw(t, "seed")}
			switch rapid.IntRange(0, 3).Draw(t, "class") {
			case 0:
				p.N = 1<<31 + rapid.Int64Range(-70, 70).Draw(t, "d")
			case 1:
				p.N = 1<<32 + rapid.Int64Range(-70, 70).Draw(t, "d")
			case 2:
				p.N = math.MaxInt64 - rapid.Int64Range(0, 70).Draw(t, "d")
			default:
				p.N = rapid.Int64Range(1<<30, math.MaxInt64).Draw(t, "n")
			}
			if p.N > math.MaxInt { // of 32 bits
				p.N = math.MaxInt - p.N%(1<<30)
			}
			return p
		},
		Run: func(c *pbt.Ctx, p hugePlan) error {
			if p.N > math.MaxInt32 {
				c.NonTrivial()
			}
			_, restore := install(p.Seed, nil)
			defer restore()
			var bad error
			low, high, steps := false, false, 0
			touched := map[int]bool{}
			v, did := pbt.Panics(func() {
				fastrand.Shuffle(int(p.N), func(i, j int) {
					if i < 0 || j < 0 || int64(i) >= p.N || int64(j) >= p.N {
						bad = pbt.Errf("Shuffle(%d) swaps %d and %d", p.N, i, j)
						panic(enough{})
					}
					touched[i], touched[j] = true, true
					low = low || min(int64(i), int64(j)) < p.N/2
					high = high || min(int64(i), int64(j)) >= p.N/2
					if steps++; steps == 64 {
						panic(enough{})
					}
				})
			})
			if bad != nil {
				return bad
			}
			if _, mine := v.(enough); !did || !mine {
				return pbt.Errf("Shuffle(%d) ended after %d swaps (panic: %v)", p.N, steps, v)
			}
			if len(touched) < 64 {
				return pbt.Errf("Shuffle(%d): the first 64 swaps touch only %d elements", p.N, len(touched))
			}
			if !low || !high {
				return pbt.Errf("Shuffle(%d): 64 partners all in one half", p.N)
			}
			return nil
		},
	})
}

type bitPlan struct{ Round int }

// The source the package comes with, not a replaced one: nothing seeds it, so
// the thresholds leave no room for chance (10 sigma).
func TestC20_RealBits(t *testing.T) {
	pbt.Check(t, pbt.Prop[bitPlan]{
		Rule:  "4096 draws of every unbounded function and of the bounded ones with a power of two as bound, from the package's own source: every bit is set in about half of them (10 sigma), neighbouring bits and successive draws are not tied; non-trivial: every round",
		Cases: 12,
		Gen:   func(t *rapid.T) bitPlan { return bitPlan{rapid.IntRange(0, 1<<20).Draw(t, "round")} },
		Run: func(c *pbt.Ctx, p bitPlan) error {
			c.NonTrivial()
			for _, f := range []struct {
				name string
				bits int
				get  func() uint64
			}{
				{"Uint32", 32, func() uint64 { return uint64(fastrand.Uint32()) }},
				{"Uint64", 64, func() uint64 { return fastrand.Uint64() }},
				{"Uint", bits.UintSize, func() uint64 { return uint64(fastrand.Uint()) }},
				{"Int", bits.UintSize - 1, func() uint64 { return uint64(fastrand.Int()) }},
				{"Int31", 31, func() uint64 { return uint64(fastrand.Int31()) }},
				{"Int63", 63, func() uint64 { return uint64(fastrand.Int63()) }},
				{"Int31n(2^30)", 30, func() uint64 { return uint64(fastrand.Int31n(1 << 30)) }},
				{"Int63n(2^62)", 62, func() uint64 { return uint64(fastrand.Int63n(1 << 62)) }},
				{"Intn(2^20)", 20, func() uint64 { return uint64(fastrand.Intn(1 << 20)) }},
				{"Intn(2^62)", bits.UintSize - 2, func() uint64 { return uint64(fastrand.Intn(1 << (bits.UintSize - 2))) }},
				{"Uintn(2^63)", bits.UintSize - 1, func() uint64 { return uint64(fastrand.Uintn(1 << (bits.UintSize - 1))) }},
				{"Uint32n(2^31)", 31, func() uint64 { return uint64(fastrand.Uint32n(1 << 31)) }},
				{"Uint64n(2^63)", 63, func() uint64 { return fastrand.Uint64n(1 << 63) }},
				{"Float64", 53, func() uint64 { return uint64(fastrand.Float64() * (1 << 53)) }},
				{"Float32", 24, func() uint64 { return uint64(fastrand.Float32() * (1 << 24)) }},
			} {
				const draws = 4096 // sigma of a bit count: 32
				var set, tied, again [64]int
				prev := f.get()
				for i := 0; i < draws; i++ {
					v := f.get()
					if v>>(f.bits-1)>>1 != 0 {
						return pbt.Errf("%s returned %#x", f.name, v)
					}
					for b := 0; b < f.bits; b++ {
						set[b] += int(v >> b & 1)
						again[b] += int((v ^ prev) >> b & 1)
						if b > 0 {
							tied[b] += int((v>>b ^ v>>(b-1)) & 1)
						}
					}
					prev = v
				}
				for b := 0; b < f.bits; b++ {
					for what, n := range map[string]int{"set": set[b], "different from the last draw's": again[b]} {
						if n < draws/2-320 || n > draws/2+320 {
							return pbt.Errf("%s: bit %d is %s in %d of %d draws", f.name, b, what, n, draws)
						}
					}
					if n := tied[b]; b > 0 && (n < draws/2-320 || n > draws/2+320) {
						return pbt.Errf("%s: bits %d and %d differ in %d of %d draws", f.name, b-1, b, n, draws)
					}
				}
			}
			return nil
		},
	})
}
