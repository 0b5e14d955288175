package rnd

import (
	"encoding/binary"
	"math"
	"testing"

	"github.com/miniLCT/gosb/hack/fastrand"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

func TestC19_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[readPlan]{
		Rule:  "windows of 33 bytes to 512 kB at any alignment, as in the smaller test; non-trivial: a length that is not a multiple of 8 with bytes on both sides",
		Cases: 8,
		Gen: func(t *rapid.T) readPlan {
			return readPlan{Before: rapid.IntRange(0, 17).Draw(t, "before"), After: rapid.IntRange(0, 17).Draw(t, "after"), Len: pbt.Large(t, 512<<10, "len"), Seed: rapid.Uint64().Draw(t, "seed")}
		},
		Run: runRead,
	})
}

// far is whether x is further from mean than a uniform source plausibly gives.
func far(x, mean, variance float64) bool { return math.Abs(x-mean) > 9*math.Sqrt(variance)+3 }

func TestC20_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[permPlan]{
		Rule: "Perm, Shuffle and Read of 33 to 100000 elements (bytes: 512 kB) from a uniform source: a permutation, of which as many elements stay in place, move up, and come from each quarter to each quarter as chance gives (9 sigma); bytes even over their values, no two of their eight-byte words alike; " +
			"non-trivial: more than 1000",
		Cases: 40,
		Gen: func(t *rapid.T) permPlan {
			p := permPlan{Fn: rapid.SampledFrom([]string{"Perm", "Shuffle", "Read"}).Draw(t, "fn"), Seed: rapid.Uint64().Draw(t, "seed")}
			p.N = pbt.Large(t, map[string]int{"Perm": 100000, "Shuffle": 100000, "Read": 512 << 10}[p.Fn], "n")
			return p
		},
		Run: func(c *pbt.Ctx, p permPlan) error {
			_, restore := install(p.Seed, nil)
			defer restore()
			n := p.N
			if n > 1000 {
				c.NonTrivial()
			}
			c.Label(p.Fn)
			if p.Fn == "Read" {
				b := make([]byte, n)
				if k, err := fastrand.Read(b); k != n || err != nil {
					return pbt.Errf("Read of %d bytes returned %d, %v", n, k, err)
				}
				counts := make([]int, 256)
				for _, x := range b {
					counts[x]++
				}
				if x := chi2(counts, n); n > 2000 && tooFar(x, 255) {
					return pbt.Errf("the %d bytes of a Read are not even over their values (chi-square %.1f)", n, x)
				}
				seen := map[uint64]int{}
				for i := 0; i+8 <= n; i += 8 {
					w := binary.LittleEndian.Uint64(b[i:])
					if j, ok := seen[w]; ok {
						return pbt.Errf("Read of %d bytes: the 8 bytes at %d are those at %d again", n, i, j)
					}
					seen[w] = i
				}
				return nil
			}
			var perm []int
			if p.Fn == "Perm" {
				perm = fastrand.Perm(n)
			} else {
				perm = make([]int, n)
				for i := range perm {
					perm[i] = i
				}
				bad := false
				fastrand.Shuffle(n, func(i, j int) {
					if i < 0 || j < 0 || i >= n || j >= n {
						bad = true
						return
					}
					perm[i], perm[j] = perm[j], perm[i]
				})
				if bad {
					return pbt.Errf("Shuffle(%d) swaps elements that do not exist", n)
				}
			}
			if len(perm) != n {
				return pbt.Errf("%s(%d) has %d elements", p.Fn, n, len(perm))
			}
			seen := make([]bool, n)
			fixed, up := 0, 0
			var from [4][4]int
			for i, v := range perm {
				if v < 0 || v >= n || seen[v] {
					return pbt.Errf("%s(%d) is not a permutation: %d at %d", p.Fn, n, v, i)
				}
				seen[v] = true
				if v == i {
					fixed++
				}
				if i > 0 && v > perm[i-1] {
					up++
				}
				from[4*i/n][4*v/n]++
			}
			if fixed > 40 {
				return pbt.Errf("%s(%d) leaves %d elements in place", p.Fn, n, fixed)
			}
			if far(float64(up), float64(n-1)/2, float64(n+1)/12) { // Eulerian numbers
				return pbt.Errf("%s(%d): %d elements are greater than the one before", p.Fn, n, up)
			}
			for a := range 4 {
				for b := range 4 {
					if k := from[a][b]; far(float64(k), float64(n)/16, float64(n)/16) {
						return pbt.Errf("%s(%d): %d elements of quarter %d end in quarter %d", p.Fn, n, k, b, a)
					}
				}
			}
			return nil
		},
	})
}
