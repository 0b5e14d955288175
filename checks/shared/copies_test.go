package shared

import (
	"math"
	"math/bits"
	"testing"

	"github.com/miniLCT/gosb/hack/fastrand"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// draws are random functions whose results have so many random bits.
var draws = map[string]struct {
	bits float64
	f    func() uint64
}{
	"Uint32":  {32, func() uint64 { return uint64(fastrand.Uint32()) }},
	"Uint64":  {64, func() uint64 { return fastrand.Uint64() }},
	"Uint":    {32, func() uint64 { return uint64(fastrand.Uint()) }},
	"Int":     {63, func() uint64 { return uint64(fastrand.Int()) }},
	"Int31":   {31, func() uint64 { return uint64(fastrand.Int31()) }},
	"Int63":   {63, func() uint64 { return uint64(fastrand.Int63()) }},
	"Int31n":  {31, func() uint64 { return uint64(fastrand.Int31n(math.MaxInt32)) }},
	"Int63n":  {62, func() uint64 { return uint64(fastrand.Int63n(1<<62 + 1)) }},
	"Int63n2": {40, func() uint64 { return uint64(fastrand.Int63n(1 << 40)) }},
	"Intn":    {31, func() uint64 { return uint64(fastrand.Intn(math.MaxInt32)) }},
	"Intn2":   {bits.UintSize - 4, func() uint64 { return uint64(fastrand.Intn(1 << (bits.UintSize - 4))) }},
	"Uint32n": {32, func() uint64 { return uint64(fastrand.Uint32n(math.MaxUint32)) }},
	"Uintn":   {31, func() uint64 { return uint64(fastrand.Uintn(math.MaxUint32)) }},
	"Uint64n": {62, func() uint64 { return fastrand.Uint64n(1<<63 + 1) }},
	"Float64": {53, func() uint64 { return math.Float64bits(fastrand.Float64()) }},
	"Float32": {24, func() uint64 { return uint64(math.Float32bits(fastrand.Float32())) }},
	"Read": {32, func() uint64 { // its seed has 32 bits
		var b [16]byte
		_, _ = fastrand.Read(b[:])
		v := uint64(0)
		for i, x := range b {
			v ^= uint64(x) << (8 * (i % 8))
		}
		return v
	}},
	"Shuffle": {60, func() uint64 { // of as many as make 60 bits
		var p [20]uint64
		for i := range p {
			p[i] = uint64(i)
		}
		fastrand.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
		h := uint64(0)
		for _, x := range p {
			h = h*0x9E3779B97F4A7C15 + x
		}
		return h
	}},
	"Perm": {60, func() uint64 {
		h := uint64(0)
		for _, x := range fastrand.Perm(20) {
			h = h*0x9E3779B97F4A7C15 + uint64(x)
		}
		return h
	}},
}

type copyPlan struct {
	Fns     []string // of the goroutines, in turn; they give words of the same width
	Workers int
	Each    int
}

func drawNames() (out []string) {
	for _, n := range []string{"Uint32", "Uint64", "Uint", "Int", "Int31", "Int63", "Int31n", "Int63n", "Int63n2", "Intn", "Intn2", "Uint32n", "Uintn", "Uint64n", "Float64", "Float32", "Read", "Shuffle", "Perm"} {
		if _, ok := draws[n]; ok {
			out = append(out, n)
		}
	}
	return
}

func TestC42_Copies(t *testing.T) {
	pbt.Check(t, pbt.Prop[copyPlan]{
		Rule: "2 to 8 goroutines that draw up to 20000 values each from one random function at once; no more values come twice than chance explains (by chance: less than 1 in 10^9 cases); " +
			"non-trivial: at least four goroutines and 20000 values of 31 bits or more",
		Cases:    800,
		NoShrink: true,
		Repeats:  30,
		Gen: func(t *rapid.T) copyPlan {
			return copyPlan{Fns: []string{rapid.SampledFrom(drawNames()).Draw(t, "fn")}, Workers: rapid.IntRange(2, 8).Draw(t, "workers"), Each: rapid.SampledFrom([]int{20, 500, 5000, 20000, 20000}).Draw(t, "each")}
		},
		Run: func(c *pbt.Ctx, p copyPlan) error {
			d := draws[p.Fns[0]]
			got := make([][]uint64, p.Workers)
			err := together(p.Workers, func(g int) error {
				vs := make([]uint64, p.Each)
				for i := range vs {
					vs[i] = d.f()
				}
				got[g] = vs
				return nil
			})
			if err != nil {
				return err
			}
			n := p.Workers * p.Each
			seen := make(map[uint64]struct{}, n)
			for _, vs := range got {
				for _, v := range vs {
					seen[v] = struct{}{}
				}
			}
			// pairs that are equal by chance; a binomial number close to Poisson
			mean := float64(n) * float64(n) / 2 / math.Exp2(d.bits)
			if most := mean + 8*math.Sqrt(mean) + 12; float64(n-len(seen)) > most {
				return pbt.Errf("%s: of %d values that %d goroutines drew %d came before, by chance it would be %.1f", p.Fns[0], n, p.Workers, n-len(seen), mean)
			}
			c.Label(p.Fns[0])
			if p.Workers >= 4 && n >= 20000 && d.bits >= 31 {
				c.NonTrivial()
			}
			return nil
		},
	})
}
