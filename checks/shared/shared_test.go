// Package shared decides what may be used from several goroutines at once
// although it has no lock: random functions, stateless helpers and queries.
// Its checks run under the race detector.
package shared

import (
	"bytes"
	"fmt"
	"math"
	"math/bits"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gmap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gring"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gset"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
	rbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"github.com/miniLCT/gosb/gogenerics/gnumerics"
	"github.com/miniLCT/gosb/hack/fastrand"
	"github.com/miniLCT/gosb/hack/unsafex"
	"github.com/miniLCT/gosb/library/cryptox"
	"github.com/miniLCT/gosb/library/password"
	"github.com/miniLCT/gosb/library/stringx"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// together runs f(0) .. f(n-1) in as many goroutines, started at once, and
// returns the first of their errors. A panic is an error.
func together(n int, f func(g int) error) error {
	errs := make([]error, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if v, panicked := pbt.Panics(func() { errs[g] = f(g) }); panicked {
				errs[g] = pbt.Errf("goroutine %d panicked: %v", g, v)
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

// ---- C42 random functions --------------------------------------------------

type rndCall struct {
	Fn  string
	N   int64
	Big int // the length of a long permutation or read, or 0
}

type rndPlan struct {
	Workers int
	Rounds  int
	Calls   []rndCall
}

var rndFns = []string{"Uint32", "Uint64", "Uint64", "Uint", "Int", "Int31", "Int63", "Int63n", "Int31n", "Intn", "Float64", "Float32", "Uintn", "Uint32n", "Uint64n", "Read", "Read", "Perm", "Shuffle"}

// word is v where an int is too wide for chance repetitions, else 0.
func word(v uint64) uint64 {
	if bits.UintSize < 64 {
		return 0
	}
	return v
}

// rndOne makes one call; wide is a value of 63 or more random bits, if it has one.
func rndOne(c rndCall) (wide uint64, read string, err error) {
	n := c.N
	long := int(n % 40)
	if c.Big > 0 {
		long = c.Big
	}
	in := func(v, n uint64) {
		if v >= n {
			err = pbt.Errf("%s(%d) = %d", c.Fn, n, v)
		}
	}
	switch c.Fn {
	case "Uint32":
		fastrand.Uint32()
	case "Uint64":
		wide = fastrand.Uint64()
	case "Uint":
		wide = word(uint64(fastrand.Uint()))
	case "Int":
		v := fastrand.Int()
		in(uint64(v), 1<<63)
		wide = word(uint64(v))
	case "Int31":
		in(uint64(fastrand.Int31()), 1<<31)
	case "Int63":
		v := fastrand.Int63()
		in(uint64(v), 1<<63)
		wide = uint64(v)
	case "Int63n":
		in(uint64(fastrand.Int63n(n)), uint64(n))
	case "Int31n":
		n = n%math.MaxInt32 + 1
		in(uint64(fastrand.Int31n(int32(n))), uint64(n))
	case "Intn":
		if n > math.MaxInt {
			n = n%math.MaxInt + 1
		}
		in(uint64(fastrand.Intn(int(n))), uint64(n))
	case "Float64":
		if v := fastrand.Float64(); !(v >= 0 && v < 1) {
			err = pbt.Errf("Float64() = %v", v)
		}
	case "Float32":
		if v := fastrand.Float32(); !(v >= 0 && v < 1) {
			err = pbt.Errf("Float32() = %v", v)
		}
	case "Uintn":
		if uint64(n) > math.MaxUint {
			n = n%math.MaxInt + 1
		}
		in(uint64(fastrand.Uintn(uint(n))), uint64(n))
	case "Uint32n":
		n = n%math.MaxUint32 + 1
		in(uint64(fastrand.Uint32n(uint32(n))), uint64(n))
	case "Uint64n":
		in(fastrand.Uint64n(uint64(n)), uint64(n))
	case "Read":
		b := make([]byte, n%100+int64(c.Big))
		if m, e := fastrand.Read(b); m != len(b) || e != nil {
			err = pbt.Errf("Read of %d bytes: %d %v", len(b), m, e)
		}
		if len(b) >= 16 {
			read = string(b[:16])
		}
	case "Perm":
		err = permutes("Perm", fastrand.Perm(long), long)
	case "Shuffle":
		p := make([]int, long)
		for i := range p {
			p[i] = i
		}
		fastrand.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
		err = permutes("Shuffle", p, long)
	}
	return
}

// permutes reports whether p is a permutation of 0 .. n-1.
func permutes(what string, p []int, n int) error {
	seen := make([]bool, n)
	for i, v := range p {
		if v < 0 || v >= n || seen[v] {
			return pbt.Errf("%s of %d numbers is no permutation: %d at index %d", what, n, v, i)
		}
		seen[v] = true
	}
	if len(p) != n {
		return pbt.Errf("%s of %d numbers gives %d", what, n, len(p))
	}
	return nil
}

func TestC42_Race(t *testing.T) {
	pbt.Check(t, pbt.Prop[rndPlan]{
		Rule:     "2 to 8 goroutines, each making the same up to 40 calls of all random functions (one in 30 of the permutations, shuffles and reads over 1000 to 3000 elements) up to 20 times at once, under the race detector: every result within its bounds, no 63-bit value twice (by chance: less than 1 in 10^9 runs), no 16 random bytes three times over in pairs; non-trivial: at least three goroutines and 100 calls each",
		Cases:    1500,
		NoShrink: true,
		Repeats:  50,
		Gen: func(t *rapid.T) rndPlan {
			p := rndPlan{Workers: rapid.IntRange(2, 8).Draw(t, "workers"), Rounds: rapid.SampledFrom([]int{1, 5, 20}).Draw(t, "rounds")}
			p.Calls = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) rndCall {
				c := rndCall{Fn: rapid.SampledFrom(rndFns).Draw(t, "fn")}
				c.N = rapid.OneOf(rapid.Int64Range(1, 100), rapid.Int64Range(1, math.MaxInt64), rapid.SampledFrom([]int64{1, 2, 1 << 31, 1<<31 - 1, 1<<31 + 1, 1 << 32, 1<<62 + 1, math.MaxInt64})).Draw(t, "n")
				if (c.Fn == "Perm" || c.Fn == "Shuffle" || c.Fn == "Read") && rapid.IntRange(0, 29).Draw(t, "long") == 29 {
					c.Big = rapid.IntRange(1000, 3000).Draw(t, "big")
				}
				return c
			}), 1, 40).Draw(t, "calls")
			return p
		},
		Run: func(c *pbt.Ctx, p rndPlan) error {
			if p.Workers >= 3 && p.Rounds*len(p.Calls) >= 100 {
				c.NonTrivial()
			}
			wide := make([][]uint64, p.Workers)
			reads := make([][]string, p.Workers)
			err := together(p.Workers, func(g int) error {
				for r := 0; r < p.Rounds; r++ {
					for _, call := range p.Calls {
						w, b, err := rndOne(call)
						if err != nil {
							return err
						}
						if w != 0 {
							wide[g] = append(wide[g], w)
						}
						if b != "" {
							reads[g] = append(reads[g], b)
						}
					}
				}
				return nil
			})
			if err != nil {
				return err
			}
			seen, twice := map[uint64]bool{}, 0
			for _, ws := range wide {
				for _, w := range ws {
					if seen[w] {
						return pbt.Errf("the value %d came twice", w)
					}
					seen[w] = true
				}
			}
			bytes := map[string]bool{}
			for _, rs := range reads {
				for _, r := range rs {
					if bytes[r] {
						twice++
					}
					bytes[r] = true
				}
			}
			if twice >= 3 {
				return pbt.Errf("%d of %d reads repeated the bytes of another", twice, len(bytes)+twice)
			}
			return nil
		},
	})
}

// ---- C43 stateless helpers ----------------------------------------------------

type helpArgs struct {
	S    [][]byte
	Key  [3][]byte
	Ints []int
	Cut  int
	M    map[int]int
	M2   map[int]int
}

type helpCall struct {
	Fn      string
	A, B, N int
}

type helpPlan struct {
	Workers int
	Rep     int // how often the texts and the list are repeated
	Args    helpArgs
	Calls   []helpCall
}

func sorted[T any](s []T) string {
	out := []string{}
	for _, v := range s {
		out = append(out, fmt.Sprint(v))
	}
	sort.Strings(out)
	return fmt.Sprint(out)
}

// scribble changes what the caller owns.
func scribble[T any](s []T) {
	var zero T
	s = s[:cap(s)]
	for i := range s {
		s[i] = zero
	}
}

func less(a, b int) bool { return a < b }

// helpers are the functions under test; each renders its result and then
// overwrites it where it is the caller's own.
var helpers = map[string]func(a *helpArgs, str []string, c helpCall) string{
	"Indent": func(a *helpArgs, s []string, c helpCall) string {
		return stringx.Indent(s[c.A], s[c.B][:min(len(s[c.B]), 1000)])
	},
	"Snake":  func(a *helpArgs, s []string, c helpCall) string { return stringx.SnakeString(s[c.A]) },
	"Camel":  func(a *helpArgs, s []string, c helpCall) string { return stringx.CamelString(s[c.A]) },
	"Lint":   func(a *helpArgs, s []string, c helpCall) string { return stringx.LintCamelString(s[c.A]) },
	"Entity": func(a *helpArgs, s []string, c helpCall) string { return stringx.HTMLEntityToUTF8(s[c.A], 2+c.N%35) },
	"CodePt": func(a *helpArgs, s []string, c helpCall) string { return stringx.CodePointToUTF8(s[c.A], 2+c.N%35) },
	"Spaces": func(a *helpArgs, s []string, c helpCall) string { return stringx.SpaceInOne(s[c.A]) },
	"JSON": func(a *helpArgs, s []string, c helpCall) string {
		b := stringx.StringMarshalJSON(s[c.A], c.N%2 == 0)
		out := string(b)
		scribble(b)
		return out
	},
	"Password": func(a *helpArgs, s []string, c helpCall) string {
		return fmt.Sprint(password.CheckPassword(s[c.A], password.Flag(c.N), c.B, c.N%30))
	},
	"Digests": func(a *helpArgs, s []string, c helpCall) string {
		b := a.S[c.A]
		return fmt.Sprint(cryptox.Md5(b), cryptox.Sha1(b), cryptox.Sha256(b), cryptox.Sha512(b), cryptox.Fnv1aToUint64(b), cryptox.Fnv1aToUint32(b))
	},
	"AES": func(a *helpArgs, s []string, c helpCall) string {
		key, b64 := a.Key[c.N%3], c.N%2 == 0
		e := cryptox.AESEncrypt(key, a.S[c.A], b64)
		out := string(e)
		d, err := cryptox.AESDecrypt(key, e, b64)
		out += fmt.Sprintf(" %q %v", d, err)
		scribble(e)
		scribble(d)
		return out
	},
	"CBC": func(a *helpArgs, s []string, c helpCall) string {
		key, b64 := a.Key[c.N%3], c.N%2 == 0
		e := cryptox.AESCBCEncrypt(key, a.S[c.A], b64)
		d, err := cryptox.AESCBCDecrypt(key, e, b64)
		out := fmt.Sprintf("%d %q %v", len(e), d, err)
		scribble(e)
		scribble(d)
		return out
	},
	"CTR": func(a *helpArgs, s []string, c helpCall) string {
		key, b64 := a.Key[c.N%3], c.N%2 == 0
		e := cryptox.AESCTREncrypt(key, a.S[c.A], b64)
		d, err := cryptox.AESCTRDecrypt(key, e, b64)
		out := fmt.Sprintf("%d %q %v", len(e), d, err)
		scribble(e)
		scribble(d)
		return out
	},
	"Decrypt": func(a *helpArgs, s []string, c helpCall) string { // what is no ciphertext
		key, b64 := a.Key[c.N%3], c.N%2 == 0
		d1, e1 := cryptox.AESDecrypt(key, a.S[c.A], b64)
		d2, e2 := cryptox.AESCBCDecrypt(key, a.S[c.A], b64)
		d3, e3 := cryptox.AESCTRDecrypt(key, a.S[c.A], b64)
		return fmt.Sprintf("%q %v %q %v %q %v", d1, e1 != nil, d2, e2 != nil, d3, e3 != nil)
	},
	"Unsafe": func(a *helpArgs, s []string, c helpCall) string {
		return strings.Clone(unsafex.SliceToString(a.S[c.A])) + string(bytes.Clone(unsafex.StringToSlice(s[c.B])))
	},
	"SliceCopy": func(a *helpArgs, s []string, c helpCall) string {
		r := gslice.Copy(a.Ints[:a.Cut])
		out := fmt.Sprint(r)
		scribble(r)
		return out
	},
	"SliceEqual": func(a *helpArgs, s []string, c helpCall) string {
		return fmt.Sprint(gslice.Equal(a.Ints, a.Ints[:a.Cut]), gslice.Equal(a.Ints[:a.Cut], a.Ints[:a.Cut]),
			gslice.EqualWithFunc(a.Ints[:a.Cut], a.Ints[:a.Cut], func(x, y int) bool { return x == y }))
	},
	"SliceIndex": func(a *helpArgs, s []string, c helpCall) string {
		is := func(x int) bool { return x == c.N }
		return fmt.Sprint(gslice.Index(a.Ints, c.N), gslice.IndexWithFunc(a.Ints, is), gslice.Contains(a.Ints, c.N), gslice.ContainsWithFunc(a.Ints, is), gslice.Len(a.Ints))
	},
	"SliceUnique": func(a *helpArgs, s []string, c helpCall) string {
		r, n := gslice.Unique(a.Ints[:a.Cut])
		q, m := gslice.UniqueWithFunc(a.Ints[:a.Cut], func(x int) int { return x / 2 })
		out := fmt.Sprint(r, n, q, m)
		scribble(r)
		scribble(q)
		return out
	},
	"SliceMerge": func(a *helpArgs, s []string, c helpCall) string {
		r := gslice.Merge(a.Ints[:a.Cut], a.Ints[a.Cut:])
		out := fmt.Sprint(r)
		scribble(r)
		return out
	},
	"SliceSorted": func(a *helpArgs, s []string, c helpCall) string {
		return fmt.Sprint(gslice.IsSorted(a.Ints[:a.Cut]), gslice.IsSortedFunc(a.Ints[a.Cut:], less))
	},
	"MapLists": func(a *helpArgs, s []string, c helpCall) string {
		ks, vs, es := gmap.Keys(a.M), gmap.Values(a.M), gmap.Map2Entries(a.M)
		out := sorted(ks) + sorted(vs) + sorted(es)
		back := gmap.Entries2Map(es)
		out += fmt.Sprint(gmap.Len(a.M), gmap.Equal(back, a.M))
		scribble(ks)
		scribble(vs)
		scribble(es)
		gmap.Clear(back)
		return out
	},
	"MapCopy": func(a *helpArgs, s []string, c helpCall) string {
		m := gmap.Copy(a.M)
		out := fmt.Sprint(m)
		m[c.N] = c.A
		gmap.Clear(m)
		return out
	},
	"MapEqual": func(a *helpArgs, s []string, c helpCall) string {
		return fmt.Sprint(gmap.Equal(a.M, a.M2), gmap.Equal(a.M2, a.M2), gmap.Contains(a.M, c.N),
			gmap.EqualWithFunc(a.M, a.M2, func(x, y int) bool { return x/4 == y/4 }))
	},
	"Extremes": func(a *helpArgs, s []string, c helpCall) string {
		return fmt.Sprint(gnumerics.MaxCollection(a.Ints), gnumerics.MinCollection(a.Ints), gnumerics.MaxBy(a.Ints, func(x, y int) bool { return x > y }),
			gnumerics.MinBy(a.Ints, less), gnumerics.Max(c.A, c.B), gnumerics.Min(c.A, c.N))
	},
	"Values": func(a *helpArgs, s []string, c helpCall) string {
		p := gconstraints.ToPtr(s[c.A])
		out := fmt.Sprint(gconstraints.ToValue(p), gconstraints.IsEmpty(s[c.A]), gconstraints.IsNotEmpty(s[c.B]), gconstraints.Empty[string]())
		*p = "mine"
		x, y := gconstraints.Pack(s[c.B], c.N).Unpack()
		return out + fmt.Sprint(x, y)
	},
}

func helperNames() (out []string) {
	for n := range helpers {
		out = append(out, n)
	}
	sort.Strings(out)
	return
}

func genHelp(t *rapid.T) helpPlan {
	toks := []string{"&#38;", "&#x26;", "&#", "\\u0041", "\\u", "HTTPServer", "userId", "user_id", "api_url", "ID", "_", "__", "  ", "\t\t", "\n", "\u00a0", "é", "İ", "<b>", "\"", "\\", "\xff", "\u2028", "Aa1!", "0", "deadbeef", "00112233445566778899aabbccddeeff", "AAECAwQFBgcICQoLDA0ODw"}
	p := helpPlan{Workers: rapid.IntRange(2, 5).Draw(t, "workers"), Rep: 1}
	if rapid.IntRange(0, 11).Draw(t, "long") == 11 {
		p.Rep = rapid.IntRange(20, 1000).Draw(t, "rep")
	}
	a := &p.Args
	for i := rapid.IntRange(1, 4).Draw(t, "strs"); i > 0; i-- {
		a.S = append(a.S, pbt.ByteString(t, 20, toks))
	}
	for i, n := range []int{16, 24, 32} {
		a.Key[i] = rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "key")
	}
	a.Ints = rapid.SliceOfN(rapid.IntRange(0, 12), 0, 40).Draw(t, "ints")
	if rapid.Bool().Draw(t, "sort") {
		sort.Ints(a.Ints)
	}
	a.Cut = rapid.IntRange(0, len(a.Ints)).Draw(t, "cut")
	a.M = rapid.MapOfN(rapid.IntRange(0, 12), rapid.IntRange(0, 12), 0, 10).Draw(t, "m")
	a.M2 = map[int]int{}
	for k, v := range a.M {
		a.M2[k] = v
	}
	if rapid.Bool().Draw(t, "edit") {
		a.M2[rapid.IntRange(0, 12).Draw(t, "k")] = rapid.IntRange(0, 12).Draw(t, "v")
	}
	names := helperNames()
	p.Calls = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) helpCall {
		return helpCall{Fn: rapid.SampledFrom(names).Draw(t, "fn"), A: rapid.IntRange(0, len(a.S)-1).Draw(t, "a"), B: rapid.IntRange(0, len(a.S)-1).Draw(t, "b"), N: rapid.IntRange(0, 255).Draw(t, "n")}
	}), 1, 40).Draw(t, "calls")
	return p
}

func TestC43_Race(t *testing.T) {
	warm := false
	pbt.Check(t, pbt.Prop[helpPlan]{
		Rule:     "2 to 5 goroutines, each making the same up to 40 calls of 23 groups of helpers at once (each starting at another of them) on the same arguments and overwriting the results it owns, under the race detector; one case in 12 repeats the texts up to 1000 times (30 kB) and the list up to 100 times, for 12 calls; each result is what the call gives alone; the first case of a process calls every helper; non-trivial: at least three goroutines and ten calls",
		Cases:    3000,
		NoShrink: true,
		Repeats:  50,
		Gen:      genHelp,
		Run: func(c *pbt.Ctx, p helpPlan) error {
			if p.Workers >= 3 && len(p.Calls) >= 10 {
				c.NonTrivial()
			}
			calls := p.Calls
			if !warm {
				for _, n := range helperNames() {
					calls = append(calls, helpCall{Fn: n, N: 7})
				}
				warm = true
			}
			a := &p.Args
			if p.Rep > 1 {
				n := len(a.Ints)
				a.S = append([][]byte(nil), a.S...)
				for i := range a.S {
					a.S[i] = bytes.Repeat(a.S[i], min(p.Rep, 30000/(len(a.S[i])+1)))
				}
				for i := 1; i < p.Rep/10; i++ {
					a.Ints = append(a.Ints, a.Ints[:n]...)
				}
				if len(calls) > 12 {
					calls = calls[len(calls)-12:]
				}
				c.Label("long")
			}
			strs := make([]string, len(a.S))
			for i, b := range a.S {
				strs[i] = string(b)
			}
			before := fmt.Sprintf("%q %v", strs, *a)
			got := make([][]string, p.Workers)
			err := together(p.Workers, func(g int) error {
				got[g] = make([]string, len(calls))
				for i := range calls {
					at := (i + g*len(calls)/p.Workers) % len(calls)
					got[g][at] = helpers[calls[at].Fn](a, strs, calls[at])
				}
				return nil
			})
			if err != nil {
				return err
			}
			for i, call := range calls {
				want := helpers[call.Fn](a, strs, call)
				for g := range got {
					if got[g][i] != want {
						return pbt.Errf("call %d %+v gave %s in goroutine %d of %d, alone it gives %s", i, call, pbt.Str(got[g][i]), g, p.Workers, pbt.Str(want))
					}
				}
			}
			if after := fmt.Sprintf("%q %v", strs, *a); after != before {
				return pbt.Errf("the arguments changed: %s, before %s", pbt.Str(after), pbt.Str(before))
			}
			return nil
		},
	})
}

// ---- C44 queries ----------------------------------------------------------------

type boxOp struct {
	Del bool
	K   int
}

type query struct {
	Q    string
	A, B int
	I, J bool
}

type boxPlan struct {
	Kind    string
	Seed    int64
	Fill    int // elements inserted first
	Ops     []boxOp
	Workers [][]query
}

// a box holds a container built from a plan and answers queries.
type box interface{ ask(q query) string }

type treeBox struct{ t *rbt.RbTree[int, string] }

func (b treeBox) ask(q query) string {
	derived := func(s *rbt.RbTree[int, string]) string {
		out := fmt.Sprint(s.Keys(), s.Values(), s.Len())
		for _, k := range s.Keys() { // it is the caller's own
			if k%2 == 0 {
				s.Delete(k)
			} else {
				s.Update(k, "mine")
				s.Insert(k+100, "new")
			}
		}
		out += fmt.Sprint(s.Keys())
		s.Clear()
		return out
	}
	switch q.Q {
	case "has":
		return fmt.Sprint(b.t.Search(q.A), b.t.Get(q.A))
	case "if":
		r := b.t.GetIf(func(k int) bool { return k%3 == q.A%3 })
		out := fmt.Sprint(r)
		scribble(r)
		return out
	case "all":
		k, v, n := b.t.Keys(), b.t.Values(), b.t.Nodes()
		out := fmt.Sprint(k, v, n)
		scribble(k)
		scribble(v)
		scribble(n)
		return out
	case "size":
		return fmt.Sprint(b.t.Len(), b.t.Empty(), b.t.String())
	case "cut":
		return derived(b.t.SubTree(min(q.A, q.B), q.I, max(q.A, q.B)+1, q.J))
	case "left":
		return derived(b.t.LeftSubTree(q.A, q.I))
	default:
		return derived(b.t.RightSubTree(q.A, q.I))
	}
}

type skipBox struct {
	l *gskiplist.SkipList[int, string]
}

func (b skipBox) ask(q query) string {
	walk := func(e *gskiplist.SkipListElement[int, string], n int, step func(*gskiplist.SkipListElement[int, string]) *gskiplist.SkipListElement[int, string]) (out string) {
		for ; n > 0 && e != nil; n-- {
			out += e.GetValue() + " "
			e = step(e)
		}
		return
	}
	switch q.Q {
	case "has", "if":
		v, ok := b.l.Find(q.A)
		return fmt.Sprint(v, ok)
	case "all":
		return walk(b.l.GetSmallestNode(), b.l.GetNodeCount()+1, b.l.Next)
	case "size":
		return fmt.Sprint(b.l.GetNodeCount(), b.l.IsEmpty(), b.l.String())
	case "cut":
		return walk(b.l.GetLargestNode(), b.l.GetNodeCount()+1, b.l.Prev)
	default:
		e, ok := b.l.FindGreaterOrEqual(q.A)
		return fmt.Sprint(ok) + walk(e, q.B, b.l.Next)
	}
}

type listBox struct {
	l *glist.List[int]
	e []*glist.Element[int]
}

func (b listBox) ask(q query) string {
	out := ""
	switch q.Q {
	case "has", "if":
		if len(b.e) > 0 {
			e := b.e[q.A%len(b.e)]
			out += fmt.Sprint(e.Value)
			if n := e.Next(); n != nil {
				out += fmt.Sprint(" next ", n.Value)
			}
			if n := e.Prev(); n != nil {
				out += fmt.Sprint(" prev ", n.Value)
			}
		}
	case "size":
		out = fmt.Sprint(b.l.Len())
	case "all":
		b.l.Range(func(e *glist.Element[int]) { out += fmt.Sprint(e.Value, " ") })
	case "cut":
		for e := b.l.Back(); e != nil; e = e.Prev() {
			out += fmt.Sprint(e.Value, " ")
		}
	default:
		own := glist.New[int]()
		own.PushBack(-1)
		if q.I {
			own.PushBackList(b.l)
		} else {
			own.PushFrontList(b.l)
		}
		for e := own.Front(); e != nil; e = own.Front() {
			out += fmt.Sprint(own.Remove(e), " ")
		}
	}
	return out
}

type ringBox struct{ r *gring.Ring[int] }

func (b ringBox) ask(q query) string {
	out := ""
	at := b.r.Move(q.A - q.B)
	switch q.Q {
	case "size":
		out = fmt.Sprint(at.Len())
	case "all", "cut":
		at.Do(func(v any) { out += fmt.Sprint(v, " ") })
	default:
		for i := 0; i < q.B; i++ {
			out += fmt.Sprint(at.Value, " ")
			if q.I {
				at = at.Next()
			} else {
				at = at.Prev()
			}
		}
	}
	return out
}

type setBox struct{ s gset.Set[int] }

func (b setBox) ask(q query) string {
	switch q.Q {
	case "has", "if", "left":
		return fmt.Sprint(gset.Contains(b.s, q.A))
	case "size":
		return fmt.Sprint(gset.Len(b.s))
	default:
		r := gset.Items(b.s)
		out := sorted(r)
		scribble(r)
		return out
	}
}

type queueBox struct{ q *gqueue.Queue[int] }

func (b queueBox) ask(q query) string {
	switch q.Q {
	case "has", "if", "left":
		v, err := gqueue.Peek(b.q)
		return fmt.Sprint(v, err)
	case "size":
		return fmt.Sprint(b.q.Len(), gqueue.IsEmpty(b.q))
	case "cut":
		r := gqueue.PeekAll(b.q)
		own := gqueue.Gen(r)
		out := fmt.Sprint(own.Len())
		for v, err := own.Pop(); err == nil; v, err = own.Pop() {
			out += fmt.Sprint(" ", v)
		}
		return out
	default:
		r := gqueue.PeekAll(b.q)
		out := fmt.Sprint(r)
		scribble(r)
		return out
	}
}

func build(p boxPlan) box {
	if p.Fill > 0 {
		ops := make([]boxOp, 0, p.Fill+len(p.Ops))
		for i := 0; i < p.Fill; i++ {
			ops = append(ops, boxOp{K: 41 + i/2})
			if i%2 == 1 {
				ops[i].K = -i
			}
		}
		p.Ops, p.Fill = append(ops, p.Ops...), 0
	}
	switch p.Kind {
	case "tree":
		t := rbt.New[int, string](less)
		for _, o := range p.Ops {
			if o.Del {
				t.Delete(o.K)
			} else {
				t.Insert(o.K, fmt.Sprint("v", o.K))
			}
		}
		return treeBox{t}
	case "skip":
		l := gskiplist.New[int, string]()
		for _, o := range p.Ops {
			if o.Del {
				l.Delete(o.K)
			} else {
				l.Insert(o.K, fmt.Sprint("v", o.K))
			}
		}
		return skipBox{l}
	case "list", "zero list":
		b := listBox{l: glist.New[int]()}
		if p.Kind == "zero list" {
			b.l = new(glist.List[int])
		}
		rnd := rand.New(rand.NewSource(p.Seed))
		for _, o := range p.Ops {
			n := len(b.e)
			switch {
			case o.Del && n > 0:
				i := o.K % n
				b.l.Remove(b.e[i])
				b.e = append(b.e[:i:i], b.e[i+1:]...)
			case n > 0 && rnd.Intn(2) == 0:
				b.e = append(b.e, b.l.InsertBefore(o.K, b.e[rnd.Intn(n)]))
			default:
				b.e = append(b.e, b.l.PushBack(o.K))
			}
		}
		return b
	case "ring":
		n := 1 + len(p.Ops)%40
		if len(p.Ops) >= 500 {
			n = len(p.Ops)
		}
		r := gring.New[int](n)
		for i, n := 0, r.Len(); i < n; i++ {
			r.Value = i
			r = r.Next()
		}
		for _, o := range p.Ops {
			if o.Del && o.K%7 == 0 && r.Len() > 2 {
				r.Unlink(1)
			}
		}
		return ringBox{r}
	case "set":
		s := gset.NewSet[int]()
		for _, o := range p.Ops {
			if o.Del {
				gset.Remove(s, o.K)
			} else {
				gset.Add(s, o.K)
			}
		}
		return setBox{s}
	default:
		q := gqueue.New[int]()
		for _, o := range p.Ops {
			if o.Del {
				_, _ = q.Pop()
			} else {
				_ = q.Push(o.K)
			}
		}
		return queueBox{q}
	}
}

func TestC44_Race(t *testing.T) {
	kinds := []string{"tree", "tree", "tree", "skip", "skip", "list", "zero list", "ring", "set", "queue"}
	pbt.Check(t, pbt.Prop[boxPlan]{
		Rule:     "a red-black tree, skip list, list, ring, set or queue built by up to 60 inserts and deletes, in one case of 10 after 500 to 1200 more inserts; then 2 to 4 goroutines ask up to 12 queries each at once, changing the sub-trees, lists and slices they derive from it, under the race detector; each answer is that of an equal container asked alone, and so are the answers to all queries afterwards; non-trivial: at least ten inserts and six queries",
		Cases:    4000,
		NoShrink: true,
		Repeats:  50,
		Gen: func(t *rapid.T) boxPlan {
			p := boxPlan{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Seed: rapid.Int64Range(0, 1<<30).Draw(t, "seed")}
			if rapid.IntRange(0, 9).Draw(t, "large") == 9 {
				p.Fill = rapid.IntRange(500, 1200).Draw(t, "fill")
			}
			p.Ops = pbt.Ops(t, 60, func(t *rapid.T) boxOp {
				return boxOp{Del: rapid.IntRange(0, 3).Draw(t, "del") == 0, K: rapid.IntRange(0, 40).Draw(t, "k")}
			})
			for w := rapid.IntRange(2, 4).Draw(t, "workers"); w > 0; w-- {
				p.Workers = append(p.Workers, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) query {
					return query{Q: rapid.SampledFrom([]string{"has", "if", "all", "size", "cut", "left", "right"}).Draw(t, "q"), A: rapid.IntRange(0, 41).Draw(t, "a"), B: rapid.IntRange(0, 41).Draw(t, "b"), I: rapid.Bool().Draw(t, "i"), J: rapid.Bool().Draw(t, "j")}
				}), 1, 12).Draw(t, "queries"))
			}
			return p
		},
		Run: func(c *pbt.Ctx, p boxPlan) error {
			c.Label(p.Kind)
			c.LabelIf(p.Fill > 0, "large "+p.Kind)
			b, twin := build(p), build(p)
			if p.Kind == "skip" { // its rendering shows the levels drawn
				twin = b
			}
			inserts, asked := 0, 0
			for _, o := range p.Ops {
				if !o.Del {
					inserts++
				}
			}
			got := make([][]string, len(p.Workers))
			err := together(len(p.Workers), func(g int) error {
				for _, q := range p.Workers[g] {
					got[g] = append(got[g], b.ask(q))
				}
				return nil
			})
			if err != nil {
				return err
			}
			for g, qs := range p.Workers {
				for i, q := range qs {
					asked++
					want, later := twin.ask(q), b.ask(q)
					if got[g][i] != want {
						return pbt.Errf("%s: goroutine %d, query %d %+v: %s, alone %s", p.Kind, g, i, q, pbt.Str(got[g][i]), pbt.Str(want))
					}
					if later != want {
						return pbt.Errf("%s: asked %+v again: %s, want %s", p.Kind, q, pbt.Str(later), pbt.Str(want))
					}
				}
			}
			if inserts >= 10 && asked >= 6 {
				c.NonTrivial()
			}
			return nil
		},
	})
}
