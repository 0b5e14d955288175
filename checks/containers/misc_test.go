package containers

import (
	"bytes"
	"math"
	"testing"
	"time"
	"unsafe"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gpool"
	"github.com/miniLCT/gosb/gogenerics/gnumerics"
	"github.com/miniLCT/gosb/hack/unsafex"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

type numPlan struct {
	Ints   []int64
	Us     []uint8
	Floats []uint64 // bit patterns, NaN replaced
	Strs   [][]byte
	Mod    int64
}

type tagged struct {
	V   int64
	Pos int
}

func extremum[T gconstraints.Ordered](what string, l []T) error {
	in := append([]T{}, l...)
	var zero T
	mx, mn := gnumerics.MaxCollection(l), gnumerics.MinCollection(l)
	if len(l) == 0 {
		if mx != zero || mn != zero {
			return pbt.Errf("%s: extremum of an empty collection is %v/%v", what, mx, mn)
		}
		return nil
	}
	hasMx, hasMn := false, false
	for _, v := range l {
		hasMx, hasMn = hasMx || v == mx, hasMn || v == mn
		if v > mx || v < mn {
			return pbt.Errf("%s: max %v min %v of %v", what, mx, mn, l)
		}
	}
	if !hasMx || !hasMn {
		return pbt.Errf("%s: max %v or min %v is not in %v", what, mx, mn, l)
	}
	for i := range in {
		if in[i] != l[i] {
			return pbt.Errf("%s: the input was modified", what)
		}
	}
	for i := 1; i < len(l); i++ {
		a, b := l[i-1], l[i]
		x, n := gnumerics.Max(a, b), gnumerics.Min(a, b)
		if x < a || x < b || (x != a && x != b) || n > a || n > b || (n != a && n != b) {
			return pbt.Errf("%s: Max(%v,%v)=%v Min=%v", what, a, b, x, n)
		}
	}
	return nil
}

func TestC17_Numerics(t *testing.T) {
	edge := []int64{math.MinInt64, math.MinInt64 + 1, -1, 0, 1, math.MaxInt64 - 1, math.MaxInt64}
	pbt.Check(t, pbt.Prop[numPlan]{
		Rule:  "collections (0-30) of int64 (incl. extremes), uint8, non-NaN float64 (incl. infinities and both zeros) and strings; non-trivial: at least 3 integers with a repeated value modulo the comparison key",
		Cases: 10000,
		Gen: func(t *rapid.T) numPlan {
			n := pbt.Size(t, 30, "n")
			i64 := rapid.OneOf(rapid.SampledFrom(edge), rapid.Int64(), rapid.Int64Range(-5, 5), rapid.Int64Range(-5, 5))
			return numPlan{
				Ints:   rapid.SliceOfN(i64, n, n).Draw(t, "ints"),
				Us:     rapid.SliceOfN(rapid.Uint8(), 0, 10).Draw(t, "us"),
				Floats: rapid.SliceOfN(rapid.Map(rapid.Float64(), math.Float64bits), 0, 10).Draw(t, "floats"),
				Strs:   rapid.SliceOfN(rapid.SliceOfN(rapid.Byte(), 0, 4), 0, 10).Draw(t, "strs"),
				Mod:    rapid.Int64Range(1, 5).Draw(t, "mod"),
			}
		},
		Run: func(c *pbt.Ctx, p numPlan) error {
			if err := extremum("int64", p.Ints); err != nil {
				return err
			}
			if err := extremum("uint8", p.Us); err != nil {
				return err
			}
			fl := make([]float64, 0, len(p.Floats))
			for _, b := range p.Floats {
				f := math.Float64frombits(b)
				if f != f {
					f = math.Inf(1)
				}
				fl = append(fl, f)
			}
			if err := extremum("float64", fl); err != nil {
				return err
			}
			ss := make([]string, 0, len(p.Strs))
			for _, b := range p.Strs {
				ss = append(ss, string(b))
			}
			if err := extremum("string", ss); err != nil {
				return err
			}
			// comparison-driven: first among equivalents
			l := make([]tagged, len(p.Ints))
			key := func(v int64) int64 { return v % p.Mod }
			dup := map[int64]bool{}
			rep := false
			for i, v := range p.Ints {
				l[i] = tagged{v, i}
				rep = rep || dup[key(v)]
				dup[key(v)] = true
			}
			if len(l) >= 3 && rep {
				c.NonTrivial()
			}
			in := append([]tagged{}, l...)
			gotMax := gnumerics.MaxBy(l, func(a, b tagged) bool { return key(a.V) > key(b.V) })
			gotMin := gnumerics.MinBy(l, func(a, b tagged) bool { return key(a.V) < key(b.V) })
			var wantMax, wantMin tagged
			for i, e := range l {
				if i == 0 || key(e.V) > key(wantMax.V) {
					wantMax = e
				}
				if i == 0 || key(e.V) < key(wantMin.V) {
					wantMin = e
				}
			}
			if gotMax != wantMax {
				return pbt.Errf("MaxBy(%v, mod %d) = %v, want %v", l, p.Mod, gotMax, wantMax)
			}
			if gotMin != wantMin {
				return pbt.Errf("MinBy(%v, mod %d) = %v, want %v", l, p.Mod, gotMin, wantMin)
			}
			return eqSlice(l, in)
		},
	})
}

type poolPlan struct {
	Size uint
	Ops  []int // 0,1: get; n>=2: put back the n-th held value; -1 use the array pool
}

func TestC18_Pool(t *testing.T) {
	pbt.Check(t, pbt.Prop[poolPlan]{
		Rule:  "random get/put sequences (up to 80) on a typed pool and an array pool; non-trivial: at least one get after a put",
		Cases: 3000,
		Gen: func(t *rapid.T) poolPlan {
			return poolPlan{Size: uint(rapid.IntRange(0, 20).Draw(t, "size")),
				Ops: pbt.Ops(t, 80, func(t *rapid.T) int { return rapid.IntRange(0, 12).Draw(t, "op") })}
		},
		Run: func(c *pbt.Ctx, p poolPlan) error {
			type obj struct{ id int }
			made := 0
			created := map[*obj]bool{}
			pool := gpool.New(func() *obj {
				made++
				o := &obj{made}
				created[o] = true
				return o
			})
			arr := gpool.NewArrayPool[int](p.Size)
			var held []*obj
			var heldA [][]int
			in := map[*obj]bool{}
			inA := map[*int]int{} // first element address -> length, for slices put back
			put := false
			for _, op := range p.Ops {
				switch {
				case op < 6:
					m := made
					o := pool.Get()
					if o == nil || !created[o] {
						return pbt.Errf("Get returned a value the constructor never made")
					}
					for _, h := range held {
						if h == o {
							return pbt.Errf("Get handed out a value that is still held")
						}
					}
					if !in[o] && made != m+1 {
						return pbt.Errf("Get returned a value that was neither new nor put back")
					}
					if put {
						c.NonTrivial()
					}
					delete(in, o)
					held = append(held, o)

					s := arr.Get()
					if cap(s) > 0 {
						key := &s[:1][0]
						for _, h := range heldA {
							if cap(h) > 0 && &h[:1][0] == key {
								return pbt.Errf("array pool handed out a slice that is still held")
							}
						}
						if n, ok := inA[key]; ok {
							if n != len(s) {
								return pbt.Errf("array pool changed the length of a returned slice")
							}
							delete(inA, key)
						} else if len(s) != 0 || cap(s) != int(p.Size) {
							return pbt.Errf("array pool made a slice of len %d cap %d, want 0, %d", len(s), cap(s), p.Size)
						}
					} else if p.Size != 0 || s == nil {
						return pbt.Errf("array pool made a slice of capacity 0 (nil %v), want %d", s == nil, p.Size)
					}
					heldA = append(heldA, s)
				case len(held) > 0:
					i := (op - 6) % len(held)
					o := held[i]
					held = append(held[:i], held[i+1:]...)
					in[o] = true
					pool.Put(o)
					put = true
					s := heldA[i]
					heldA = append(heldA[:i], heldA[i+1:]...)
					if cap(s) > 0 {
						s = s[:op%(cap(s)+1)]
						inA[&s[:1][0]] = len(s)
					}
					arr.Put(s)
				}
			}
			return nil
		},
	})
}

type bytesPlan struct {
	Data   []byte
	Rep    int
	Lo, Hi int
	Nil    bool
}

func TestC21_Unsafe(t *testing.T) {
	pbt.Check(t, pbt.Prop[bytesPlan]{
		Rule:  "arbitrary byte strings (0-300, now and then up to 1.2 M bytes, invalid UTF-8 included), sub-sliced at any bounds; non-trivial: a proper non-empty sub-slice",
		Cases: 20000,
		Gen: func(t *rapid.T) bytesPlan {
			n := pbt.Size(t, 300, "n")
			d := rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "data")
			rep := 1
			if rapid.IntRange(0, 199).Draw(t, "big") == 0 {
				rep = rapid.SampledFrom([]int{2, 30, 300, 4000}).Draw(t, "rep")
				n *= rep
			}
			lo := rapid.IntRange(0, n).Draw(t, "lo")
			return bytesPlan{Data: d, Rep: rep, Lo: lo, Hi: rapid.IntRange(lo, n).Draw(t, "hi"), Nil: rapid.IntRange(0, 30).Draw(t, "nil") == 0}
		},
		Run: func(c *pbt.Ctx, p bytesPlan) error {
			data := bytes.Repeat(p.Data, p.Rep)
			orig := string(data)
			b := data[p.Lo:p.Hi]
			if p.Nil {
				b = nil
			}
			want := string(b)
			if len(b) > 0 && len(b) < len(data) {
				c.NonTrivial()
			}
			s := unsafex.SliceToString(b)
			if s != want || len(s) != len(b) {
				return pbt.Errf("SliceToString(%.300q) = %.300q", want, s)
			}
			if len(b) > 0 && unsafe.StringData(s) != &b[0] {
				return pbt.Errf("SliceToString copied the data")
			}
			str := orig[p.Lo:p.Hi]
			r := unsafex.StringToSlice(str)
			if string(r) != str || len(r) != len(str) {
				return pbt.Errf("StringToSlice(%.300q) = %.300q", str, r)
			}
			if len(str) > 0 {
				if cap(r) != len(str) {
					return pbt.Errf("StringToSlice(%d bytes) has capacity %d", len(str), cap(r))
				}
				if &r[0] != unsafe.StringData(str) {
					return pbt.Errf("StringToSlice copied the data")
				}
			} else if cap(r) != 0 {
				return pbt.Errf("StringToSlice of an empty string has capacity %d", cap(r))
			}
			if unsafex.SliceToString(unsafex.StringToSlice(str)) != str {
				return pbt.Errf("round trip changed %.300q", str)
			}
			if got := unsafex.StringToSlice(unsafex.SliceToString(b)); string(got) != want {
				return pbt.Errf("round trip changed %.300q", want)
			}
			if string(data) != orig {
				return pbt.Errf("the data was modified")
			}
			return nil
		},
	})
}

type cmpS struct {
	A int8
	B string
	C [2]bool
	P *int
}

type (
	octet uint8
	label string
)

type helperPlan struct {
	I  int64
	F  uint64
	S  []byte
	B  bool
	A  int8
	C  [2]bool
	PP bool
	If int
}

func helpers[T comparable](what string, v T, isZero bool, sized bool) error {
	if got := gconstraints.IsEmpty(v); got != isZero {
		return pbt.Errf("%s: IsEmpty(%v) = %v", what, v, got)
	}
	if got := gconstraints.IsNotEmpty(v); got != !isZero {
		return pbt.Errf("%s: IsNotEmpty(%v) = %v", what, v, got)
	}
	p, q := gconstraints.ToPtr(v), gconstraints.ToPtr(v)
	if p == nil || q == nil || (sized && p == q) {
		return pbt.Errf("%s: ToPtr gives nil or shared pointers", what)
	}
	if v == v {
		if *p != v || gconstraints.ToValue(p) != v {
			return pbt.Errf("%s: ToValue(ToPtr(%v)) = %v", what, v, gconstraints.ToValue(p))
		}
		var zero T
		if sized {
			*p = zero
			if *q != v {
				return pbt.Errf("%s: pointers share storage", what)
			}
			if r := gconstraints.ToPtr(v); r == p || *r != v {
				return pbt.Errf("%s: a new pointer shares storage with an earlier one", what)
			}
		}
		if gconstraints.Empty[T]() != zero || gconstraints.ToValue[T](nil) != zero {
			return pbt.Errf("%s: Empty is not the zero value", what)
		}
		k, w := gconstraints.Pack(v, what).Unpack()
		if k != v || w != what {
			return pbt.Errf("%s: Pack/Unpack gives %v %v", what, k, w)
		}
		w2, k2 := gconstraints.Pack(what, v).Unpack()
		if k2 != v || w2 != what {
			return pbt.Errf("%s: Pack/Unpack gives %v %v", what, w2, k2)
		}
	}
	return nil
}

func TestC40_Helpers(t *testing.T) {
	pbt.Check(t, pbt.Prop[helperPlan]{
		Rule:  "random int64, float64 bit patterns, strings, bools, structs with pointers and arrays, large arrays and structs, empty parts of texts, and interface values (nil, typed zero, non-zero); non-trivial: the struct is neither all-zero nor all-set",
		Cases: 10000,
		Gen: func(t *rapid.T) helperPlan {
			return helperPlan{
				I: rapid.OneOf(rapid.Int64Range(-1, 1), rapid.Int64Range(-128, 300), rapid.Int64()).Draw(t, "i"),
				F: rapid.OneOf(rapid.SampledFrom([]uint64{0, 1 << 63, math.Float64bits(math.NaN()), 1}), rapid.Uint64()).Draw(t, "f"),
				S: rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(t, "s"), B: rapid.Bool().Draw(t, "b"),
				A: rapid.Int8Range(-1, 1).Draw(t, "a"), C: [2]bool{rapid.Bool().Draw(t, "c0"), rapid.Bool().Draw(t, "c1")},
				PP: rapid.IntRange(0, 2).Draw(t, "pp") == 0, If: rapid.IntRange(0, 5).Draw(t, "if"),
			}
		},
		Run: func(c *pbt.Ctx, p helperPlan) error {
			f := math.Float64frombits(p.F)
			x := 7
			st := cmpS{A: p.A, B: string(p.S), C: p.C}
			if p.PP {
				st.P = &x
			}
			zero := p.A == 0 && len(p.S) == 0 && !p.C[0] && !p.C[1] && !p.PP
			if !zero && (p.A == 0 || len(p.S) == 0 || !p.C[0] || !p.C[1] || !p.PP) {
				c.NonTrivial()
			}
			var iface any
			switch p.If {
			case 1:
				iface = 0
			case 2:
				iface = ""
			case 3:
				iface = (*int)(nil)
			case 4:
				iface = st
			case 5:
				iface = p.I
			}
			// zero or not somewhere in the middle; an empty part of a text points into it
			text := "abc"
			var wide [20]float64
			wide[uint64(p.I)%20] = f
			var texts [6]string
			texts[uint64(p.I)%6] = text[1 : 1+min(len(p.S), 2)]
			big := struct {
				A int8
				F complex128
				B [3]any
				S label
				W [20]float64
			}{A: p.A, S: label(text[:len(p.S)]), W: wide}
			for _, err := range []error{
				helpers("int64", p.I, p.I == 0, true), helpers("float64", f, f == 0, true),
				helpers("string", string(p.S), len(p.S) == 0, true), helpers("bool", p.B, !p.B, true),
				helpers("struct", st, zero, true), helpers("array", p.C, !p.C[0] && !p.C[1], true),
				helpers("uint8", uint8(p.I), uint8(p.I) == 0, true), helpers("int8", p.A, p.A == 0, true),
				helpers("int", int(p.I), int(p.I) == 0, true), helpers("uint16", uint16(p.F), uint16(p.F) == 0, true),
				helpers("rune", rune(p.I), rune(p.I) == 0, true), helpers("uintptr", uintptr(p.F), uintptr(p.F) == 0, true),
				helpers("float32", float32(p.A), p.A == 0, true), helpers("complex", complex(f, 0), f == 0, true),
				helpers("named byte", octet(p.I), octet(p.I) == 0, true), helpers("named string", label(p.S), len(p.S) == 0, true),
				helpers("duration", time.Duration(p.I), p.I == 0, true), helpers("small struct", struct{ A int8 }{p.A}, p.A == 0, true),
				helpers("pointer", st.P, st.P == nil, true), helpers("interface", iface, iface == nil, true),
				helpers("part of a text", text[:len(p.S)], len(p.S) == 0, true), helpers("large array", wide, f == 0, true),
				helpers("array of texts", texts, len(p.S) == 0, true), helpers("large struct", big, f == 0 && len(p.S) == 0 && p.A == 0, true),
				helpers("empty struct", struct{}{}, true, false),
			} {
				if err != nil {
					return err
				}
			}
			// non-comparable type
			sl := []int64{p.I}
			if got := gconstraints.ToValue(gconstraints.ToPtr(sl)); len(got) != 1 || &got[0] != &sl[0] {
				return pbt.Errf("slice changed by ToPtr/ToValue")
			}
			if gconstraints.ToValue[[]int64](nil) != nil || gconstraints.Empty[map[string]int]() != nil {
				return pbt.Errf("nil pointer does not give the zero value")
			}
			k, v := gconstraints.Pack(sl, st).Unpack()
			if &k[0] != &sl[0] || v != st {
				return pbt.Errf("Pack/Unpack changed the values")
			}
			return nil
		},
	})
}
