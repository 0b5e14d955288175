package pbt

import (
	"fmt"
	"math/bits"
	"math/rand/v2"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Common generators. Sizes are drawn first from a skewed choice so that tiny
// and boundary-sized cases are frequent without excluding larger ones.

// Size draws a size, mostly between 0 and max and favouring small ones, now and
// then up to five times that.
func Size(t *rapid.T, max int, label string) int {
	if rapid.IntRange(0, 24).Draw(t, label+".big") == 24 {
		return rapid.IntRange(0, 5*max).Draw(t, label)
	}
	switch rapid.IntRange(0, 9).Draw(t, label+".class") {
	case 0:
		return 0
	case 1:
		return min(1, max)
	case 2, 3, 4, 5:
		return rapid.IntRange(0, min(8, max)).Draw(t, label)
	case 6, 7:
		return rapid.IntRange(0, min(40, max)).Draw(t, label)
	default:
		return rapid.IntRange(0, max).Draw(t, label)
	}
}

// Large draws a size between 33 and max, on a logarithmic scale and often at or
// next to a power of two.
func Large(t *rapid.T, max int, label string) int {
	k := rapid.IntRange(6, bits.Len(uint(max))).Draw(t, label+".log2")
	n := 1 << k
	if rapid.Bool().Draw(t, label+".at") {
		n += rapid.IntRange(-2, 2).Draw(t, label+".off")
	} else {
		n = rapid.IntRange(n/2+1, n).Draw(t, label)
	}
	return min(n, max)
}

// Rand is the source of a plan's bulk data.
func Rand(seed uint64) *rand.Rand { return rand.New(rand.NewPCG(seed, 0x9e3779b97f4a7c15)) }

// BigText makes a text of about n bytes from a seed: tokens in random order, a
// plain text with few tokens, or long runs of tokens.
func BigText(n int, seed uint64, style int, tokens []string) []byte {
	r := Rand(seed)
	out := make([]byte, 0, n+64)
	for len(out) < n {
		tok := tokens[r.IntN(len(tokens))]
		switch style % 3 {
		case 0:
			out = append(out, tok...)
		case 1:
			for i := 1 << r.IntN(bits.Len(uint(n))); i > 0 && len(out) < n; i-- {
				out = append(out, byte('a'+i%26))
			}
			out = append(out, tok...)
		default:
			for i := 1 << r.IntN(bits.Len(uint(n))); i > 0 && len(out) < n; i-- {
				out = append(out, tok...)
			}
		}
	}
	return out
}

// Ops draws a sequence of max elements at most (now and then four times that),
// each drawn by one.
func Ops[T any](t *rapid.T, max int, one func(*rapid.T) T) []T {
	if rapid.IntRange(0, 29).Draw(t, "nops.big") == 29 {
		max *= 4
	}
	n := max
	switch rapid.IntRange(0, 7).Draw(t, "nops.class") {
	case 0:
		n = rapid.IntRange(1, min(4, max)).Draw(t, "nops")
	case 1, 2:
		n = rapid.IntRange(1, max).Draw(t, "nops")
	case 3, 4:
		n = (max + 1) / 2
	}
	g := rapid.Custom(one)
	return rapid.SliceOfN(g, n/2, n).Draw(t, "ops")
}

// Fill draws, now and then, many of the numbers below n in some regular order.
func Fill(t *rapid.T, n int) []int {
	if rapid.IntRange(0, 7).Draw(t, "fill") != 7 {
		return nil
	}
	k := rapid.IntRange(0, n-1).Draw(t, "fill.start")
	step := rapid.SampledFrom([]int{1, 1, -1, 7, 11, 37}).Draw(t, "fill.step")
	out := make([]int, rapid.IntRange(1, n).Draw(t, "fill.n"))
	for i := range out {
		out[i] = k
		k = ((k+step)%n + n) % n
	}
	return out
}

// ByteString draws arbitrary bytes mixing uniform bytes, chosen tokens and runs.
// It is returned as []byte so that invalid UTF-8 survives JSON encoding.
func ByteString(t *rapid.T, maxTokens int, tokens []string) []byte {
	n := Size(t, maxTokens, "len")
	out := make([]byte, 0, n*2)
	for i := 0; i < n; i++ {
		switch k := rapid.IntRange(0, 9).Draw(t, "kind"); {
		case k < 6 && len(tokens) > 0:
			out = append(out, rapid.SampledFrom(tokens).Draw(t, "tok")...)
		case k == 6:
			out = append(out, rapid.Byte().Draw(t, "byte"))
		case k == 7:
			out = utf8.AppendRune(out, rapid.Rune().Draw(t, "rune"))
		default:
			out = append(out, byte(rapid.IntRange(0x20, 0x7e).Draw(t, "ascii")))
		}
	}
	return out
}

// Str shows a value compactly in an error.
func Str(v any) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}
