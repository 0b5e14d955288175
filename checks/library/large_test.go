package library

import (
	"math/rand/v2"
	"strings"
	"testing"

	"github.com/miniLCT/gosb/library/stringx"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// Large inputs: the same oracles over inputs of up to megabytes, expanded from a
// seed so that a plan stays a few numbers and shrinks by them.

// bulk is n bytes from a seed: random, constant, all zero but few, or periodic.
func bulk(n int, seed uint64, style int) []byte {
	r := pbt.Rand(seed)
	out := make([]byte, n)
	switch style % 5 {
	case 0:
		fill(r, out)
	case 1:
		for i := range out {
			out[i] = byte(seed)
		}
	case 2:
		for i := r.IntN(5); i >= 0 && n > 0; i-- {
			out[r.IntN(n)] = byte(r.Uint32())
		}
	case 3:
		for i := range out {
			out[i] = 0xff
		}
		for i := r.IntN(5); i >= 0 && n > 0; i-- {
			out[r.IntN(n)] = byte(r.Uint32())
		}
	default:
		unit := make([]byte, 1+r.IntN(300))
		fill(r, unit)
		for i := range out {
			out[i] = unit[i%len(unit)]
		}
	}
	return out
}

func fill(r *rand.Rand, b []byte) {
	for i := range b {
		b[i] = byte(r.Uint32())
	}
}

type bulkSpec struct {
	N     int
	Seed  uint64
	Style int
}

func (b bulkSpec) bytes() []byte               { return bulk(b.N, b.Seed, b.Style) }
func (b bulkSpec) text(tokens []string) []byte { return pbt.BigText(b.N, b.Seed, b.Style, tokens) }

func genBulk(t *rapid.T, max int) bulkSpec {
	return bulkSpec{pbt.Large(t, max, "size"), rapid.Uint64Range(0, 1<<20).Draw(t, "seed"), rapid.IntRange(0, 4).Draw(t, "style")}
}

// ---- C29 --------------------------------------------------------------------

type bitsetLarge struct {
	Sets []bulkSpec
	Ops  []bop
}

func TestC29_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[bitsetLarge]{
		Rule:  "1..3 sets of 33..128 kB (random, constant, nearly all zeros or ones, periodic), 1..6 of the operations of the model test with offsets anywhere in the set; non-trivial: a count or sub over an unaligned range and a logical operation over different lengths",
		Cases: 30,
		Gen: func(t *rapid.T) bitsetLarge {
			var p bitsetLarge
			size := genBulk(t, 128<<10)
			p.Sets = append(p.Sets, size)
			for i := rapid.IntRange(0, 2).Draw(t, "more"); i > 0; i-- {
				b := genBulk(t, 128<<10)
				if rapid.Bool().Draw(t, "near") {
					b.N = max(1, size.N+rapid.IntRange(-9, 9).Draw(t, "d"))
				}
				p.Sets = append(p.Sets, b)
			}
			p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) bop {
				return bop{Op: rapid.SampledFrom([]string{"set", "get", "range", "count", "count", "count", "sub", "sub", "sub", "not", "and", "or", "xor", "andnot", "clear", "render", "hex"}).Draw(t, "op"),
					A: rapid.IntRange(0, 5).Draw(t, "a"), V: rapid.Bool().Draw(t, "v"),
					I: rapid.IntRange(-1<<30, 1<<30).Draw(t, "i"), J: rapid.IntRange(-1<<30, 1<<30).Draw(t, "j"),
					Others:  rapid.SliceOfN(rapid.IntRange(0, 5), 1, 2).Draw(t, "others"),
					Keep:    rapid.Bool().Draw(t, "keep"),
					Align:   rapid.IntRange(0, 2).Draw(t, "align") == 0,
					Sep:     rapid.SampledFrom([]string{"", ",", "00000000"}).Draw(t, "sep"),
					HexForm: rapid.IntRange(0, 4).Draw(t, "hf")}
			}), 1, 6).Draw(t, "ops")
			return p
		},
		Run: func(c *pbt.Ctx, p bitsetLarge) error {
			in := bitsetPlan{Ops: p.Ops}
			for _, b := range p.Sets {
				in.Init = append(in.Init, b.bytes())
				c.LabelIf(b.N > 4096, "above 4 kB")
			}
			return runBitset(c, in)
		},
	})
}

// ---- C31, C32, C33 ----------------------------------------------------------

type aesLarge struct {
	aesPlan
	Data bulkSpec
}

func genAES(t *rapid.T) aesPlan {
	p := aesPlan{Mode: rapid.SampledFrom([]string{"ecb", "cbc", "ctr"}).Draw(t, "mode"), Key: genKey(t),
		Enc:    rapid.SampledFrom(encodings).Draw(t, "enc"),
		Before: rapid.IntRange(0, 3).Draw(t, "before"), After: rapid.SampledFrom([]int{0, 1, 15, 16, 17, 64}).Draw(t, "after"),
		IV: genBytes(t, 16, "iv")}
	carry(t, p.IV)
	return p
}

func TestC31_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[aesLarge]{
		Rule:  "the round trip of plaintexts of 33 bytes to 4 MB, with counters that carry; non-trivial: more than 4096 bytes",
		Cases: 40,
		Gen: func(t *rapid.T) aesLarge {
			return aesLarge{aesPlan: genAES(t), Data: genBulk(t, 4<<20)}
		},
		Run: func(c *pbt.Ctx, p aesLarge) error {
			p.Plain = p.Data.bytes()
			err := runRoundTrip(c, p.aesPlan)
			largeOnly(c, len(p.Plain))
			return err
		},
	})
}

// largeOnly labels a case by its size; the smaller test's rule decides whether
// it is non-trivial.
func largeOnly(c *pbt.Ctx, n int) {
	if n > 4096 {
		c.NonTrivial()
		c.Label("above 4 kB")
	}
	c.LabelIf(n > 1<<20, "above 1 MB")
}

type decLarge struct {
	aesPlan
	Data  bulkSpec
	Flips []int // bytes of the ciphertext text that change
	Cut   int   // characters cut off the end
}

func TestC32_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[decLarge]{
		Rule:  "ciphertexts of plaintexts of 33 bytes to 1 MB with up to three changed characters and up to 40 cut off, decrypted and compared with the reference; non-trivial: more than 4096 bytes",
		Cases: 60,
		Gen: func(t *rapid.T) decLarge {
			return decLarge{genAES(t), genBulk(t, 1<<20), rapid.SliceOfN(rapid.IntRange(0, 1<<30), 0, 3).Draw(t, "flips"),
				rapid.SampledFrom([]int{0, 0, 1, 2, 16, 32, 40}).Draw(t, "cut")}
		},
		Run: func(c *pbt.Ctx, p decLarge) error {
			data, b64 := p.Data.bytes(), isB64(p.Enc)
			if p.Mode != "ctr" {
				data = refPad(data)
			}
			text := refEncode(refRaw(p.Mode, p.Key, p.IV, data), b64)
			text = text[:max(0, len(text)-p.Cut)]
			const chars = "0123456789abcdefG-_=\n"
			for _, f := range p.Flips {
				text[f%len(text)] = chars[f/7%len(chars)]
			}
			largeOnly(c, len(text))
			return runDecrypt(c, decPlan{Mode: p.Mode, Key: p.Key, Text: text, Enc: p.Enc, Before: p.Before, After: p.After, How: "large"})
		},
	})
}

func TestC33_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[bulkSpec]{
		Rule:  "the digests of inputs of 33 bytes to 2 MB; non-trivial: more than 4096 bytes",
		Cases: 25,
		Gen:   func(t *rapid.T) bulkSpec { return genBulk(t, 2<<20) },
		Run: func(c *pbt.Ctx, p bulkSpec) error {
			data := p.bytes()
			err := runDigests(c, digestPlan{Data: data, Rep: 1, Split: []int{4099, 64, 100000}})
			largeOnly(c, len(data))
			return err
		},
	})
}

// ---- C34 --------------------------------------------------------------------

type pwLarge struct {
	N       int
	Seed    uint64
	Set     int   // classes used throughout
	Plants  []int // places of single characters
	Chars   []byte
	Flag    uint8
	DMin    int
	DMax    int
	HasMax  bool
	Declare bool // flags that fit what the password holds
}

func TestC34_Large(t *testing.T) {
	classes := []string{"0123456789", "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"}
	pbt.Check(t, pbt.Prop[pwLarge]{
		Rule:  "passwords of 33 to 65536 characters of a few classes with up to two single characters of any kind anywhere; non-trivial: every character admissible and the length within bounds",
		Cases: 4000,
		Gen: func(t *rapid.T) pwLarge {
			return pwLarge{N: pbt.Large(t, rapid.SampledFrom([]int{300, 300, 300, 65536}).Draw(t, "max"), "n"), Seed: rapid.Uint64Range(0, 1<<20).Draw(t, "seed"),
				Set:    rapid.IntRange(1, 15).Draw(t, "set"),
				Plants: rapid.SliceOfN(rapid.IntRange(0, 1<<20), 0, 2).Draw(t, "plants"),
				Chars:  []byte{rapid.Byte().Draw(t, "c1"), rapid.SampledFrom([]byte("0aA! ~\x7f\x00\x80")).Draw(t, "c2")},
				Flag:   rapid.Byte().Draw(t, "flag"), Declare: rapid.IntRange(0, 3).Draw(t, "fit") > 0,
				DMin: rapid.SampledFrom([]int{0, 0, 1, 100, -1}).Draw(t, "min"), DMax: rapid.SampledFrom([]int{0, 0, 1, 100, -1}).Draw(t, "maxd"), HasMax: rapid.Bool().Draw(t, "hasMax")}
		},
		Run: func(c *pbt.Ctx, p pwLarge) error {
			var from string
			for k, cl := range classes {
				if p.Set>>k&1 == 1 {
					from += cl
				}
			}
			r := pbt.Rand(p.Seed)
			pw := make([]byte, p.N)
			for i := range pw {
				pw[i] = from[r.IntN(len(from))]
			}
			for i, at := range p.Plants {
				pw[at%p.N] = p.Chars[i]
			}
			if p.Declare {
				f := uint8(0)
				for _, b := range pw {
					switch {
					case b >= '0' && b <= '9':
						f |= 1
					case b >= 'a' && b <= 'z':
						f |= 2 | 4
					case b >= 'A' && b <= 'Z':
						f |= 2 | 8
					default:
						f |= 16
					}
				}
				p.Flag = f
			}
			in := pwPlan{Pw: pw, Flag: p.Flag, Min: p.N - p.DMin}
			if p.HasMax {
				in.Max = []int{p.N + p.DMax}
			}
			return runPassword(c, in)
		},
	})
}

// ---- C35 to C38 -------------------------------------------------------------

func TestC35_Large(t *testing.T) {
	toks := []string{"\"", "\\", "\n", "\t", "\x00", "\x1f", "\x7f", "<", ">", "&", "\u2028", "\u2029", "\u202a", "\xe2\x80", "\xff", "\xf0\x9f\x98\x80", "\ufffd", "é", "plain", "a", "bc"}
	type plan struct {
		Text   bulkSpec
		Escape bool
	}
	pbt.Check(t, pbt.Prop[plan]{
		Rule:  "texts of 33 bytes to 512 kB of the same tokens: mixed, with long plain stretches, and with long runs of one token; non-trivial: an invalid byte or a character that needs escaping next to plain text",
		Cases: 150,
		Gen: func(t *rapid.T) plan {
			return plan{genBulk(t, 512<<10), rapid.Bool().Draw(t, "escape")}
		},
		Run: func(c *pbt.Ctx, p plan) error { return runJSON(c, jsonPlan{p.Text.text(toks), p.Escape}) },
	})
}

func TestC36_Large(t *testing.T) {
	toks := []string{"_", "__", "A", "Z", "a", "z", "0", "9", "id", "ID", "Id", "Http", "é", "É", "ß", "日", "-", " ", ".", "[", "@"}
	type plan struct {
		Text  bulkSpec
		Words int
		Lint  bool
	}
	pbt.Check(t, pbt.Prop[plan]{
		Rule:  "texts of 33 bytes to 64 kB through the three conversions, and identifiers of up to 4096 words in snake and camel form; non-trivial: valid UTF-8 with an underscore, a capital and a small letter, or several words",
		Cases: 200,
		Gen: func(t *rapid.T) plan {
			return plan{genBulk(t, 64<<10), pbt.Large(t, 4096, "words"), rapid.Bool().Draw(t, "lint")}
		},
		Run: func(c *pbt.Ctx, p plan) error {
			if err := runCase(c, casePlan{p.Text.text(toks)}); err != nil {
				return err
			}
			r := pbt.Rand(p.Text.Seed)
			w := wordsPlan{Lint: p.Lint}
			for len(w.Words) < p.Words {
				if p.Lint && r.IntN(4) == 0 {
					w.Words = append(w.Words, strings.ToLower(initialisms[r.IntN(len(initialisms))]))
					continue
				}
				word := make([]byte, 2+r.IntN(12))
				if r.IntN(200) == 0 {
					word = make([]byte, 2+r.IntN(3000))
				}
				for i := range word {
					word[i] = byte('a' + r.IntN(26))
				}
				w.Words = append(w.Words, string(word))
			}
			return runWords(c, w)
		},
	})
}

func TestC37_Large(t *testing.T) {
	entities := []string{"&#65;", "&#x41;", "&#1F600;", "&#d7ff;", "&#D800", "&#", "&", "#", ";", "&#0041;;", "&#110000;", "&#10ffff;", "12", "ff", "plain ", "é", "\xff", "&#7fffffff;", "&#100000000;", "&#26"}
	points := []string{`\u0041`, `\u4e16`, `\uD800`, `\u00e9`, `\u`, `\`, `u`, `\\u0041`, `\u41`, "12", "cafe", "plain ", "é", "\xff", `\u0`, `\uffff`, `\u000041`, `\U0041`}
	type plan struct {
		Text  bulkSpec
		Base  int
		Point bool
	}
	pbt.Check(t, pbt.Prop[plan]{
		Rule:  "texts of 33 bytes to 128 kB of escapes, broken escapes and plain text: mixed, with long plain stretches, and with long runs of one token; non-trivial: a valid escape",
		Cases: 120,
		Gen: func(t *rapid.T) plan {
			return plan{genBulk(t, 128<<10), rapid.SampledFrom([]int{16, 16, 16, 10, 36}).Draw(t, "base"), rapid.Bool().Draw(t, "point")}
		},
		Run: func(c *pbt.Ctx, p plan) error {
			if p.Point {
				return decodeRun("CodePointToUTF8", stringx.CodePointToUTF8, refCodePoint)(c, decodePlan{p.Text.text(points), p.Base})
			}
			return decodeRun("HTMLEntityToUTF8", stringx.HTMLEntityToUTF8, refEntity)(c, decodePlan{p.Text.text(entities), p.Base})
		},
	})
}

func TestC38_Large(t *testing.T) {
	toks := append([]string{"  ", "\r\n", " \n", "\t ", " \t", "word", "x", "longerword", "\u2003", "\xc2", "\x85", "\u0085\u0085", "é"}, spaces...)
	lines := []string{"\n", "\n\n", "\r\n", "  ", "\t", "> ", "x", "word", "\xff", "é"}
	type plan struct {
		Text   bulkSpec
		Prefix int
		Indent bool
	}
	pbt.Check(t, pbt.Prop[plan]{
		Rule:  "texts of 33 bytes to 128 kB of the same tokens: mixed, with long plain stretches, and with long runs of one token; prefixes of up to 5000 bytes; non-trivial: as in the smaller tests",
		Cases: 150,
		Gen: func(t *rapid.T) plan {
			return plan{genBulk(t, 128<<10), rapid.SampledFrom([]int{0, 1, 2, 16, 300, 5000}).Draw(t, "prefix"), rapid.Bool().Draw(t, "indent")}
		},
		Run: func(c *pbt.Ctx, p plan) error {
			if p.Indent {
				if p.Prefix > 100 {
					p.Text.N = min(p.Text.N, 8<<10)
				}
				return runIndent(c, indentPlan{append(p.Text.text(lines), "a"[:p.Text.Seed%2]...), bulk(p.Prefix, p.Text.Seed+1, p.Text.Style)})
			}
			return runSpace(c, spacePlan{S: p.Text.text(toks)})
		},
	})
}
