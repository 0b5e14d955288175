package library

import (
	"fmt"
	"strings"
	"testing"

	"github.com/miniLCT/gosb/library/password"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

type pwPlan struct {
	Pw    []byte
	Flag  uint8
	Min   int
	Max   []int
	Exact bool
}

// pwValid is the specification.
func pwValid(pw []byte, flag uint8, minLen int, maxLen []int) bool {
	const n, lorU, l, u, s = 1, 2, 4, 8, 16
	flag &= 31
	if len(pw) < minLen || (len(maxLen) > 0 && len(pw) > maxLen[0]) {
		return false
	}
	var hasN, hasL, hasU, hasS bool
	for _, c := range pw {
		switch {
		case c < 0x21 || c > 0x7e:
			return false
		case strings.IndexByte("0123456789", c) >= 0:
			hasN = true
		case strings.IndexByte("abcdefghijklmnopqrstuvwxyz", c) >= 0:
			hasL = true
		case strings.IndexByte("ABCDEFGHIJKLMNOPQRSTUVWXYZ", c) >= 0:
			hasU = true
		default:
			hasS = true
		}
	}
	if hasN != (flag&n != 0) || hasS != (flag&s != 0) {
		return false
	}
	if (hasL || hasU) != (flag&(lorU|l|u) != 0) {
		return false
	}
	return (flag&l == 0 || hasL) && (flag&u == 0 || hasU)
}

func TestC34_Password(t *testing.T) {
	classes := []string{"0123456789", "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"}
	edges := []string{" ", "\t", "\n", "\x00", "\x1f", "\x7f", "\x80", "\xff", "é", "０", "ａ", "～", "\u00a0", "/", "0", "9", ":", "@", "A", "Z", "[", "`", "a", "z", "{", "~", "!"}
	pbt.Check(t, pbt.Prop[pwPlan]{
		Rule: "passwords of 0..12 (now and then 300) characters drawn from a random subset of the classes, sometimes with an arbitrary or non-ASCII character, under every flag byte and bounds around the length; " +
			"non-trivial: every character is admissible and the length is within bounds, so the flags decide",
		Cases: 20000,
		Gen: func(t *rapid.T) pwPlan {
			var p pwPlan
			set := rapid.IntRange(1, 15).Draw(t, "classes")
			n := rapid.IntRange(0, 12).Draw(t, "n")
			if rapid.IntRange(0, 30).Draw(t, "long") == 30 {
				n = rapid.IntRange(13, 300).Draw(t, "n2")
			}
			for i := 0; i < n; i++ {
				if rapid.IntRange(0, 39).Draw(t, "edge") == 0 {
					p.Pw = append(p.Pw, rapid.SampledFrom(edges).Draw(t, "e")...)
					continue
				}
				k := rapid.IntRange(0, 3).Draw(t, "k")
				for set>>k&1 == 0 {
					k = (k + 1) % 4
				}
				cl := classes[k]
				p.Pw = append(p.Pw, cl[rapid.IntRange(0, len(cl)-1).Draw(t, "c")])
			}
			p.Flag = rapid.Byte().Draw(t, "flag")
			if rapid.Bool().Draw(t, "fit") { // a flag that fits the classes present, up to one bit
				f := uint8(0)
				for _, b := range p.Pw {
					switch {
					case b >= '0' && b <= '9':
						f |= 1
					case b >= 'a' && b <= 'z':
						f |= 2 | 4
					case b >= 'A' && b <= 'Z':
						f |= 2 | 8
					default:
						f |= 16
					}
				}
				f &^= rapid.SampledFrom([]uint8{0, 2, 4, 8, 12, 6, 10}).Draw(t, "drop")
				if rapid.IntRange(0, 3).Draw(t, "flip") == 0 {
					f ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
				}
				p.Flag = f | rapid.SampledFrom([]uint8{0, 0, 32, 64, 128, 224}).Draw(t, "high")
			}
			p.Min = len(p.Pw) - rapid.SampledFrom([]int{0, 0, 1, 2, 5, 20, -1}).Draw(t, "min")
			if rapid.Bool().Draw(t, "hasMax") {
				p.Max = []int{len(p.Pw) + rapid.SampledFrom([]int{0, 0, 1, 2, 5, 20, -1}).Draw(t, "max")}
			}
			return p
		},
		Run: runPassword,
	})
}

func runPassword(c *pbt.Ctx, p pwPlan) error {
	want := pwValid(p.Pw, p.Flag, p.Min, p.Max)
	got := password.CheckPassword(string(p.Pw), password.Flag(p.Flag), p.Min, p.Max...)
	c.Label(fmt.Sprintf("accept=%v", want))
	ok := len(p.Pw) >= p.Min && (len(p.Max) == 0 || len(p.Pw) <= p.Max[0])
	for _, b := range p.Pw {
		ok = ok && b > 0x20 && b < 0x7f
	}
	if ok && len(p.Pw) > 0 {
		c.NonTrivial()
	}
	if got != want {
		return pbt.Errf("CheckPassword(%q, %#b, %d, %v) = %v, want %v", p.Pw, p.Flag, p.Min, p.Max, got, want)
	}
	return nil
}
