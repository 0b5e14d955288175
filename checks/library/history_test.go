package library

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"hash"
	"strings"
	"testing"

	"github.com/miniLCT/gosb/library/cryptox"
	"github.com/miniLCT/gosb/library/stringx"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// Calls of stateless helpers do not influence each other: histories of calls
// on a few related inputs, with the arguments in buffers that are reused for
// the next call, results that are kept (and must not change) and results that
// the caller overwrites (which must not show up anywhere).

type histStep struct {
	F        int // which function
	Key, Arg int // which of the keys and inputs
	Scribble bool
}

type histPlan struct {
	Keys, Args [][]byte
	Base       int
	Steps      []histStep
}

// related draws n byte strings that are easily mistaken for each other.
func related(t *rapid.T, n int, label string, first func() []byte) [][]byte {
	out := [][]byte{first()}
	for len(out) < n {
		b := bytes.Clone(out[rapid.IntRange(0, len(out)-1).Draw(t, label+".of")])
		switch rapid.IntRange(0, 5).Draw(t, label+".how") {
		case 0:
			b = first()
		case 1: // the same but for one byte
			if len(b) > 0 {
				b[rapid.IntRange(0, len(b)-1).Draw(t, label+".at")] ^= byte(1 << rapid.IntRange(0, 7).Draw(t, label+".bit"))
			}
		case 2: // a prefix or suffix
			if len(b) > 0 {
				i := rapid.IntRange(0, len(b)).Draw(t, label+".cut")
				if rapid.Bool().Draw(t, label+".suffix") {
					b = b[i:]
				} else {
					b = b[:i]
				}
			}
		case 3: // permuted
			for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
				b[i], b[j] = b[j], b[i]
			}
		case 4: // longer, same prefix
			b = append(b, b...)
		case 5:
			b = bytes.ToUpper(b)
		}
		out = append(out, b)
	}
	return out
}

func genHistSteps(t *rapid.T, funcs, keys, args int) []histStep {
	return pbt.Ops(t, 14, func(t *rapid.T) histStep {
		return histStep{F: rapid.IntRange(0, funcs-1).Draw(t, "f"), Key: rapid.IntRange(0, keys-1).Draw(t, "k"),
			Arg: rapid.IntRange(0, args-1).Draw(t, "a"), Scribble: rapid.IntRange(0, 2).Draw(t, "scribble") == 0}
	})
}

// kept remembers results that nobody may change.
type kept struct {
	what     string
	got, was []byte
}

type keeper []kept

func (k *keeper) keep(what string, b []byte) { *k = append(*k, kept{what, b, bytes.Clone(b)}) }
func (k keeper) check() error {
	for _, x := range k {
		if !bytes.Equal(x.got, x.was) {
			return pbt.Errf("the result of an earlier call (%s) changed from %q to %q", x.what, x.was, x.got)
		}
	}
	return nil
}

func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0x5a
	}
}

func refHex(name string, b []byte) string {
	h := map[string]func() hash.Hash{"md5": md5.New, "sha1": sha1.New, "sha256": sha256.New, "sha512": sha512.New}[name]()
	h.Write(b)
	return hex.EncodeToString(h.Sum(nil))
}

var modes = []string{"ecb", "cbc", "ctr"}

func histNonTrivial(c *pbt.Ctx, p histPlan) {
	type call struct{ f, k, a int }
	seen := map[call]bool{}
	for i, s := range p.Steps {
		if i > 0 && seen[call{s.F, s.Key, s.Arg}] && (s.Key != p.Steps[i-1].Key || s.Arg != p.Steps[i-1].Arg) {
			c.NonTrivial()
		}
		seen[call{s.F, s.Key, s.Arg}] = true
	}
}

func aesHistory(t *testing.T, dec bool) {
	rule := "encrypting"
	if dec {
		rule = "encrypting and decrypting (also damaged ciphertexts)"
	}
	pbt.Check(t, pbt.Prop[histPlan]{
		Rule: "histories of up to 14 (now and then 56) calls, " + rule + " related texts under related keys that lie in the same reused buffers, with results kept or overwritten by the caller; " +
			"non-trivial: a call is repeated after one with another key or text",
		Cases: 2500,
		Gen: func(t *rapid.T) histPlan {
			p := histPlan{}
			for _, k := range related(t, rapid.IntRange(1, 4).Draw(t, "keys"), "key", func() []byte { return genKey(t) }) {
				// keep the length valid
				n := rapid.SampledFrom([]int{16, 24, 32}).Draw(t, "klen")
				for len(k) < n {
					k = append(k, byte(len(k)))
				}
				p.Keys = append(p.Keys, k[:n])
			}
			p.Args = related(t, rapid.IntRange(1, 4).Draw(t, "args"), "arg", func() []byte { return genBytes(t, rapid.IntRange(0, 70).Draw(t, "n"), "text") })
			p.Steps = genHistSteps(t, 12, len(p.Keys), len(p.Args))
			return p
		},
		Run: func(c *pbt.Ctx, p histPlan) error {
			histNonTrivial(c, p)
			keyBuf, argBuf := make([]byte, 32), make([]byte, 16)
			var results keeper
			for i, s := range p.Steps {
				mode, b64 := modes[s.F%3], s.F/3%2 == 1
				key, arg := p.Keys[s.Key], p.Args[s.Arg]
				what := pbt.Str(s)
				kb := keyBuf[:copy(keyBuf, key)]
				put := func(b []byte) []byte {
					if cap(argBuf) < len(b) {
						argBuf = make([]byte, 2*len(b))
					}
					argBuf = argBuf[:cap(argBuf)]
					return argBuf[:copy(argBuf, b)]
				}
				var out []byte
				if dec && s.F >= 6 {
					data := arg
					if mode != "ctr" {
						data = refPad(arg)
					}
					text := refEncode(refRaw(mode, key, bytes.Repeat([]byte{byte(s.Arg)}, 16), data), b64)
					if i%4 == 3 {
						text[len(text)-1-i%len(text)] ^= 1
					}
					want, ok := refDecrypt(mode, key, text, b64)
					got, err := decryptors[mode](kb, put(text), b64)
					if ok != (err == nil) || ok && !bytes.Equal(got, want) {
						return pbt.Errf("call %d, %s decrypt of %q under %x: got %x, %v; want %x, accepted %v", i, mode, text, key, got, err, want, ok)
					}
					if err != nil {
						got = nil
					}
					out = got
				} else {
					out = encryptors[mode](kb, put(arg), b64)
					var got []byte
					var ok bool
					if mode == "ctr" {
						raw, err := hex.DecodeString(string(out))
						if b64 {
							got, ok = refDecrypt(mode, key, out, b64)
						} else if err == nil && len(raw) >= 16 {
							got, ok = refRaw("ctr", key, raw[:16], raw[16:])[16:], true
						}
					} else {
						got, ok = refDecrypt(mode, key, out, b64)
					}
					if !ok || !bytes.Equal(got, arg) {
						return pbt.Errf("call %d, %s encrypt of %q under %x: the standard decryption gives %q, %v", i, mode, arg, key, got, ok)
					}
				}
				if s.Scribble {
					for i := range out {
						out[i] ^= 0x5a
					}
				} else {
					results.keep(what, out)
				}
				scribble(keyBuf)
				scribble(argBuf)
				if err := results.check(); err != nil {
					return err
				}
			}
			return nil
		},
	})
}

func TestC31_History(t *testing.T) { aesHistory(t, false) }
func TestC32_History(t *testing.T) { aesHistory(t, true) }

func TestC33_History(t *testing.T) {
	pbt.Check(t, pbt.Prop[histPlan]{
		Rule:  "histories of up to 14 (now and then 56) digests of related inputs that lie in one reused buffer; non-trivial: a digest is repeated after that of another input",
		Cases: 2500,
		Gen: func(t *rapid.T) histPlan {
			p := histPlan{}
			p.Args = related(t, rapid.IntRange(1, 4).Draw(t, "args"), "arg", func() []byte { return genBytes(t, rapid.IntRange(0, 150).Draw(t, "n"), "text") })
			p.Steps = genHistSteps(t, 6, 1, len(p.Args))
			return p
		},
		Run: func(c *pbt.Ctx, p histPlan) error {
			histNonTrivial(c, p)
			buf := make([]byte, 0, 4096)
			type res struct{ what, got, was string }
			var results []res
			for i, s := range p.Steps {
				in := append(buf[:0], p.Args[s.Arg]...)
				ref := bytes.Clone(in)
				var got, want string
				switch s.F {
				case 0:
					got, want = cryptox.Md5(in), refHex("md5", ref)
				case 1:
					got, want = cryptox.Sha1(in), refHex("sha1", ref)
				case 2:
					got, want = cryptox.Sha256(in), refHex("sha256", ref)
				case 3:
					got, want = cryptox.Sha512(in), refHex("sha512", ref)
				case 4:
					got, want = pbt.Str(cryptox.Fnv1aToUint64(in)), pbt.Str(refFnv64(ref))
				case 5:
					got, want = pbt.Str(cryptox.Fnv1aToUint32(in)), pbt.Str(refFnv32(ref))
				}
				if got != want {
					return pbt.Errf("call %d, digest %d of %q: got %s, want %s", i, s.F, ref, got, want)
				}
				results = append(results, res{pbt.Str(s), got, strings.Clone(got)})
				for _, r := range results {
					if r.got != r.was {
						return pbt.Errf("the result of an earlier call (%s) changed from %q to %q", r.what, r.was, r.got)
					}
				}
				scribble(buf)
			}
			return nil
		},
	})
}

type textFunc struct {
	name string
	f    func(s, prefix string, base int) string
}

// textHistory: every call with the same arguments gives the same result,
// whatever was called in between, and no result changes later.
func textHistory(t *testing.T, tokens []string, funcs []textFunc) {
	pbt.Check(t, pbt.Prop[histPlan]{
		Rule:  "histories of up to 14 (now and then 56) conversions of related texts, kept and overwritten results; non-trivial: a call is repeated after one with another text",
		Cases: 2500,
		Gen: func(t *rapid.T) histPlan {
			p := histPlan{Base: rapid.SampledFrom([]int{10, 16, 8, 36, 2}).Draw(t, "base")}
			p.Keys = related(t, rapid.IntRange(1, 2).Draw(t, "keys"), "key", func() []byte { return pbt.ByteString(t, 3, tokens) })
			p.Args = related(t, rapid.IntRange(1, 4).Draw(t, "args"), "arg", func() []byte { return pbt.ByteString(t, 25, tokens) })
			p.Steps = genHistSteps(t, len(funcs), len(p.Keys), len(p.Args))
			return p
		},
		Run: func(c *pbt.Ctx, p histPlan) error {
			histNonTrivial(c, p)
			type call struct{ f, k, a int }
			type res struct{ got, was string }
			seen := map[call]res{}
			for i, s := range p.Steps {
				arg, key := string(p.Args[s.Arg]), string(p.Keys[s.Key])
				got := funcs[s.F].f(arg, key, p.Base)
				if arg != string(p.Args[s.Arg]) || key != string(p.Keys[s.Key]) {
					return pbt.Errf("%s(%q) changed its input to %q", funcs[s.F].name, p.Args[s.Arg], arg)
				}
				k := call{s.F, s.Key, s.Arg}
				if old, ok := seen[k]; ok && old.was != got {
					return pbt.Errf("call %d: %s(%q) gives %q, the same call gave %q before", i, funcs[s.F].name, arg, got, old.was)
				} else if !ok {
					seen[k] = res{got, strings.Clone(got)}
				}
				for k, r := range seen {
					if r.got != r.was {
						return pbt.Errf("the result of an earlier call, %s(%q), changed from %q to %q", funcs[k.f].name, p.Args[k.a], r.was, r.got)
					}
				}
			}
			return nil
		},
	})
}

func jsonKept(html bool) func(string, string, int) string {
	return func(s, _ string, _ int) string {
		b := stringx.StringMarshalJSON(s, html)
		out := string(b)
		for i := range b {
			b[i] ^= 0x5a // it is the caller's own
		}
		return out
	}
}

func TestC35_History(t *testing.T) {
	textHistory(t, []string{"<", ">", "&", "\"", "\\", "\n", "a", "é", "\u2028", "\xff", "\x00", "日本"}, []textFunc{
		{"StringMarshalJSON(html)", jsonKept(true)}, {"StringMarshalJSON", jsonKept(false)},
	})
}

func TestC35_Kept(t *testing.T) {
	pbt.Check(t, pbt.Prop[histPlan]{
		Rule:  "several encodings kept by the caller do not change with later calls; non-trivial: an encoding is repeated after that of another text",
		Cases: 2500,
		Gen: func(t *rapid.T) histPlan {
			p := histPlan{}
			p.Args = related(t, rapid.IntRange(2, 4).Draw(t, "args"), "arg", func() []byte {
				return pbt.ByteString(t, 40, []string{"<", "&", "\"", "\n", "abcdefgh", "é", "\u2028", "\xff"})
			})
			p.Steps = genHistSteps(t, 2, 1, len(p.Args))
			return p
		},
		Run: func(c *pbt.Ctx, p histPlan) error {
			histNonTrivial(c, p)
			var results keeper
			for _, s := range p.Steps {
				results.keep(pbt.Str(s), stringx.StringMarshalJSON(string(p.Args[s.Arg]), s.F == 1))
				if err := results.check(); err != nil {
					return err
				}
			}
			return nil
		},
	})
}

func TestC36_History(t *testing.T) {
	textHistory(t, []string{"Aa", "b", "_", "ID", "url", "Http", "9", "X", "é", "É", "_id", "json"}, []textFunc{
		{"SnakeString", func(s, _ string, _ int) string { return stringx.SnakeString(s) }},
		{"CamelString", func(s, _ string, _ int) string { return stringx.CamelString(s) }},
		{"LintCamelString", func(s, _ string, _ int) string { return stringx.LintCamelString(s) }},
	})
}

func TestC37_History(t *testing.T) {
	textHistory(t, []string{"&#", "&#65;", "&#7c;", `\u`, `\u0041`, `\u7c`, ";", "a", "1", "é"}, []textFunc{
		{"HTMLEntityToUTF8", func(s, _ string, base int) string { return stringx.HTMLEntityToUTF8(s, base) }},
		{"CodePointToUTF8", func(s, _ string, base int) string { return stringx.CodePointToUTF8(s, base) }},
		{"HTMLEntityToUTF8/10", func(s, _ string, base int) string { return stringx.HTMLEntityToUTF8(s, 10) }},
		{"CodePointToUTF8/16", func(s, _ string, base int) string { return stringx.CodePointToUTF8(s, 16) }},
	})
}

func TestC38_History(t *testing.T) {
	textHistory(t, []string{"  ", "\n", "\t", "a", "bc", "\r\n", "é", "> "}, []textFunc{
		{"SpaceInOne", func(s, _ string, _ int) string { return stringx.SpaceInOne(s) }},
		{"Indent", func(s, prefix string, _ int) string { return stringx.Indent(s, prefix) }},
	})
}
