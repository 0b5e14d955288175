package library

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"hash"
	"sync"
	"testing"

	"github.com/miniLCT/gosb/library/cryptox"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// ---- reference implementation (written from the standards) ----------------

func refPad(p []byte) []byte {
	n := 16 - len(p)%16
	out := make([]byte, len(p)+n)
	copy(out, p)
	for i := len(p); i < len(out); i++ {
		out[i] = byte(n)
	}
	return out
}

// refUnpad: ok only for 1..16 equal bytes of that value.
func refUnpad(p []byte) ([]byte, bool) {
	if len(p) == 0 || len(p)%16 != 0 {
		return nil, false
	}
	n := int(p[len(p)-1])
	if n < 1 || n > 16 {
		return nil, false
	}
	for _, b := range p[len(p)-n:] {
		if int(b) != n {
			return nil, false
		}
	}
	return p[:len(p)-n], true
}

// refRaw encrypts already padded (or CTR) data under the given mode.
func refRaw(mode string, key, iv, data []byte) []byte {
	blk, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(data))
	switch mode {
	case "ecb":
		for i := 0; i < len(data); i += 16 {
			blk.Encrypt(out[i:i+16], data[i:i+16])
		}
		return out
	case "cbc":
		prev := iv
		for i := 0; i < len(data); i += 16 {
			var x [16]byte
			for j := range x {
				x[j] = data[i+j] ^ prev[j]
			}
			blk.Encrypt(out[i:i+16], x[:])
			prev = out[i : i+16]
		}
	case "ctr":
		ctr := bytes.Clone(iv)
		for i := 0; i < len(data); i += 16 {
			var ks [16]byte
			blk.Encrypt(ks[:], ctr)
			for j := 0; j < 16 && i+j < len(data); j++ {
				out[i+j] = data[i+j] ^ ks[j]
			}
			for j := 15; j >= 0; j-- {
				ctr[j]++
				if ctr[j] != 0 {
					break
				}
			}
		}
	}
	return append(bytes.Clone(iv), out...)
}

// refDecrypt is the oracle of decryption of arbitrary input.
func refDecrypt(mode string, key, text []byte, b64 bool) ([]byte, bool) {
	var raw []byte
	var err error
	if b64 {
		raw, err = base64.RawURLEncoding.DecodeString(string(text))
	} else {
		raw, err = hex.DecodeString(string(text))
	}
	if err != nil {
		return nil, false
	}
	blk, err := aes.NewCipher(key)
	if err != nil {
		return nil, false
	}
	switch mode {
	case "ecb":
		if len(raw) == 0 || len(raw)%16 != 0 {
			return nil, false
		}
		out := make([]byte, len(raw))
		for i := 0; i < len(raw); i += 16 {
			blk.Decrypt(out[i:i+16], raw[i:i+16])
		}
		return refUnpad(out)
	case "cbc":
		if len(raw) < 32 || len(raw)%16 != 0 {
			return nil, false
		}
		iv, body := raw[:16], raw[16:]
		out := make([]byte, len(body))
		cipher.NewCBCDecrypter(blk, iv).CryptBlocks(out, body)
		return refUnpad(out)
	default:
		if len(raw) < 16 {
			return nil, false
		}
		out := refRaw("ctr", key, raw[:16], raw[16:])
		return out[16:], true
	}
}

func refEncode(raw []byte, b64 bool) []byte {
	if b64 {
		return []byte(base64.RawURLEncoding.EncodeToString(raw))
	}
	return []byte(hex.EncodeToString(raw))
}

func isB64(enc []bool) bool { return len(enc) > 0 && enc[0] }

var encryptors = map[string]func(k, p []byte, b ...bool) []byte{
	"ecb": cryptox.AESEncrypt, "cbc": cryptox.AESCBCEncrypt, "ctr": cryptox.AESCTREncrypt,
}
var decryptors = map[string]func(k, p []byte, b ...bool) ([]byte, error){
	"ecb": cryptox.AESDecrypt, "cbc": cryptox.AESCBCDecrypt, "ctr": cryptox.AESCTRDecrypt,
}

// guarded holds data inside a larger buffer, with spare capacity, so that any
// write outside or inside it is seen.
type guarded struct {
	buf, orig []byte
	lo, hi    int
}

func guard(data []byte, before, after int) *guarded {
	g := &guarded{buf: make([]byte, before+len(data)+after), lo: before, hi: before + len(data)}
	for i := range g.buf {
		g.buf[i] = byte(0xA5 + 7*i)
	}
	copy(g.buf[g.lo:], data)
	g.orig = bytes.Clone(g.buf)
	return g
}
func (g *guarded) b() []byte { return g.buf[g.lo:g.hi] }
func (g *guarded) check(what string) error {
	for i := range g.buf {
		if g.buf[i] != g.orig[i] {
			where := "inside the input"
			if i < g.lo || i >= g.hi {
				where = "outside the input, in the same buffer"
			}
			return pbt.Errf("%s: byte %d (%s; input is [%d,%d)) changed from %#x to %#x", what, i, where, g.lo, g.hi, g.orig[i], g.buf[i])
		}
	}
	return nil
}

type aesPlan struct {
	Mode           string
	Key, Plain, IV []byte
	Enc            []bool
	Before, After  int
	Repeat         bool
}

func genKey(t *rapid.T) []byte {
	n := rapid.SampledFrom([]int{16, 24, 32}).Draw(t, "keylen")
	return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "key")
}

func genPlainLen(t *rapid.T) int {
	switch rapid.IntRange(0, 5).Draw(t, "plen.class") {
	case 0:
		return rapid.IntRange(0, 1).Draw(t, "plen")
	case 1, 2:
		return max(0, 16*rapid.IntRange(0, 6).Draw(t, "blocks")+rapid.IntRange(-1, 1).Draw(t, "off"))
	case 3:
		if rapid.IntRange(0, 5).Draw(t, "plen.big") == 5 {
			return rapid.IntRange(600, 20000).Draw(t, "plen")
		}
		return rapid.IntRange(0, 600).Draw(t, "plen")
	default:
		return rapid.IntRange(0, 80).Draw(t, "plen")
	}
}

var encodings = [][]bool{nil, {}, {false}, {true}, {true, false}, {false, true}}

func genBytes(t *rapid.T, n int, label string) []byte {
	if n <= 700 {
		return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, label)
	}
	x := rapid.Uint64().Draw(t, label+".seed")
	out := make([]byte, n)
	for i := range out {
		x = x*6364136223846793005 + 1442695040888963407
		out[i] = byte(x >> 56)
	}
	return out
}

func TestC31_RoundTrip(t *testing.T) {
	pbt.Check(t, pbt.Prop[aesPlan]{
		Rule: "mode, 16/24/32-byte key, plaintext of 0..600 (now and then 20000) bytes around block multiples, text encoding, input inside a larger buffer with spare capacity; " +
			"non-trivial: plaintext of more than one block and spare capacity behind it",
		Cases: 6000,
		Gen: func(t *rapid.T) aesPlan {
			p := aesPlan{Mode: rapid.SampledFrom([]string{"ecb", "cbc", "ctr"}).Draw(t, "mode"), Key: genKey(t),
				Enc:    rapid.SampledFrom(encodings).Draw(t, "enc"),
				Before: rapid.IntRange(0, 3).Draw(t, "before"), After: rapid.SampledFrom([]int{0, 0, 1, 15, 16, 17, 64}).Draw(t, "after"),
				Repeat: rapid.IntRange(0, 19).Draw(t, "repeat") == 0}
			p.Plain = genBytes(t, genPlainLen(t), "plain")
			p.IV = genBytes(t, 16, "iv")
			carry(t, p.IV)
			return p
		},
		Run: runRoundTrip,
	})
}

// carry makes some initial counters overflow within a message: bytes from
// anywhere on are 0xff, except perhaps the last two.
func carry(t *rapid.T, iv []byte) {
	if rapid.IntRange(0, 2).Draw(t, "ffiv") == 0 {
		to := 16 - rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "ffto")
		for i := rapid.IntRange(0, 15).Draw(t, "ffi"); i < to; i++ {
			iv[i] = 0xff
		}
	}
}

func runRoundTrip(c *pbt.Ctx, p aesPlan) error {
	b64 := isB64(p.Enc)
	c.Label(fmt.Sprintf("%s/%d/b64=%v", p.Mode, len(p.Key)*8, b64))
	if len(p.Plain) > 16 && p.After > 0 {
		c.NonTrivial()
	}
	c.LabelIf(len(p.Plain)%16 == 0, "whole blocks")
	c.LabelIf(len(p.Plain) == 0, "empty")
	k, in := guard(p.Key, p.Before, p.After), guard(p.Plain, p.Before, p.After)
	unchanged := func(what string) error {
		if err := k.check(what + ": key"); err != nil {
			return err
		}
		return in.check(what + ": input")
	}
	ct := encryptors[p.Mode](k.b(), in.b(), p.Enc...)
	if err := unchanged("encrypt " + p.Mode); err != nil {
		return err
	}
	var raw []byte
	var err error
	if b64 {
		raw, err = base64.RawURLEncoding.DecodeString(string(ct))
	} else {
		raw, err = hex.DecodeString(string(ct))
	}
	if err != nil {
		return pbt.Errf("ciphertext %q does not decode: %v", ct, err)
	}
	if !bytes.Equal(ct, refEncode(raw, b64)) {
		return pbt.Errf("ciphertext %q is not canonically encoded", ct)
	}
	var iv []byte
	data := p.Plain
	if p.Mode != "ecb" {
		if len(raw) < 16 {
			return pbt.Errf("ciphertext has no room for the vector: %x", raw)
		}
		iv = raw[:16]
	}
	if p.Mode != "ctr" {
		data = refPad(p.Plain)
	}
	if want := refRaw(p.Mode, p.Key, iv, data); !bytes.Equal(raw, want) {
		return pbt.Errf("%s ciphertext %x, the standard one under that vector is %x", p.Mode, raw, want)
	}
	ctg := guard(ct, p.Before, p.After)
	pt, err := decryptors[p.Mode](k.b(), ctg.b(), p.Enc...)
	if err != nil || !bytes.Equal(pt, p.Plain) {
		return pbt.Errf("%s round trip: got %x, %v; want %x", p.Mode, pt, err, p.Plain)
	}
	if err := unchanged("decrypt " + p.Mode); err != nil {
		return err
	}
	if err := ctg.check("decrypt " + p.Mode + ": ciphertext"); err != nil {
		return err
	}
	// A ciphertext made by the reference implementation decrypts.
	ext := refEncode(refRaw(p.Mode, p.Key, p.IV, data), b64)
	extg := guard(ext, p.Before, p.After)
	pt, err = decryptors[p.Mode](k.b(), extg.b(), p.Enc...)
	if err != nil || !bytes.Equal(pt, p.Plain) {
		return pbt.Errf("%s of a foreign ciphertext %q: got %x, %v; want %x", p.Mode, ext, pt, err, p.Plain)
	}
	if err := extg.check("decrypt " + p.Mode + ": foreign ciphertext"); err != nil {
		return err
	}
	if p.Mode != "ecb" && p.Repeat {
		seen := map[string]bool{string(iv): true}
		varied := [16]bool{}
		for i := 0; i < 24; i++ {
			x := encryptors[p.Mode](p.Key, p.Plain)
			r, err := hex.DecodeString(string(x))
			if err != nil || len(r) < 16 {
				return pbt.Errf("bad ciphertext %q", x)
			}
			if seen[string(r[:16])] {
				return pbt.Errf("%s reused the vector %x", p.Mode, r[:16])
			}
			seen[string(r[:16])] = true
			for j := range varied {
				varied[j] = varied[j] || r[j] != iv[j]
			}
		}
		for j := range varied {
			if !varied[j] {
				return pbt.Errf("%s: byte %d of the vector never changed in 25 encryptions", p.Mode, j)
			}
		}
	}
	return unchanged("after " + p.Mode)
}

type decPlan struct {
	Mode          string
	Key, Text     []byte
	Enc           []bool
	Before, After int
	How           string
}

func TestC32_ArbitraryCiphertext(t *testing.T) {
	pbt.Check(t, pbt.Prop[decPlan]{
		Rule: "ciphertexts of crafted paddings (last byte 0, 1..16, above 16; consistent or with one byte off), mutated valid ones, encodings of arbitrary lengths, raw garbage; keys of any length; " +
			"non-trivial: the text decodes to at least one block under a valid key",
		Cases: 9000,
		Gen: func(t *rapid.T) decPlan {
			p := decPlan{Mode: rapid.SampledFrom([]string{"ecb", "cbc", "ctr"}).Draw(t, "mode"), Key: genKey(t),
				Enc:    rapid.SampledFrom(encodings).Draw(t, "enc"),
				Before: rapid.IntRange(0, 2).Draw(t, "before"), After: rapid.IntRange(0, 20).Draw(t, "after"),
				How: rapid.SampledFrom([]string{"pad", "pad", "pad", "pad", "mutate", "mutate", "length", "garbage", "badkey"}).Draw(t, "how")}
			b64 := isB64(p.Enc)
			iv := genBytes(t, 16, "iv")
			carry(t, iv)
			switch p.How {
			case "pad":
				nb := rapid.IntRange(1, 4).Draw(t, "blocks")
				data := genBytes(t, 16*nb, "data")
				last := rapid.SampledFrom([]int{0, 1, 2, 15, 16, 17, 31, 32, 33, 48, 255, -1}).Draw(t, "last")
				if last < 0 {
					last = int(rapid.Byte().Draw(t, "lastb"))
				}
				fill := rapid.IntRange(1, max(1, min(last, len(data)))).Draw(t, "fill")
				if rapid.Bool().Draw(t, "full") {
					fill = min(max(last, 1), len(data))
				}
				for i := len(data) - fill; i < len(data); i++ {
					data[i] = byte(last)
				}
				if rapid.IntRange(0, 3).Draw(t, "spoil") == 0 {
					i := rapid.IntRange(len(data)-fill, len(data)-1).Draw(t, "spoilAt")
					data[i] ^= byte(1 << rapid.IntRange(0, 7).Draw(t, "bit"))
				}
				p.Text = refEncode(refRaw(p.Mode, p.Key, iv, data), b64)
			case "mutate":
				data := genBytes(t, genPlainLen(t), "data")
				if p.Mode != "ctr" {
					data = refPad(data)
				}
				p.Text = refEncode(refRaw(p.Mode, p.Key, iv, data), b64)
				for n := rapid.IntRange(0, 2).Draw(t, "muts"); n > 0 && len(p.Text) > 0; n-- {
					i := rapid.IntRange(0, len(p.Text)-1).Draw(t, "at")
					switch rapid.IntRange(0, 4).Draw(t, "mut") {
					case 0:
						p.Text[i] = rapid.Byte().Draw(t, "b")
					case 1:
						p.Text = p.Text[:i]
					case 2:
						p.Text = append(p.Text[:i:i], p.Text[min(len(p.Text), i+rapid.SampledFrom([]int{1, 2, 32}).Draw(t, "cut")):]...)
					case 3:
						p.Text = append(p.Text[:i:i], append([]byte(rapid.SampledFrom([]string{"\n", "=", "00", "g", "A", "-", "+", "\x00"}).Draw(t, "ins")), p.Text[i:]...)...)
					case 4:
						p.Text = bytes.ToUpper(p.Text)
					}
				}
			case "length":
				p.Text = refEncode(genBytes(t, rapid.IntRange(0, 100).Draw(t, "n"), "raw"), b64)
			case "garbage":
				p.Text = pbt.ByteString(t, 60, []string{"0", "a", "F", "_", "-", "=", "zz"})
			case "badkey":
				p.Key = genBytes(t, rapid.IntRange(0, 40).Draw(t, "klen"), "badkey")
				p.Text = refEncode(genBytes(t, 16*rapid.IntRange(0, 4).Draw(t, "nb"), "raw"), b64)
			}
			return p
		},
		Run: runDecrypt,
	})
}

func runDecrypt(c *pbt.Ctx, p decPlan) error {
	k, in := guard(p.Key, p.Before, p.After), guard(p.Text, p.Before, p.After)
	want, ok := refDecrypt(p.Mode, p.Key, p.Text, isB64(p.Enc))
	c.Label(fmt.Sprintf("%s/accept=%v", p.Mode, ok))
	c.Label("how=" + p.How)
	if (len(p.Key) == 16 || len(p.Key) == 24 || len(p.Key) == 32) && len(p.Text) >= 22 {
		if p.How == "pad" || p.How == "mutate" || p.How == "length" {
			c.NonTrivial()
		}
	}
	got, err := decryptors[p.Mode](k.b(), in.b(), p.Enc...)
	if ok && (err != nil || !bytes.Equal(got, want)) {
		return pbt.Errf("%s decrypt of %q under key %x: got %x, %v; want %x", p.Mode, p.Text, p.Key, got, err, want)
	}
	if !ok && err == nil {
		return pbt.Errf("%s decrypt of %q under key %x: accepted as %x, must be an error", p.Mode, p.Text, p.Key, got)
	}
	if e := k.check("key"); e != nil {
		return e
	}
	return in.check("ciphertext")
}

type digestPlan struct {
	Data  []byte
	Rep   int
	Split []int
}

func refFnv32(b []byte) uint32 {
	h := uint32(2166136261)
	for _, x := range b {
		h = (h ^ uint32(x)) * 16777619
	}
	return h
}

func refFnv64(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

func TestC33_Digests(t *testing.T) {
	pbt.Check(t, pbt.Prop[digestPlan]{
		Rule: "inputs of 0..200 random bytes repeated up to 700 times, digested from four goroutines at once and compared with streaming digests over random chunks and a direct FNV-1a; " +
			"non-trivial: more than one 64-byte block",
		Cases: 2500,
		Gen: func(t *rapid.T) digestPlan {
			p := digestPlan{Rep: 1}
			p.Data = genBytes(t, rapid.SampledFrom([]int{0, 1, 3, 55, 56, 57, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 200}).Draw(t, "n"), "data")
			if rapid.Bool().Draw(t, "anylen") {
				p.Data = genBytes(t, rapid.IntRange(0, 200).Draw(t, "n2"), "data2")
			}
			if rapid.IntRange(0, 9).Draw(t, "big") == 0 {
				p.Rep = rapid.IntRange(2, 700).Draw(t, "rep")
			}
			p.Split = rapid.SliceOfN(rapid.IntRange(1, 100), 1, 5).Draw(t, "split")
			return p
		},
		Run: runDigests,
	})
}

func runDigests(c *pbt.Ctx, p digestPlan) error {
	data := bytes.Repeat(p.Data, p.Rep)
	if len(data) > 64 {
		c.NonTrivial()
	}
	c.LabelIf(len(data) == 0, "empty")
	c.LabelIf(len(data) > 10000, "large")
	stream := func(h hash.Hash) string {
		rest := data
		for i := 0; len(rest) > 0; i++ {
			n := min(len(rest), p.Split[i%len(p.Split)])
			h.Write(rest[:n])
			rest = rest[n:]
		}
		return fmt.Sprintf("%x", h.Sum(nil))
	}
	want := [6]string{stream(md5.New()), stream(sha1.New()), stream(sha256.New()), stream(sha512.New()),
		fmt.Sprint(refFnv32(data)), fmt.Sprint(refFnv64(data))}
	g := guard(data, 2, 9)
	const n = 4
	var got [n][6]string
	var wg sync.WaitGroup
	for i := range n {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := g.b()
			got[i] = [6]string{cryptox.Md5(b), cryptox.Sha1(b), cryptox.Sha256(b), cryptox.Sha512(b),
				fmt.Sprint(cryptox.Fnv1aToUint32(b)), fmt.Sprint(cryptox.Fnv1aToUint64(b))}
		}()
	}
	wg.Wait()
	names := [6]string{"Md5", "Sha1", "Sha256", "Sha512", "Fnv1aToUint32", "Fnv1aToUint64"}
	for i := range n {
		for j := range names {
			if got[i][j] != want[j] {
				return pbt.Errf("%s of %d bytes: got %s, want %s", names[j], len(data), got[i][j], want[j])
			}
		}
	}
	return g.check("digest input")
}
