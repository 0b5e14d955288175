package library

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/miniLCT/gosb/library/stringx"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// ---- C35 --------------------------------------------------------------------

type jsonPlan struct {
	S      []byte
	Escape bool
}

func TestC35_StringMarshalJSON(t *testing.T) {
	toks := []string{"\"", "\\", "\n", "\r", "\t", "\b", "\f", "\x00", "\x01", "\x1f", "\x7f", "<", ">", "&", "</script>", "\u2028", "\u2029", "\u2027", "\u202a", "\u2030",
		"\xe2\x80", "\xe2", "\xe2\x80\xa7", "\xc3", "\xff", "\xed\xa0\x80", "\xf0\x9f\x98\x80", "\xf0\x9f\x98", "\ufffd", "é", "\u0080", "plain", "'", "/", "`", "\\u2028", "\\n"}
	pbt.Check(t, pbt.Prop[jsonPlan]{
		Rule:  "strings of up to 60 tokens mixing escapes, control characters, HTML characters, line separators, truncated and invalid UTF-8 and plain text; non-trivial: contains an invalid byte or a character that needs escaping next to plain text",
		Cases: 20000,
		Gen: func(t *rapid.T) jsonPlan {
			return jsonPlan{S: pbt.ByteString(t, 60, toks), Escape: rapid.Bool().Draw(t, "escape")}
		},
		Run: runJSON,
	})
}

func runJSON(c *pbt.Ctx, p jsonPlan) error {
	in := string(p.S)
	keep := strings.Clone(in)
	out := stringx.StringMarshalJSON(in, p.Escape)
	if in != keep {
		return pbt.Errf("input modified: %q became %q", keep, in)
	}
	var text strings.Builder
	special, plain := false, false
	for i := 0; i < len(p.S); {
		r, n := utf8.DecodeRune(p.S[i:])
		text.WriteRune(r)
		if (r == utf8.RuneError && n == 1) || r < 0x20 || strings.ContainsRune("\"\\<>&\u2028\u2029", r) {
			special = true
		} else {
			plain = true
		}
		c.LabelIf(r == utf8.RuneError && n == 1, "invalid byte")
		i += n
	}
	want := text.String()
	if special && plain {
		c.NonTrivial()
	}
	if !utf8.Valid(out) {
		return pbt.Errf("%q -> %q: not valid UTF-8", p.S, out)
	}
	if len(out) < 2 || out[0] != '"' || out[len(out)-1] != '"' {
		return pbt.Errf("%q -> %q: not a JSON string literal", p.S, out)
	}
	var dec string
	if err := json.Unmarshal(out, &dec); err != nil {
		return pbt.Errf("%q -> %q: not valid JSON: %v", p.S, out, err)
	}
	if dec != want {
		return pbt.Errf("%q -> %q: decodes to %q, want %q", p.S, out, dec, want)
	}
	for _, b := range out {
		if b < 0x20 {
			return pbt.Errf("%q -> %q: raw control character %#x", p.S, out, b)
		}
		if p.Escape && (b == '<' || b == '>' || b == '&') {
			return pbt.Errf("%q -> %q: raw %q with HTML escaping", p.S, out, b)
		}
	}
	if strings.ContainsAny(string(out), "\u2028\u2029") {
		return pbt.Errf("%q -> %q: raw line separator", p.S, out)
	}
	return nil
}

// ---- C36 --------------------------------------------------------------------

type casePlan struct{ S []byte }

func isUpperASCII(b byte) bool { return b >= 'A' && b <= 'Z' }

// snakeCandidates lists the acceptable snake forms: an underscore goes before
// the first capital after each stretch of other characters; whether one is
// added directly behind an existing underscore is left open.
func snakeCheck(in, out string) error {
	low := strings.ToLower
	// Walk both: out must be low(in) with underscores inserted at the right places.
	var parts []string // pieces between possible insertion points
	var must []int     // 1: required, 2: optional, before parts[i]
	start := 0
	stretch := false // a character other than capital or underscore came since the last capital
	for i := 0; i < len(in); i++ {
		b := in[i]
		switch {
		case isUpperASCII(b):
			if stretch {
				parts = append(parts, in[start:i])
				if i > 0 && in[i-1] == '_' {
					must = append(must, 2)
				} else {
					must = append(must, 1)
				}
				start = i
				stretch = false
			} else if i > 0 && in[i-1] == '_' {
				parts = append(parts, in[start:i])
				must = append(must, 2)
				start = i
			}
		case b != '_':
			stretch = true
		}
	}
	parts = append(parts, in[start:])
	rest := out
	for i, p := range parts {
		lp := low(p)
		if !strings.HasPrefix(rest, lp) {
			return pbt.Errf("SnakeString(%q) = %q: does not continue with %q at %q", in, out, lp, rest)
		}
		rest = rest[len(lp):]
		if i < len(must) {
			nxt := low(parts[i+1])
			switch {
			case must[i] == 1:
				if !strings.HasPrefix(rest, "_"+nxt) {
					return pbt.Errf("SnakeString(%q) = %q: no underscore before %q", in, out, nxt)
				}
				rest = rest[1:]
			case strings.HasPrefix(rest, "_"+nxt) && !strings.HasPrefix(rest, nxt):
				rest = rest[1:]
			}
		}
	}
	if rest != "" {
		return pbt.Errf("SnakeString(%q) = %q: extra %q", in, out, rest)
	}
	return nil
}

func fold(r rune) rune { return unicode.ToLower(unicode.ToUpper(r)) }

func lettersDigits(s string) string {
	var sb strings.Builder
	for _, r := range s {
		// a letter is what a change of case can make one: U+0345 is a mark, its capital a letter
		if unicode.IsLetter(fold(r)) || unicode.IsDigit(r) {
			sb.WriteRune(fold(r))
		}
	}
	return sb.String()
}

func TestC36_AnyText(t *testing.T) {
	toks := []string{"_", "__", "A", "B", "Z", "a", "b", "z", "0", "9", "1", "id", "ID", "Id", "api", "Http", "uuid", "é", "É", "ß", "İ", "ı", "ſ", "\u212a", "ǅ", "日", "２", "-", " ", ".", "\xff", "\xc3", "[", "@", "`", "{"}
	pbt.Check(t, pbt.Prop[casePlan]{
		Rule:  "strings of up to 30 tokens of letters, capitals, digits, underscores, initialisms, non-ASCII letters and invalid UTF-8 through all three conversions; letters and digits stay, and of the underscores the lint conversion keeps one between two digits and no other; non-trivial: valid UTF-8 with an underscore, a capital and a small letter",
		Cases: 20000,
		Gen:   func(t *rapid.T) casePlan { return casePlan{pbt.ByteString(t, 30, toks)} },
		Run:   runCase,
	})
}

func runCase(c *pbt.Ctx, p casePlan) error {
	in := string(p.S)
	keep := strings.Clone(in)
	sn, ca, li := stringx.SnakeString(in), stringx.CamelString(in), stringx.LintCamelString(in)
	if in != keep {
		return pbt.Errf("input modified: %q became %q", keep, in)
	}
	if !utf8.ValidString(in) {
		c.Label("invalid UTF-8")
		return nil
	}
	if strings.Contains(in, "_") && strings.IndexFunc(in, unicode.IsUpper) >= 0 && strings.IndexFunc(in, unicode.IsLower) >= 0 {
		c.NonTrivial()
	}
	if err := snakeCheck(in, sn); err != nil {
		return err
	}
	if again := stringx.SnakeString(sn); again != sn {
		return pbt.Errf("SnakeString is not idempotent on %q: %q then %q", in, sn, again)
	}
	want := lettersDigits(in)
	for _, x := range []struct{ n, s string }{{"SnakeString", sn}, {"CamelString", ca}, {"LintCamelString", li}} {
		if got := lettersDigits(x.s); got != want {
			return pbt.Errf("%s(%q) = %q changes the letters and digits: %q, want %q", x.n, in, x.s, got, want)
		}
	}
	// underscores: the lint conversion keeps one between two digits and no other
	if strings.Trim(in, "_") != "" {
		if got, want := underscores(li), lintUnderscores(in); got != want {
			return pbt.Errf("LintCamelString(%q) = %q: underscores as in %s, want %s", in, li, got, want)
		}
	}
	return nil
}

// underscores shows where s has underscores.
func underscores(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '_' {
			return r
		}
		return 'x'
	}, s)
}

// lintUnderscores shows where the lint conversion of s has underscores.
func lintUnderscores(s string) string {
	var sb strings.Builder
	digit, gap := false, false
	for _, r := range strings.Trim(s, "_") {
		if r == '_' {
			gap = true
			continue
		}
		if gap && digit && unicode.IsDigit(r) {
			sb.WriteByte('_')
		}
		sb.WriteByte('x')
		digit, gap = unicode.IsDigit(r), false
	}
	return sb.String()
}

type wordsPlan struct {
	Words []string
	Lint  bool
}

var initialisms = strings.Fields("ACL API ASCII CPU CSS DNS EOF GUID HTML HTTP HTTPS ID IP JSON LHS QPS RAM RHS RPC SLA SMTP SQL SSH TCP TLS TTL UDP UI UID UUID URI URL VM XML XMPP XSRF XSS")

var isInit = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range initialisms {
		m[strings.ToLower(w)] = true
	}
	return m
}()

func capital(w string) string { return strings.ToUpper(w[:1]) + w[1:] }

func TestC36_Identifiers(t *testing.T) {
	pbt.Check(t, pbt.Prop[wordsPlan]{
		Rule:  "identifiers of 1..6 words of at least two characters (the last: one) starting with a letter, joined in snake or camel form, converted forth and back, and (letters only, with common initialisms mixed in) through the lint conversion; non-trivial: at least two words",
		Cases: 12000,
		Gen: func(t *rapid.T) wordsPlan {
			lint := rapid.Bool().Draw(t, "lint")
			n := rapid.IntRange(1, 6).Draw(t, "n")
			p := wordsPlan{Lint: lint}
			for i := 0; i < n; i++ {
				var w string
				switch {
				case lint && rapid.Bool().Draw(t, "init"):
					w = strings.ToLower(rapid.SampledFrom(initialisms).Draw(t, "w"))
				case lint:
					w = rapid.StringMatching(`[a-z]{2,7}`).Draw(t, "w")
				default:
					w = rapid.StringMatching(`[a-z][a-z0-9]{1,6}`).Draw(t, "w")
				}
				if i == n-1 && rapid.IntRange(0, 3).Draw(t, "short") == 0 {
					w = w[:1]
				}
				p.Words = append(p.Words, w)
			}
			return p
		},
		Run: runWords,
	})
}

func runWords(c *pbt.Ctx, p wordsPlan) error {
	if len(p.Words) > 1 {
		c.NonTrivial()
	}
	snake := strings.Join(p.Words, "_")
	var sc, sl strings.Builder
	for _, w := range p.Words {
		sc.WriteString(capital(w))
		if isInit[w] {
			sl.WriteString(strings.ToUpper(w))
			c.Label("initialism")
		} else {
			sl.WriteString(capital(w))
		}
	}
	camel, lint := sc.String(), sl.String()
	if got := stringx.CamelString(snake); got != camel {
		return pbt.Errf("CamelString(%q) = %q, want %q", snake, got, camel)
	}
	if got := stringx.SnakeString(camel); got != snake {
		return pbt.Errf("SnakeString(%q) = %q, want %q", camel, got, snake)
	}
	if got := stringx.SnakeString(stringx.CamelString(snake)); got != snake {
		return pbt.Errf("snake -> camel -> snake of %q gives %q", snake, got)
	}
	if got := stringx.CamelString(stringx.SnakeString(camel)); got != camel {
		return pbt.Errf("camel -> snake -> camel of %q gives %q", camel, got)
	}
	if got := stringx.CamelString(camel); got != camel {
		return pbt.Errf("CamelString(%q) = %q changes an identifier in camel form", camel, got)
	}
	if got := stringx.SnakeString(snake); got != snake {
		return pbt.Errf("SnakeString(%q) = %q changes an identifier in snake form", snake, got)
	}
	if p.Lint {
		for _, in := range []string{snake, camel, strings.ToLower(p.Words[0]) + camel[len(p.Words[0]):]} {
			if got := stringx.LintCamelString(in); got != lint {
				return pbt.Errf("LintCamelString(%q) = %q, want %q", in, got, lint)
			}
		}
	}
	return nil
}

// ---- C37 --------------------------------------------------------------------

type decodePlan struct {
	S    []byte
	Base int
}

func alnum(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

func digitVal(b byte) int {
	switch {
	case b >= '0' && b <= '9':
		return int(b - '0')
	case b >= 'a' && b <= 'z':
		return int(b-'a') + 10
	case b >= 'A' && b <= 'Z':
		return int(b-'A') + 10
	}
	return 99
}

// number gives the character of a digit string in base, or false.
func number(d string, base int) (string, bool) {
	if d == "" {
		return "", false
	}
	for i := 0; i < len(d); i++ {
		if digitVal(d[i]) >= base {
			return "", false
		}
	}
	if d = strings.TrimLeft(d, "0"); len(d) > 40 {
		return "", false
	}
	v := new(big.Int)
	for i := 0; i < len(d); i++ {
		k := digitVal(d[i])
		v.Mul(v, big.NewInt(int64(base))).Add(v, big.NewInt(int64(k)))
	}
	if v.Cmp(big.NewInt(1<<31-1)) > 0 {
		return "", false
	}
	n := v.Int64()
	if n > 0x10FFFF || (n >= 0xD800 && n <= 0xDFFF) {
		return "\ufffd", true
	}
	return string(rune(n)), true
}

func refEntity(s string, base int) (string, int) {
	var sb strings.Builder
	n := 0
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], "&#") {
			j := i + 2
			for j < len(s) && alnum(s[j]) {
				j++
			}
			if j > i+2 {
				d := s[i+2 : j]
				for j < len(s) && s[j] == ';' {
					j++
				}
				if c, ok := number(d, base); ok {
					sb.WriteString(c)
					n++
				} else {
					sb.WriteString(s[i:j])
				}
				i = j
				continue
			}
		}
		sb.WriteByte(s[i])
		i++
	}
	return sb.String(), n
}

func refCodePoint(s string, base int) (string, int) {
	maxDigits := 0
	for v := 0xFFFF; v > 0; v /= base {
		maxDigits++
	}
	var sb strings.Builder
	n := 0
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], `\u`) {
			j := i + 2
			for j < len(s) && j < i+2+maxDigits && digitVal(s[j]) < base {
				j++
			}
			if c, ok := number(s[i+2:j], base); ok {
				sb.WriteString(c)
				n++
				i = j
				continue
			}
		}
		sb.WriteByte(s[i])
		i++
	}
	return sb.String(), n
}

func genBase(t *rapid.T) int {
	switch rapid.IntRange(0, 5).Draw(t, "base.class") {
	case 0, 1, 2:
		return 16
	case 3:
		return 10
	default:
		return rapid.IntRange(2, 36).Draw(t, "base")
	}
}

// genDigits draws a digit string, usually valid in base and of escape-like size.
func genDigits(t *rapid.T, base int) string {
	const all = "0123456789abcdefghijklmnopqrstuvwxyz"
	switch rapid.IntRange(0, 9).Draw(t, "d.class") {
	case 0:
		return rapid.StringMatching(`[0-9a-zA-Z]{1,12}`).Draw(t, "d")
	case 1:
		return big.NewInt(rapid.SampledFrom([]int64{0, 1, 0x26, 0x5c, 0x7f, 0x80, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 1<<31 - 1, 1 << 31, 1 << 33}).Draw(t, "v")).Text(base)
	case 2, 3, 4:
		d := big.NewInt(int64(rapid.IntRange(0, 0xFFFF).Draw(t, "v"))).Text(base)
		if rapid.Bool().Draw(t, "up") {
			d = strings.ToUpper(d)
		}
		return strings.Repeat("0", rapid.IntRange(0, 3).Draw(t, "lead")) + d
	default:
		n := rapid.IntRange(0, 6).Draw(t, "dn")
		b := make([]byte, n)
		for i := range b {
			b[i] = all[rapid.IntRange(0, base-1).Draw(t, "dd")]
		}
		return string(b)
	}
}

func genEscapes(t *rapid.T, prefix string, base int, filler []string) []byte {
	var out []byte
	n := rapid.IntRange(0, 10).Draw(t, "n")
	prev := []string{}
	for i := 0; i < n; i++ {
		switch k := rapid.IntRange(0, 9).Draw(t, "k"); {
		case k < 5:
			d := genDigits(t, base)
			if len(prev) > 0 && rapid.IntRange(0, 2).Draw(t, "ext") == 0 {
				// a number that extends or shortens an earlier one
				d = rapid.SampledFrom(prev).Draw(t, "prev") + rapid.SampledFrom([]string{"", "0", "1", "f"}).Draw(t, "suf")
				if rapid.Bool().Draw(t, "cut") && len(d) > 1 {
					d = d[:len(d)-1]
				}
			}
			prev = append(prev, d)
			out = append(out, prefix+d...)
			out = append(out, rapid.SampledFrom([]string{"", "", ";", ";;"}).Draw(t, "semi")...)
		case k < 8:
			out = append(out, rapid.SampledFrom(filler).Draw(t, "fill")...)
		default:
			out = append(out, pbt.ByteString(t, 4, filler)...)
		}
	}
	return out
}

func decodeCheck(t *testing.T, name, prefix string, filler []string, f func(string, int) string, ref func(string, int) (string, int)) {
	pbt.Check(t, pbt.Prop[decodePlan]{
		Rule: "texts of up to 10 pieces: escapes with numbers of any size (valid in the base or not, some extending another one in the same text), broken escapes, plain text made of digits and of the same prefix characters, invalid UTF-8; bases 2..36, mostly 16 and 10; " +
			"non-trivial: at least one valid escape and other text around it",
		Cases: 25000,
		Gen: func(t *rapid.T) decodePlan {
			b := genBase(t)
			return decodePlan{genEscapes(t, prefix, b, filler), b}
		},
		Run: decodeRun(name, f, ref),
	})
}

func decodeRun(name string, f func(string, int) string, ref func(string, int) (string, int)) func(*pbt.Ctx, decodePlan) error {
	return func(c *pbt.Ctx, p decodePlan) error {
		s := string(p.S)
		want, n := ref(s, p.Base)
		c.LabelIf(n == 0, "no escape")
		c.LabelIf(n > 1, "several escapes")
		if n > 0 && len(s) > 8 {
			c.NonTrivial()
		}
		if got := f(s, p.Base); got != want {
			return pbt.Errf("%s(%q, %d) = %q, want %q", name, s, p.Base, got, want)
		}
		for _, b := range []int{-1, 0, 1, 37} { // unsupported bases: any answer, no panic
			if _, did := pbt.Panics(func() { f(s, b) }); did {
				return pbt.Errf("%s(%q, %d) panics", name, s, b)
			}
		}
		return nil
	}
}

func TestC37_HTMLEntity(t *testing.T) {
	decodeCheck(t, "HTMLEntityToUTF8", "&#", []string{"&", "#", "&#", "&#;", "&#x41;", "&amp;", ";", "12", "7c", "ff", "plain ", "é", "&&##65;", "\xff", "\x00"}, stringx.HTMLEntityToUTF8, refEntity)
}

func TestC37_CodePoint(t *testing.T) {
	decodeCheck(t, "CodePointToUTF8", `\u`, []string{`\`, `u`, `\u`, `\U0041`, `\\u0041`, `\n`, "12", "7c", "ff", "cafe", "plain ", "é", "\xff", "\x00", "0041"}, stringx.CodePointToUTF8, refCodePoint)
}

// ---- C38 --------------------------------------------------------------------

type spacePlan struct {
	S     []byte
	Runs  []int // a run of this many copies of Unit[i] follows S
	Units [][]byte
}

var spaces = []string{"\t", "\n", "\v", "\f", "\r", " ", "\u0085", "\u00a0"}

// lex splits into words and runs of spaces, each space one element.
func lex(s string) (words []string, runs [][]string) {
	w := 0
	inRun := false
	words = []string{}
	for i := 0; i < len(s); {
		sp := ""
		for _, x := range spaces {
			if strings.HasPrefix(s[i:], x) {
				sp = x
				break
			}
		}
		if sp == "" {
			inRun = false
			i++
			continue
		}
		if !inRun {
			words = append(words, s[w:i])
			runs = append(runs, nil)
			inRun = true
		}
		runs[len(runs)-1] = append(runs[len(runs)-1], sp)
		i += len(sp)
		w = i
	}
	words = append(words, s[w:])
	return
}

func TestC38_SpaceInOne(t *testing.T) {
	toks := append([]string{"  ", "\r\n", "\r\n\r\n", " \n", "\t ", " \t", "\n ", "\t\n", "\n\t", "word", "x", "\u2003", "\u3000", "\xc2", "\x85", "\xa0", "\u0085\u0085", "\u00a0\u00a0", "\u00a0\u00a0\u00a0", "\v\v\v", "é"}, spaces...)
	pbt.Check(t, pbt.Prop[spacePlan]{
		Rule:  "texts of up to 60 tokens of the eight space characters, pairs of them, words, other Unicode spaces and stray bytes, some with runs of up to 20000 spaces; non-trivial: two words with a run of at least two spaces between",
		Cases: 12000,
		Gen: func(t *rapid.T) spacePlan {
			p := spacePlan{S: pbt.ByteString(t, 60, toks)}
			if rapid.IntRange(0, 49).Draw(t, "long") == 0 {
				for i := rapid.IntRange(1, 3).Draw(t, "nruns"); i > 0; i-- {
					p.Runs = append(p.Runs, rapid.IntRange(2, 20000).Draw(t, "run"))
					u := []byte{}
					for j := rapid.IntRange(1, 3).Draw(t, "ulen"); j > 0; j-- {
						u = append(u, rapid.SampledFrom(spaces).Draw(t, "u")...)
					}
					p.Units = append(p.Units, u)
				}
			}
			return p
		},
		Run: runSpace,
	})
}

func runSpace(c *pbt.Ctx, p spacePlan) error {
	in := string(p.S)
	for i, n := range p.Runs {
		in += strings.Repeat(string(p.Units[i]), n) + "w"
		c.Label("long run")
	}
	out := stringx.SpaceInOne(in)
	show := func(s string) string {
		if len(s) > 200 {
			return fmt.Sprintf("%q...", s[:200])
		}
		return fmt.Sprintf("%q", s)
	}
	iw, ir := lex(in)
	ow, or := lex(out)
	for i := range ir {
		if len(ir[i]) > 1 && i > 0 && iw[i+1] != "" {
			c.NonTrivial()
		}
	}
	if len(iw) != len(ow) {
		return pbt.Errf("SpaceInOne(%s) = %s: %d words became %d", show(in), show(out), len(iw), len(ow))
	}
	for i := range iw {
		if iw[i] != ow[i] {
			return pbt.Errf("SpaceInOne(%s) = %s: word %q became %q", show(in), show(out), iw[i], ow[i])
		}
	}
	for _, r := range or {
		for i := 1; i < len(r); i++ {
			if r[i] == r[i-1] {
				return pbt.Errf("SpaceInOne(%s) = %s: adjacent equal spaces %q", show(in), show(out), r[i])
			}
		}
	}
	if again := stringx.SpaceInOne(out); again != out {
		return pbt.Errf("SpaceInOne is not idempotent on %s: %s then %s", show(in), show(out), show(again))
	}
	return nil
}

type indentPlan struct{ Text, Prefix []byte }

func TestC38_Indent(t *testing.T) {
	pbt.Check(t, pbt.Prop[indentPlan]{
		Rule:  "non-empty texts of up to 40 tokens with newlines anywhere, prefixes of up to 4 tokens including ones holding newlines and prefixes that occur in the text; non-trivial: several lines and a non-empty prefix",
		Cases: 12000,
		Gen: func(t *rapid.T) indentPlan {
			toks := []string{"\n", "\n\n", "\r\n", "  ", "\t", "> ", "x", "\xff", "é"}
			return indentPlan{append(pbt.ByteString(t, 40, toks), rapid.SampledFrom([]string{"\n", "a", "> ", "a\n", "\n\n"}).Draw(t, "end")...), pbt.ByteString(t, 4, toks)}
		},
		Run: runIndent,
	})
}

func runIndent(c *pbt.Ctx, p indentPlan) error {
	text, prefix := string(p.Text), string(p.Prefix)
	var want strings.Builder
	lines := 0
	for rest := text; rest != ""; lines++ {
		i := strings.IndexByte(rest, '\n') + 1
		if i == 0 {
			i = len(rest)
		}
		want.WriteString(prefix + rest[:i])
		rest = rest[i:]
	}
	if lines > 1 && prefix != "" {
		c.NonTrivial()
	}
	c.LabelIf(strings.HasSuffix(text, "\n"), "ends with newline")
	if got := stringx.Indent(text, prefix); got != want.String() {
		return pbt.Errf("Indent(%q, %q) = %q, want %q", text, prefix, got, want.String())
	}
	return nil
}
