package cachex

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

type fsOp struct {
	Op    string
	Store int
	Keys  []int
	Vals  []int
	TTLms int64
	Sleep int64
	Near  int64 `json:",omitempty"`
}

type fsPlan struct {
	KeyType, ValType string
	Dir              string
	GCms             int64
	Ops              []fsOp
}

// key types whose values are easily confused with one another

type pairKey struct{ A, B string }

type shown struct{ A, B int }

func (shown) String() string { return "always the same" }

type hidden struct {
	A int
	b string
}

type nestKey struct {
	P  pairKey
	X  [2]string
	In any
}

type errKey int

func (e errKey) Error() string  { return "error" }
func (e errKey) String() string { return "string" }

var awkward = []string{"", " ", "a", "a b", "b", "a ", " b", "a\x00", "a\n", "A", "{a b}", "map[]", "<nil>", "..", "/", "../../x", "a/b", "\\", "\"", "é", "é", "\u2028", "<&>", "0", "1", "1 2", "[1 2]", "true", "%d", "nil", strings.Repeat("k", 300), "\xff", "\xff\xfe", "😀"}

// pointers are different keys pointing to equal values, nil among them.
var pointers = []*pairKey{nil, {}, {}, {"a", "b"}, {"a", "b"}, {"b", "a"}, {}}

func strKey(i int) string { return awkward[i%len(awkward)] }

// fsStr is valid UTF-8, as JSON needs for values.
func fsStr(i int) string { return strings.ToValidUTF8(awkward[i%len(awkward)], "?") }

type nested struct {
	A  int64
	B  []string
	C  map[string]float64
	D  *nested
	E  any
	No int `json:"-"`
}

// refused values do not encode.
func refused(v any) bool {
	_, err := json.Marshal(v)
	return err != nil
}

func looseVal(i int) any {
	switch i % 9 {
	case 4:
		return []any{1, []any{math.NaN()}}
	case 6:
		return map[string]any{"a": make(chan int)}
	}
	return anyVal(i)
}

func anyVal(i int) any {
	switch i % 8 {
	case 0:
		return nil
	case 1:
		return float64(i)
	case 2:
		return fsStr(i)
	case 3:
		return true
	case 4:
		return []any{float64(i), "x", nil}
	case 5:
		return map[string]any{"k": float64(i), fsStr(i): []any{}}
	case 6:
		return 1e300 * float64(i)
	default:
		return ""
	}
}

func nestVal(i int) nested {
	n := nested{A: math.MaxInt64 - int64(i), B: []string{fsStr(i), fsStr(i + 1)}, C: map[string]float64{fsStr(i): 1 / float64(i+1)}, E: anyVal(i)}
	if i%3 == 0 {
		n.D = &nested{A: int64(i), B: []string{}}
	}
	if i%4 == 0 {
		n.B, n.C = nil, nil
	}
	return n
}

type fsEnt struct {
	v   any
	at  time.Time
	ttl time.Duration
}

// describe tells what is at path, not following links.
func describe(path string) string {
	i, err := os.Lstat(path)
	switch {
	case err != nil:
		return "gone"
	case i.IsDir():
		return "dir"
	case i.Mode()&fs.ModeSymlink != 0:
		l, _ := os.Readlink(path)
		return "-> " + l
	}
	b, _ := os.ReadFile(path)
	return fmt.Sprintf("file %v %q", i.Mode(), b)
}

// snapshot lists everything below dir with contents (symbolic links as such).
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			m[p] = "error " + err.Error()
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		m[rel] = describe(p)
		return nil
	})
	return m
}

func diff(a, b map[string]string) string {
	var out []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, "gone: "+k)
		} else if v != w {
			out = append(out, "changed: "+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, "new: "+k)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// place makes the data directory of a plan below base.
func place(kind, base string) (string, error) {
	switch kind {
	case "plain":
		return filepath.Join(base, "data"), nil
	case "deep":
		return filepath.Join(base, "not", "yet there", "ünï"), nil
	case "dotcache":
		return filepath.Join(base, "dir.cache"), nil
	case "slash":
		return filepath.Join(base, "data") + "//", nil
	case "link":
		real := filepath.Join(base, "real")
		if err := os.MkdirAll(real, 0o755); err != nil {
			return "", err
		}
		link := filepath.Join(base, "link")
		return link, os.Symlink(real, link)
	case "relative":
		wd, err := os.Getwd()
		if err != nil {
			return "", err
		}
		return filepath.Rel(wd, filepath.Join(base, "rel"))
	case "below":
		if err := os.MkdirAll(filepath.Join(base, "a.cache", "b"), 0o755); err != nil {
			return "", err
		}
		return filepath.Join(base, "a.cache", "b"), nil
	}
	return "", fmt.Errorf("harness: unknown place %q", kind)
}

var places = []string{"plain", "plain", "deep", "dotcache", "slash", "link", "relative", "below"}

func runFS[K comparable, V any](c *pbt.Ctx, p fsPlan, base string, key func(int) K, val func(int) V) error {
	dir, err := place(p.Dir, base)
	if err != nil {
		return err
	}
	gc := time.Duration(p.GCms) * time.Millisecond
	stores := []*cachex.FileStore[K, V]{{Dir: dir, GCCycle: gc}, {Dir: dir, GCCycle: 2 * gc}}
	model := map[K]fsEnt{}
	distinct := map[K]bool{}
	overwritten, expired, huge := false, false, false
	expect := func(k K) (V, bool) {
		var zero V
		e, ok := model[k]
		if !ok {
			return zero, false
		}
		if time.Since(e.at) >= e.ttl {
			expired = true
			delete(model, k)
			return zero, false
		}
		huge = huge || e.ttl > 1<<61
		v, _ := e.v.(V) // a nil interface value stays nil
		return v, true
	}
	// what comes back is what JSON makes of the value
	coded := func(v V) V {
		b, err := json.Marshal(v)
		if err != nil {
			panic("harness: " + err.Error())
		}
		var w V
		if err := json.Unmarshal(b, &w); err != nil {
			panic("harness: " + err.Error())
		}
		return w
	}
	set := func(k K, v V, d time.Duration) {
		_, in := model[k]
		overwritten = overwritten || in
		model[k] = fsEnt{coded(v), time.Now(), d}
		distinct[k] = true
	}
	for n, o := range p.Ops {
		st := stores[o.Store]
		keys := []K{}
		for _, i := range o.Keys {
			keys = append(keys, key(i))
		}
		nap := time.Duration(o.Sleep) * time.Millisecond
		if o.Near != 0 && len(keys) > 0 {
			if e, ok := model[keys[0]]; ok {
				nap = untilExpiry(e.at, e.ttl, o.Near)
			}
		}
		time.Sleep(nap + 1)
		what := fmt.Sprintf("op %d %s %#v", n, o.Op, keys)
		switch o.Op {
		case "get":
			v, ok, err := st.Get(ctx, keys[0])
			w, wok := expect(keys[0])
			if err != nil || ok != wok || !reflect.DeepEqual(v, w) {
				return pbt.Errf("%s: %#v %v %v, want %#v %v", what, v, ok, err, w, wok)
			}
		case "mget":
			vs, oks, err := st.MGet(ctx, keys...)
			if err != nil || len(vs) != len(keys) || len(oks) != len(keys) {
				return pbt.Errf("%s: %d values, %d flags, %v", what, len(vs), len(oks), err)
			}
			for i, k := range keys {
				if w, wok := expect(k); oks[i] != wok || !reflect.DeepEqual(vs[i], w) {
					return pbt.Errf("%s: position %d: %#v %v, want %#v %v", what, i, vs[i], oks[i], w, wok)
				}
			}
		case "set":
			v := val(o.Vals[0])
			err := st.Set(ctx, keys[0], v, ttl(o.TTLms))
			if refused(v) {
				c.Label("refused")
				if err == nil {
					return pbt.Errf("%s: no error for a value that does not encode", what)
				}
				break
			}
			if err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
			set(keys[0], v, ttl(o.TTLms))
		case "mset":
			kvs := map[K]V{}
			for i, k := range keys {
				kvs[k] = val(o.Vals[i%len(o.Vals)])
			}
			err := st.MSet(ctx, kvs, ttl(o.TTLms))
			bad := false
			for k, v := range kvs {
				if refused(v) {
					c.Label("refused")
					bad = true
				} else {
					set(k, v, ttl(o.TTLms))
				}
			}
			if (err != nil) != bad {
				return pbt.Errf("%s of %v: error %v", what, kvs, err)
			}
		case "delete":
			if err := st.Delete(ctx, keys...); err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
			for _, k := range keys {
				delete(model, k)
			}
		case "purge":
			if err := st.Purge(); err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
			model = map[K]fsEnt{}
		case "reopen":
			stores[o.Store] = &cachex.FileStore[K, V]{Dir: dir, GCCycle: gc}
		}
		synctest.Wait() // background cleaning has finished
	}
	time.Sleep(1)
	for k := range distinct {
		for i, st := range append(stores, &cachex.FileStore[K, V]{Dir: dir}) {
			v, ok, err := st.Get(ctx, k)
			synctest.Wait()
			if w, wok := expect(k); err != nil || ok != wok || !reflect.DeepEqual(v, w) {
				return pbt.Errf("at the end, store %d: Get(%#v) = %#v %v %v, want %#v %v", i, k, v, ok, err, w, wok)
			}
		}
	}
	c.LabelIf(overwritten, "overwritten")
	c.LabelIf(expired, "expiry seen")
	c.LabelIf(huge, "huge ttl read")
	if len(distinct) >= 3 && overwritten && expired {
		c.NonTrivial()
	}
	return nil
}

func dispatchKey[V any](c *pbt.Ctx, p fsPlan, base string, val func(int) V) error {
	switch p.KeyType {
	case "string":
		return runFS(c, p, base, strKey, val)
	case "int":
		return runFS(c, p, base, func(i int) int { return i*i*i - 40 }, val)
	case "float":
		return runFS(c, p, base, func(i int) float64 {
			return []float64{0, 1, math.Copysign(0, -1), 1e21, 1e-7, 0.1, 0.30000000000000004, 0.3, math.MaxFloat64, -1}[i%10]
		}, val)
	case "uint":
		return runFS(c, p, base, func(i int) uint64 { return uint64(i*i*i) - 40 }, val)
	case "byte":
		return runFS(c, p, base, func(i int) uint8 { return uint8(i * 7) }, val)
	case "pointer":
		return runFS(c, p, base, func(i int) *pairKey { return pointers[i%len(pointers)] }, val)
	case "bool":
		return runFS(c, p, base, func(i int) bool { return i%2 == 0 }, val)
	case "pair":
		return runFS(c, p, base, func(i int) pairKey {
			ps := []pairKey{{"", ""}, {"a", "b"}, {"a b", ""}, {"", "a b"}, {"a", ""}, {"", "a"}, {"a ", "b"}, {"a", " b"}, {"ab", ""}, {"b", "a"}, {`a";"b`, ""}, {`a`, `"b`}, {`a"`, `b`}}
			return ps[i%len(ps)]
		}, val)
	case "shown":
		return runFS(c, p, base, func(i int) shown { return shown{i % 4, i / 4 % 4} }, val)
	case "stringer":
		return runFS(c, p, base, func(i int) errKey { return errKey(i) }, val)
	case "hidden":
		return runFS(c, p, base, func(i int) hidden { return hidden{i % 3, strKey(i / 3)} }, val)
	case "array":
		return runFS(c, p, base, func(i int) [2]string {
			as := [][2]string{{"", ""}, {"a", "b"}, {"a b", ""}, {"", "a b"}, {"a]", "["}, {"a", "] ["}, {`a" "b`, ""}}
			return as[i%len(as)]
		}, val)
	case "nest":
		return runFS(c, p, base, func(i int) nestKey {
			ks := []nestKey{{}, {In: 1}, {In: "1"}, {In: 1.0}, {In: int64(1)}, {X: [2]string{"a", ""}}, {X: [2]string{"", "a"}}, {P: pairKey{"a", ""}}, {P: pairKey{"", "a"}}, {In: pairKey{"a", ""}}, {In: nil, X: [2]string{"nil", ""}}}
			return ks[i%len(ks)]
		}, val)
	case "time":
		// keys equal under == only: same instant and location
		return runFS(c, p, base, func(i int) time.Time {
			return time.Date(2001, 2, 3, 4, 5, 6, i%7, time.UTC).Add(time.Duration(i/7) * time.Hour)
		}, val)
	default:
		return runFS(c, p, base, func(i int) any {
			ks := []any{1, "1", int64(1), uint8(1), 1.0, float32(1), true, "true", nil, "<nil>", "nil", pairKey{"a", "b"}, [2]string{"a", "b"}, "{a b}", "[a b]", shown{1, 2}, errKey(1), errKey(2), int32(1), 'a', "a", "97", 97}
			return ks[i%len(ks)]
		}, val)
	}
}

func runFSPlan(c *pbt.Ctx, p fsPlan) error {
	base, done := pbt.Scratch()
	defer done()
	switch p.ValType {
	case "string":
		return dispatchKey(c, p, base, fsStr)
	case "nested":
		return dispatchKey(c, p, base, nestVal)
	case "pointer":
		return dispatchKey(c, p, base, func(i int) *nested {
			if i%5 == 0 {
				return nil
			}
			v := nestVal(i)
			return &v
		})
	case "bytes":
		return dispatchKey(c, p, base, func(i int) []byte {
			if i%7 == 0 {
				return nil
			}
			return []byte(strings.Repeat(awkward[i%len(awkward)], i%4))
		})
	case "any":
		return dispatchKey(c, p, base, anyVal)
	case "loose":
		return dispatchKey(c, p, base, looseVal)
	case "map":
		return dispatchKey(c, p, base, func(i int) map[int]string {
			return map[int]string{i: fsStr(i), -i: "", 7: fsStr(i + 3)}
		})
	default:
		return dispatchKey(c, p, base, func(i int) int { return i*1000003 - 5 })
	}
}

func genFS(t *rapid.T, maxOps int) fsPlan {
	p := fsPlan{KeyType: rapid.SampledFrom([]string{"string", "string", "string", "int", "uint", "byte", "pointer", "float", "bool", "pair", "shown", "stringer", "hidden", "array", "nest", "time", "any"}).Draw(t, "kt"),
		ValType: rapid.SampledFrom([]string{"int", "int", "string", "nested", "pointer", "bytes", "any", "loose", "map"}).Draw(t, "vt"),
		Dir:     rapid.SampledFrom(places).Draw(t, "dir"),
		GCms:    rapid.SampledFrom([]int64{0, 1, 1000, 5000, 60000, -1}).Draw(t, "gc")}
	base := rapid.IntRange(0, 30).Draw(t, "base")
	width := rapid.SampledFrom([]int{1, 3, 5, 5, 12, 34}).Draw(t, "width")
	p.Ops = pbt.Ops(t, maxOps, func(t *rapid.T) fsOp {
		o := fsOp{Op: rapid.SampledFrom([]string{"get", "get", "get", "get", "set", "set", "set", "set", "mget", "mset", "delete", "purge", "reopen"}).Draw(t, "op"), Store: rapid.IntRange(0, 1).Draw(t, "store")}
		n := 1
		switch o.Op {
		case "mget", "mset", "delete":
			n = rapid.IntRange(0, 5).Draw(t, "nkeys")
		case "purge", "reopen":
			n = 0
		}
		for i := 0; i < n; i++ {
			o.Keys = append(o.Keys, base+rapid.IntRange(0, width).Draw(t, "k"))
			o.Vals = append(o.Vals, rapid.IntRange(0, 60).Draw(t, "v"))
		}
		if n == 0 {
			o.Vals = []int{0}
		}
		o.TTLms = genTTL(t, []int64{5, 100, 100, 3000, 3000, 100000, 100000000, 100000000, forever, forever, 0, -1, -forever})
		o.Near = genNear(t)
		o.Sleep = rapid.SampledFrom([]int64{0, 0, 0, 0, 1, 4, 99, 1000, 2900, 61000}).Draw(t, "sleep")
		return o
	})
	return p
}

func TestC24_FileStore(t *testing.T) {
	pbt.Check(t, pbt.Prop[fsPlan]{
		Rule: "up to 50 gets, sets, batches, deletes, purges and reopenings through two stores on one real directory (plain, not yet there, symbolic link, relative, named like a cache file) with 12 key types full of look-alikes, 8 value types (one with values that do not encode), times to live from minimal to maximal and cleaning cycles of every kind, under virtual time; compared with a map of expiring entries; " +
			"non-trivial: at least three keys, an overwritten entry and an expired one asked for",
		Cases: 3600,
		Gen:   func(t *rapid.T) fsPlan { return genFS(t, 50) },
		Run: func(c *pbt.Ctx, p fsPlan) error {
			return pbt.Bubble(t, func() error { return runFSPlan(c, p) })
		},
	})
}

// ---- many keys ----------------------------------------------------------------

type manyPlan struct {
	N    int
	Kind string
	Seed uint64
}

type manyKey struct {
	A int
	B string
	C [2]int8
}

func runMany[K comparable](p manyPlan, key func(i int, x uint64) K) error {
	base, done := pbt.Scratch()
	defer done()
	st := &cachex.FileStore[K, int]{Dir: base, GCCycle: time.Hour}
	want := map[K]int{}
	keys := []K{}
	x := p.Seed
	for i := range p.N {
		x = x*6364136223846793005 + 1442695040888963407
		k := key(i, x>>32)
		if _, dup := want[k]; !dup {
			keys = append(keys, k)
		}
		want[k] = i
	}
	if err := st.MSet(ctx, want, time.Hour); err != nil {
		return pbt.Errf("MSet of %d keys: %v", len(want), err)
	}
	check := func(from int, when string) error {
		vs, oks, err := st.MGet(ctx, keys[from:]...)
		if err != nil {
			return pbt.Errf("MGet of %d keys%s: %v", len(keys)-from, when, err)
		}
		for i, k := range keys[from:] {
			if !oks[i] || vs[i] != want[k] {
				return pbt.Errf("of %d keys in one store%s, %#v is %d (found: %v), want %d", len(want), when, k, vs[i], oks[i], want[k])
			}
		}
		return nil
	}
	if err := check(0, ""); err != nil {
		return err
	}
	half := len(keys) / 2
	if err := st.Delete(ctx, keys[:half]...); err != nil {
		return pbt.Errf("Delete of %d keys: %v", half, err)
	}
	return check(half, ", half of them deleted,")
}

func TestC24_Many(t *testing.T) {
	pbt.Check(t, pbt.Prop[manyPlan]{
		Rule:     "a store of thousands of keys (integers, strings, structs, floating point; consecutive or random), set in one batch and read in another, then half of them deleted: each must have its own value; non-trivial: at least 2000 keys",
		Cases:    4,
		LongCase: true,
		Gen: func(t *rapid.T) manyPlan {
			n := rapid.IntRange(3000, 9000)
			if pbt.Thorough() {
				n = rapid.IntRange(9000, 40000)
			}
			return manyPlan{n.Draw(t, "n"), rapid.SampledFrom([]string{"count", "int", "string", "hex", "struct", "float", "any"}).Draw(t, "kind"), rapid.Uint64().Draw(t, "seed")}
		},
		Run: func(c *pbt.Ctx, p manyPlan) error {
			c.Label(p.Kind)
			if p.N >= 2000 {
				c.NonTrivial()
			}
			switch p.Kind {
			case "count":
				return runMany(p, func(i int, x uint64) int { return int(p.Seed) + i })
			case "int":
				return runMany(p, func(i int, x uint64) int { return int(x) })
			case "string":
				return runMany(p, func(i int, x uint64) string { return fmt.Sprintf("user:%d:profile", i) })
			case "hex":
				return runMany(p, func(i int, x uint64) string { return fmt.Sprintf("%x", x) })
			case "struct":
				return runMany(p, func(i int, x uint64) manyKey {
					return manyKey{i % 7, fmt.Sprint(i / 49), [2]int8{int8(i / 7 % 7), int8(x)}}
				})
			case "float":
				return runMany(p, func(i int, x uint64) float64 { return float64(x) / 1000 })
			}
			return runMany(p, func(i int, x uint64) any {
				return []any{i, fmt.Sprint(i), float64(i), uint8(x), [1]int{i}}[i%5]
			})
		},
	})
}

func TestC24_NoDir(t *testing.T) {
	pbt.Check(t, pbt.Prop[fsPlan]{
		Rule:  "operations on a store without a directory, in a working directory with files: writes, deletes and purges fail, reads miss, nothing in the working directory changes, even after cleaning was due; non-trivial: a write and a purge",
		Cases: 150,
		Gen:   func(t *rapid.T) fsPlan { return genFS(t, 12) },
		Run: func(c *pbt.Ctx, p fsPlan) error {
			base, done := pbt.Scratch()
			defer done()
			wd, err := os.Getwd()
			if err != nil {
				return err
			}
			base, err = filepath.Abs(base)
			if err != nil {
				return err
			}
			if err := os.Chdir(base); err != nil {
				return err
			}
			defer func() { _ = os.Chdir(wd) }()
			for _, f := range []string{"x.cache", "sub/y.cache", "sub/z.txt", "abc/def/123/456/789/0.cache"} {
				_ = os.MkdirAll(filepath.Dir(f), 0o755)
				_ = os.WriteFile(f, []byte("not yours"), 0o644)
			}
			before := snapshot(base)
			return pbt.Bubble(t, func() error {
				st := &cachex.FileStore[string, int]{GCCycle: time.Duration(p.GCms) * time.Millisecond}
				wrote, purged := false, false
				for n, o := range p.Ops {
					time.Sleep(time.Duration(o.Sleep) * time.Millisecond)
					keys := []string{}
					kvs := map[string]int{}
					for _, i := range o.Keys {
						keys = append(keys, strKey(i))
						kvs[strKey(i)] = i
					}
					what := fmt.Sprintf("op %d %s %q without a directory", n, o.Op, keys)
					var err error
					switch o.Op {
					case "get":
						var ok bool
						if _, ok, err = st.Get(ctx, keys[0]); ok || err != nil {
							return pbt.Errf("%s: %v %v", what, ok, err)
						}
						err = fmt.Errorf("none")
					case "mget":
						var oks []bool
						_, oks, err = st.MGet(ctx, keys...)
						for _, ok := range oks {
							if ok {
								return pbt.Errf("%s: a hit", what)
							}
						}
						if err != nil {
							return pbt.Errf("%s: %v", what, err)
						}
						err = fmt.Errorf("none")
					case "set":
						err, wrote = st.Set(ctx, keys[0], 1, ttl(o.TTLms)), true
					case "mset":
						if len(kvs) == 0 {
							kvs["k"] = 1
						}
						err, wrote = st.MSet(ctx, kvs, ttl(o.TTLms)), true
					case "delete":
						err = st.Delete(ctx, append(keys, "k")...)
					case "purge":
						err, purged = st.Purge(), true
					default:
						err = fmt.Errorf("none")
					}
					synctest.Wait()
					if err == nil {
						return pbt.Errf("%s: no error", what)
					}
				}
				if d := diff(before, snapshot(base)); d != "" {
					return pbt.Errf("without a directory the working directory changed: %s", d)
				}
				if wrote && purged {
					c.NonTrivial()
				}
				return nil
			})
		},
	})
}

// ---- C25 ----------------------------------------------------------------------

type dmgOp struct {
	Op    string
	Key   int
	Kind  int
	At    int
	TTLms int64
	Sleep int64
	Near  int64 `json:",omitempty"`
}

type dmgPlan struct {
	Dir     string
	GCs     int64
	Foreign []int
	Ops     []dmgOp
}

// contents that are not an entry (a JSON object with an expiry in the future would be one)
var nonEntries = []string{"", "null", "[]", "{}", "123", `"str"`, "true", "{", "}", "{}{}", " ", "\x00\x00\x00", "\xff\xfe{", "<html>", `{"Data":1}`, `{"Data":1,"Key":"a","TTL":5,"Ctime":0,"Exp":0}`, `{"Exp":"tomorrow"}`, `{"Exp":9.5e40}`, `{"Data":"seven","Exp":-1}`, `{"Data":[1,2],"Key":7,"TTL":null}`,
	strings.Repeat("[", 20000), strings.Repeat("x", 100000), `{"Exp":1}`, "nil", "NaN", `{"Data":`, "\ufeff{}", "[[1,2],[3", `{"a":{"b":{"c":1}}}`}

// foreign things: path, kind (f file, d directory, l link)
var foreigners = [][2]string{
	{"notes.txt", "f"}, {"x.cache.bak", "f"}, {"cache", "f"}, {"x.CACHE", "f"}, {"empty", "d"}, {"dir.cache", "d"}, {"dir.cache/inner.txt", "f"}, {"a.cache/b.cache", "d"},
	{"sub/deep/file.json", "f"}, {"entry.json", "f"}, {"link.txt", "l"}, {".hidden", "f"}, {"x.cache~", "f"}, {"cache.d/readme", "f"}, {"xcache", "f"}, {"old.tmp", "f"}, {"linkdir", "L"},
}

func TestC25_Damage(t *testing.T) {
	pbt.Check(t, pbt.Prop[dmgPlan]{
		Rule: "up to 40 gets, sets, deletes, purges and waits for cleaning on a store whose entry files are truncated at a drawn byte, replaced by one of 29 contents that are no entry, removed, or removed with directories above them, among foreign files, directories (some named like cache files) and links in the tree and next to the entries; answers compared with a model that allows one error per damage, foreign things with a snapshot, removed and surviving entries with their files; " +
			"non-trivial: a damaged entry was read or cleaned, and a purge or cleaning ran among foreign files",
		Cases: 3600,
		Gen: func(t *rapid.T) dmgPlan {
			p := dmgPlan{Dir: rapid.SampledFrom(places).Draw(t, "dir"), GCs: int64(rapid.IntRange(0, 5).Draw(t, "gc"))}
			p.Foreign = rapid.SliceOfNDistinct(rapid.IntRange(0, len(foreigners)-1), 0, 8, func(i int) int { return i }).Draw(t, "foreign")
			p.Ops = pbt.Ops(t, 40, func(t *rapid.T) dmgOp {
				return dmgOp{Op: rapid.SampledFrom([]string{"get", "get", "get", "mget", "set", "set", "set", "truncate", "truncate", "replace", "replace", "beside", "stray", "lose", "uproot", "delete", "clean", "clean", "purge"}).Draw(t, "op"),
					Key: rapid.IntRange(0, 4).Draw(t, "key"), Kind: rapid.IntRange(0, len(nonEntries)-1).Draw(t, "kind"), At: rapid.IntRange(0, 400).Draw(t, "at"),
					TTLms: genTTL(t, []int64{50, 3000, 100000000, 100000000, 100000000, forever}), Near: genNear(t),
					Sleep: rapid.SampledFrom([]int64{0, 0, 0, 10, 60, 2000}).Draw(t, "sleep")}
			})
			return p
		},
		Run: func(c *pbt.Ctx, p dmgPlan) error {
			return pbt.Bubble(t, func() error { return runDamage(c, p) })
		},
	})
}

func runDamage(c *pbt.Ctx, p dmgPlan) error {
	base, done := pbt.Scratch()
	defer done()
	dir, err := place(p.Dir, base)
	if err != nil {
		return err
	}
	outside := filepath.Join(base, "outside")
	if err := os.MkdirAll(outside, 0o755); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(outside, "precious.cache"), []byte("outside the tree"), 0o644); err != nil {
		return err
	}
	foreign := map[string]bool{}
	root := filepath.Clean(dir)
	addForeign := func(rel, kind string) error {
		at := filepath.Join(root, rel)
		if err := os.MkdirAll(filepath.Dir(at), 0o755); err != nil {
			return err
		}
		foreign[rel] = true
		switch kind {
		case "d":
			return os.MkdirAll(at, 0o755)
		case "l":
			return os.Symlink(filepath.Join(outside, "precious.cache"), at)
		case "L":
			return os.Symlink(outside, at)
		}
		return os.WriteFile(at, []byte("foreign "+rel), 0o640)
	}
	for _, i := range p.Foreign {
		if err := addForeign(foreigners[i][0], foreigners[i][1]); err != nil {
			return fmt.Errorf("harness: %w", err)
		}
	}
	state := func() map[string]string {
		out := map[string]string{}
		for rel := range foreign {
			out[rel] = describe(filepath.Join(root, rel))
		}
		for k, v := range snapshot(outside) {
			out["outside:"+k] = v
		}
		return out
	}
	before := state()
	st := &cachex.FileStore[string, fsVal]{Dir: dir, GCCycle: time.Duration(p.GCs) * time.Second}
	type ent struct {
		v      fsVal
		at     time.Time
		ttl    time.Duration
		there  bool
		broken bool // the file is not an entry; an error may be reported
	}
	ents := map[int]*ent{}
	for i := 0; i < 5; i++ {
		ents[i] = &ent{}
	}
	// paths of the entries, found by watching what a set creates
	paths := map[int]string{}
	key := func(i int) string { return "key-" + awkward[i+1] }
	files := func() map[string]bool {
		m := map[string]bool{}
		_ = filepath.WalkDir(root+"/", func(path string, d fs.DirEntry, err error) error {
			if err == nil && d.Type().IsRegular() {
				rel, _ := filepath.Rel(root, path)
				if !foreign[rel] {
					m[path] = true
				}
			}
			return nil
		})
		return m
	}
	for i := 0; i < 5; i++ {
		was := files()
		if err := st.Set(ctx, key(i), fsVal{N: -1}, time.Hour); err != nil {
			return pbt.Errf("set: %v", err)
		}
		for f := range files() {
			if !was[f] {
				if paths[i] != "" {
					return pbt.Errf("one set makes the files %s and %s", paths[i], f)
				}
				paths[i] = f
			}
		}
		if paths[i] == "" {
			return pbt.Errf("a set of a new key makes no file")
		}
	}
	if err := st.Purge(); err != nil {
		return pbt.Errf("purge: %v", err)
	}
	if n := len(files()); n != 0 {
		return pbt.Errf("%d entry files are left after Purge", n)
	}
	alive := func(e *ent) bool { return e.there && !e.broken && time.Since(e.at) < e.ttl }
	damageSeen, swept, gen := false, false, 0
	read := func(what string, i int, v fsVal, ok bool, err error) error {
		e := ents[i]
		if alive(e) {
			if !ok || err != nil || !reflect.DeepEqual(v, e.v) {
				return pbt.Errf("%s: key %d = %v %v %v, want %v", what, i, v, ok, err, e.v)
			}
			return nil
		}
		if ok || !reflect.DeepEqual(v, fsVal{}) {
			return pbt.Errf("%s: key %d = %v %v, want a miss", what, i, v, ok)
		}
		if err != nil && !(e.there && e.broken) {
			return pbt.Errf("%s: key %d reports %v", what, i, err)
		}
		damageSeen = damageSeen || e.broken
		*e = ent{} // reported, if at all, and gone
		return nil
	}
	for n, o := range p.Ops {
		i := o.Key
		e := ents[i]
		nap := time.Duration(o.Sleep) * time.Millisecond
		if o.Near != 0 && e.there {
			nap = untilExpiry(e.at, e.ttl, o.Near)
		}
		time.Sleep(nap + 1)
		synctest.Wait()
		what := fmt.Sprintf("op %d %s", n, o.Op)
		path := paths[i]
		// background cleaning may have removed what is broken or expired: it
		// may also have swallowed the error, which read allows
		switch o.Op {
		case "get":
			v, ok, err := st.Get(ctx, key(i))
			if err := read(what, i, v, ok, err); err != nil {
				return err
			}
		case "mget":
			vs, oks, err := st.MGet(ctx, key(i), key((i+1)%5))
			if err != nil {
				if !(e.there && e.broken) && !(ents[(i+1)%5].there && ents[(i+1)%5].broken) {
					return pbt.Errf("%s: %v", what, err)
				}
				// whichever was reported is gone; ask for each in turn
				if e.there && e.broken {
					*e = ent{}
				} else {
					*ents[(i+1)%5] = ent{}
				}
				damageSeen = true
				break
			}
			if len(vs) != 2 || len(oks) != 2 {
				return pbt.Errf("%s: %v %v", what, vs, oks)
			}
			for j := 0; j < 2; j++ {
				if err := read(what, (i+j)%5, vs[j], oks[j], nil); err != nil {
					return err
				}
			}
		case "set":
			gen++
			v := fsVal{gen, fsStr(gen), []int{gen, gen + 1}}
			if err := st.Set(ctx, key(i), v, ttl(o.TTLms)); err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
			*e = ent{v: v, at: time.Now(), ttl: ttl(o.TTLms), there: true}
		case "delete":
			if err := st.Delete(ctx, key(i)); err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
			*e = ent{}
		case "truncate":
			b, err := os.ReadFile(path)
			if err != nil || len(b) == 0 {
				break
			}
			if err := os.WriteFile(path, b[:o.At%len(b)], 0o666); err != nil {
				return fmt.Errorf("harness: %w", err)
			}
			*e = ent{there: true, broken: true}
		case "replace":
			_ = os.MkdirAll(filepath.Dir(path), 0o755)
			if err := os.WriteFile(path, []byte(nonEntries[o.Kind]), 0o666); err != nil {
				return fmt.Errorf("harness: %w", err)
			}
			*e = ent{there: true, broken: true}
		case "lose":
			_ = os.Remove(path)
			*e = ent{}
		case "uproot":
			// a directory above the entry goes, with all that is below it
			at := filepath.Dir(path)
			for up := 0; up < o.At%7 && filepath.Dir(at) != root; up++ {
				at = filepath.Dir(at)
			}
			if err := os.RemoveAll(at); err != nil {
				return fmt.Errorf("harness: %w", err)
			}
			below := func(p string) bool { return p == at || strings.HasPrefix(p, at+"/") }
			for j := range ents {
				if below(paths[j]) {
					*ents[j] = ent{}
				}
			}
			for rel := range foreign {
				if below(filepath.Join(root, rel)) {
					delete(foreign, rel)
				}
			}
			before = state()
			c.Label("uprooted")
		case "beside":
			// a foreign file next to the entry, named after it
			name := []string{path + ".bak", strings.TrimSuffix(path, ".cache"), filepath.Join(filepath.Dir(path), "readme"), path + "~"}[o.Kind%4]
			rel, _ := filepath.Rel(root, name)
			if !foreign[rel] && name != path {
				if err := addForeign(rel, "f"); err != nil {
					return fmt.Errorf("harness: %w", err)
				}
				before = state()
			}
		case "stray":
			// a file that looks like an entry where no entry lives: whether
			// cleaning or purging takes it is left open, but it is no reason to
			// treat the entries differently
			at := path
			for up := 0; up <= o.At%7 && at != root; up++ {
				at = filepath.Dir(at)
			}
			if err := os.MkdirAll(at, 0o755); err != nil {
				return fmt.Errorf("harness: %w", err)
			}
			name := []string{"!stray.cache", "zstray.cache", ".cache", "5.cache"}[o.At/7%4]
			if err := os.WriteFile(filepath.Join(at, name), []byte(nonEntries[o.Kind]), 0o666); err != nil {
				return fmt.Errorf("harness: %w", err)
			}
		case "clean":
			// make cleaning due, trigger it and let it finish
			cycle := max(st.GCCycle, time.Second)
			if st.GCCycle <= 0 {
				cycle = time.Minute
			}
			for r := 0; r < 2; r++ {
				time.Sleep(cycle + 2*time.Second)
				if v, ok, err := st.Get(ctx, "never set"); ok || err != nil {
					return pbt.Errf("%s: the triggering Get returns %v %v %v", what, v, ok, err)
				}
				synctest.Wait()
			}
			for j, x := range ents {
				_, err := os.Lstat(paths[j])
				switch {
				case alive(x) && err != nil:
					return pbt.Errf("%s: cleaning removed the unexpired entry of key %d", what, j)
				case x.there && !x.broken && !alive(x) && err == nil:
					return pbt.Errf("%s: cleaning left the expired entry of key %d", what, j)
				}
				damageSeen = damageSeen || x.broken
			}
			swept = true
		case "purge":
			if err := st.Purge(); err != nil {
				return pbt.Errf("%s: %v", what, err)
			}
			for j := range ents {
				if _, err := os.Lstat(paths[j]); err == nil {
					return pbt.Errf("%s: the entry of key %d is still there", what, j)
				}
				*ents[j] = ent{}
			}
			swept = true
		}
		synctest.Wait()
		if d := diff(before, state()); d != "" {
			return pbt.Errf("%s: foreign files: %s", what, d)
		}
	}
	c.LabelIf(damageSeen, "damage met")
	c.LabelIf(swept, "swept")
	c.LabelIf(len(foreign) > 0, "foreign files")
	if damageSeen && swept && len(foreign) > 0 {
		c.NonTrivial()
	}
	return nil
}

type fsVal struct {
	N int
	S string
	L []int
}

type truncPlan struct {
	Key, Val int
	TTLms    int64
	Indent   bool
}

func TestC25_EveryTruncation(t *testing.T) {
	pbt.Check(t, pbt.Prop[truncPlan]{
		Rule:  "one entry truncated at every byte offset in turn: the first read reports an error or a miss, the second a miss, and a set restores the key; non-trivial: always",
		Cases: 40,
		Gen: func(t *rapid.T) truncPlan {
			return truncPlan{rapid.IntRange(0, len(awkward)-1).Draw(t, "key"), rapid.IntRange(0, 100).Draw(t, "val"), rapid.SampledFrom([]int64{1000, 1e9, forever}).Draw(t, "ttl"), false}
		},
		Run: func(c *pbt.Ctx, p truncPlan) error {
			return pbt.Bubble(t, func() error {
				base, done := pbt.Scratch()
				defer done()
				c.NonTrivial()
				st := &cachex.FileStore[string, nested]{Dir: base}
				k, v := strKey(p.Key), nestVal(p.Val)
				for cut := 0; ; cut++ {
					if err := st.Set(ctx, k, v, ttl(p.TTLms)); err != nil {
						return pbt.Errf("set after truncation at byte %d: %v", cut-1, err)
					}
					got, ok, err := st.Get(ctx, k)
					if !ok || err != nil || !reflect.DeepEqual(got.B, v.B) || got.A != v.A {
						return pbt.Errf("get after the set following truncation at byte %d: %v %v", cut-1, ok, err)
					}
					var path string
					n := 0
					_ = filepath.WalkDir(base, func(q string, d fs.DirEntry, err error) error {
						if err == nil && d.Type().IsRegular() {
							path = q
							n++
						}
						return nil
					})
					if n != 1 {
						return pbt.Errf("%d files for one entry", n)
					}
					b, err := os.ReadFile(path)
					if err != nil {
						return err
					}
					if cut >= len(b) {
						return nil
					}
					if err := os.Truncate(path, int64(cut)); err != nil {
						return err
					}
					got, ok, _ = st.Get(ctx, k)
					if ok || !reflect.DeepEqual(got, nested{}) {
						return pbt.Errf("an entry truncated at byte %d of %d is read as %v %v", cut, len(b), got, ok)
					}
					if got, ok, err = st.Get(ctx, k); ok || err != nil {
						return pbt.Errf("truncated at byte %d, second read: %v %v %v", cut, got, ok, err)
					}
				}
			})
		},
	})
}
