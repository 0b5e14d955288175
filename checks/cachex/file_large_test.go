package cachex

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// Large entries: keys of up to 64 kB that differ in one place only, values of up
// to 1 MB that are overwritten by longer and shorter ones.

type bigOp struct {
	Op  string
	Key int
	N   int // size of the value
}

type bigPlan struct {
	KeyLen int
	Kind   string // type of the values
	Seed   uint64
	Ops    []bigOp
}

// longKey is the i-th of a family of keys of n bytes that differ in one byte, at
// the start, in the middle or at the end, or are one byte longer.
func longKey(n, i int) string {
	b := []byte(strings.Repeat("key ", n/4+1)[:n])
	switch i {
	case 0:
	case 1:
		b[0] = 'X'
	case 2:
		b[n/2] = 'X'
	case 3:
		b[n-1] = 'X'
	case 4:
		b = append(b, 'X')
	default:
		b = append([]byte{'X'}, b...)
	}
	return string(b)
}

func runBig[V any](t *testing.T, c *pbt.Ctx, p bigPlan, val func(n int, seed uint64) V) error {
	return pbt.Bubble(t, func() error {
		base, done := pbt.Scratch()
		defer done()
		stores := []*cachex.FileStore[string, V]{{Dir: base}, {Dir: base}}
		model := map[int]V{}
		for i, o := range p.Ops {
			st := stores[i%2]
			k := longKey(p.KeyLen, o.Key)
			what := fmt.Sprintf("op %d %s, key %d of %d bytes, value of about %d", i, o.Op, o.Key, p.KeyLen, o.N)
			switch o.Op {
			case "set":
				v := val(o.N, p.Seed+uint64(i))
				if err := st.Set(ctx, k, v, time.Hour); err != nil {
					return pbt.Errf("%s: %v", what, err)
				}
				model[o.Key] = v
			case "mset":
				kvs := map[string]V{}
				for j := range 6 {
					model[j] = val(o.N/(j+1), p.Seed+uint64(i+j))
					kvs[longKey(p.KeyLen, j)] = model[j]
				}
				if err := st.MSet(ctx, kvs, time.Hour); err != nil {
					return pbt.Errf("%s: %v", what, err)
				}
			case "delete":
				if err := st.Delete(ctx, k); err != nil {
					return pbt.Errf("%s: %v", what, err)
				}
				delete(model, o.Key)
			case "cut":
				var files []string
				_ = filepath.WalkDir(base, func(q string, d fs.DirEntry, err error) error {
					if err == nil && d.Type().IsRegular() {
						files = append(files, q)
					}
					return nil
				})
				if len(files) != len(model) {
					return pbt.Errf("%s: %d files for %d entries", what, len(files), len(model))
				}
				if len(model) != 1 { // one only: else it is not known whose file it is
					continue
				}
				st, err := os.Stat(files[0])
				if err != nil {
					return err
				}
				if err := os.Truncate(files[0], st.Size()*int64(o.N%1000)/1000); err != nil {
					return err
				}
				for j := range 6 {
					v, ok, err := stores[0].Get(ctx, longKey(p.KeyLen, j))
					if _, there := model[j]; ok || err != nil && !there {
						return pbt.Errf("%s (to %d of 1000 parts): Get of key %d = %.80v, %v, %v", what, o.N%1000, j, v, ok, err)
					}
				}
				clear(model)
				c.Label("truncated")
			}
			for j := range 6 {
				v, ok, err := stores[(i+j)%2].Get(ctx, longKey(p.KeyLen, j))
				w, wok := model[j]
				if err != nil || ok != wok || !reflect.DeepEqual(v, w) {
					return pbt.Errf("after %s: Get of key %d: found %v, %v, want %v, or another value (%.80v)", what, j, ok, err, wok, v)
				}
			}
			if o.N > 10000 && p.KeyLen > 1000 {
				c.NonTrivial()
			}
		}
		return nil
	})
}

func runBigPlan(t *testing.T, c *pbt.Ctx, p bigPlan) error {
	c.Label(p.Kind)
	switch p.Kind {
	case "string":
		return runBig(t, c, p, func(n int, seed uint64) string {
			return string(pbt.BigText(n, seed, int(seed), []string{"\"", "\\", "<", "&", "é", "\u2028", "plain", "\n", "\x00", "😀"}))
		})
	case "bytes":
		return runBig(t, c, p, func(n int, seed uint64) []byte {
			return pbt.BigText(n, seed, int(seed), []string{"\x00", "\xff", "abc", "\"", "\n"})
		})
	case "ints":
		return runBig(t, c, p, func(n int, seed uint64) []int {
			r := pbt.Rand(seed)
			out := make([]int, n/8+1)
			for i := range out {
				out[i] = int(r.Uint64())
			}
			return out
		})
	}
	return runBig(t, c, p, func(n int, seed uint64) map[string]float64 {
		r := pbt.Rand(seed)
		out := map[string]float64{}
		for i := range n/24 + 1 {
			out[fmt.Sprint(r.IntN(1<<30), i)] = r.Float64() * 1e9
		}
		return out
	})
}

func genBigPlan(t *rapid.T, ops []string) bigPlan {
	p := bigPlan{KeyLen: pbt.Large(t, 64<<10, "keylen"), Kind: rapid.SampledFrom([]string{"string", "bytes", "ints", "map"}).Draw(t, "kind"), Seed: rapid.Uint64Range(0, 1<<20).Draw(t, "seed")}
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) bigOp {
		return bigOp{rapid.SampledFrom(ops).Draw(t, "op"), rapid.IntRange(0, 5).Draw(t, "key"), pbt.Large(t, 512<<10, "n")}
	}), 1, 6).Draw(t, "ops")
	return p
}

func TestC24_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[bigPlan]{
		Rule:  "up to 6 sets, batch sets and deletes of six keys of 33..65536 bytes that differ in one place, values (text, bytes, integers, maps) of up to 512 kB overwritten by longer and shorter ones, read through two stores; non-trivial: keys above 1000 bytes and values above 10000",
		Cases: 12,
		Gen:   func(t *rapid.T) bigPlan { return genBigPlan(t, []string{"set", "set", "set", "mset", "delete"}) },
		Run:   func(c *pbt.Ctx, p bigPlan) error { return runBigPlan(t, c, p) },
	})
}

func TestC25_Large(t *testing.T) {
	pbt.Check(t, pbt.Prop[bigPlan]{
		Rule:  "as for large entries, with the only entry's file truncated anywhere: read as an error or a miss, then a miss; non-trivial: keys above 1000 bytes and values above 10000",
		Cases: 12,
		Gen: func(t *rapid.T) bigPlan {
			p := genBigPlan(t, []string{"set", "cut"})
			for i := range p.Ops {
				if i > 0 && p.Ops[i-1].Op == "set" {
					p.Ops[i].Op = "cut"
				} else {
					p.Ops[i].Op = "set"
				}
			}
			return p
		},
		Run: func(c *pbt.Ctx, p bigPlan) error { return runBigPlan(t, c, p) },
	})
}
