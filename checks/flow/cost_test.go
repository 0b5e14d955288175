package flow

import (
	"context"
	"fmt"
	"math"
	"math/bits"
	"runtime"
	"strings"
	"syscall"
	"testing"
	"time"

	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gmap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gring"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gset"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
	rbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"
	"github.com/miniLCT/gosb/gogenerics/gnumerics"
	"github.com/miniLCT/gosb/library/bitset"
	"github.com/miniLCT/gosb/library/cachex"
	"github.com/miniLCT/gosb/library/cryptox"
	"github.com/miniLCT/gosb/library/password"
	"github.com/miniLCT/gosb/library/stringx"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// ---- C51: what operations cost --------------------------------------------------------

type costPlan struct {
	What string
	N    int // the small size
	Seed uint64
}

const growth = 40 // the large size is so many times the small one

// threadTime is the CPU time of this thread: other load on the machine matters little.
func threadTime() time.Duration {
	const rusageThread = 1
	var ru syscall.Rusage
	if err := syscall.Getrusage(rusageThread, &ru); err != nil {
		panic("harness: " + err.Error())
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// perOp is the time of one operation, the least of a few measurements.
func perOp(op func(i int), least time.Duration) time.Duration {
	best := time.Duration(1 << 62)
	for range 3 {
		start := threadTime()
		n := 0
		for n == 0 || threadTime()-start < least {
			for range 1 + n {
				op(n)
				n++
			}
		}
		best = min(best, (threadTime()-start)/time.Duration(n))
	}
	return max(best, 1)
}

type costed struct {
	linear bool
	make   func(n int, r func(int) int) func(i int)
}

func constant(f func(n int, r func(int) int) func(i int)) costed { return costed{false, f} }
func linear(f func(n int, r func(int) int) func(i int)) costed   { return costed{true, f} }

func ints(n int, r func(int) int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = r(math.MaxInt >> 1)
	}
	return s
}

func intMap(n int) map[int]int {
	m := map[int]int{}
	for i := range n {
		m[i] = i
	}
	return m
}

func lru(n int) *cachex.LRUCacheV2[int, int] {
	c := cachex.NewLRUCacheV2[int, int](n, 0)
	for i := range n {
		_ = c.Set(context.Background(), i, i, time.Hour)
	}
	return c
}

func text(n int, r func(int) int, alphabet string) string {
	var sb strings.Builder
	runes := []rune(alphabet)
	for range n {
		sb.WriteRune(runes[r(len(runes))])
	}
	return sb.String()
}

var (
	sink any
	bg   = context.Background()
)

// of makes a linear target of a function of n numbers.
func of(f func(s []int)) costed {
	return linear(func(n int, r func(int) int) func(int) {
		s := ints(n, r)
		return func(int) { f(s) }
	})
}

// ofText makes a linear target of a function of n characters.
func ofText(alphabet string, f func(s string)) costed {
	return linear(func(n int, r func(int) int) func(int) {
		s := text(n, r, alphabet)
		return func(int) { f(s) }
	})
}

var costs = map[string]costed{
	"queue push, pop": constant(func(n int, r func(int) int) func(int) {
		q := gqueue.Gen(ints(n, r))
		return func(i int) { _ = q.Push(i); _, _ = gqueue.Peek(q); _, _ = q.Pop(); _ = q.Len() }
	}),
	"queue gen, peek all, drain": of(func(s []int) {
		q := gqueue.Gen(s)
		_ = gqueue.PeekAll(q)
		for range gqueue.Iterator(q) {
		}
	}),
	"list insert, move, remove": constant(func(n int, r func(int) int) func(int) {
		l := glist.New[int]()
		for i := range n {
			l.PushBack(i)
		}
		var mid *glist.Element[int]
		for e, i := l.Front(), 0; i < n/2; e, i = e.Next(), i+1 {
			mid = e
		}
		return func(i int) {
			a, b := l.PushBack(i), l.PushFront(i)
			x := l.InsertAfter(i, mid)
			y := l.InsertBefore(i, mid)
			l.MoveToFront(x)
			l.MoveToBack(y)
			l.MoveAfter(a, mid)
			l.MoveBefore(b, mid)
			_, _ = l.Len(), l.Back().Prev()
			for _, e := range []*glist.Element[int]{a, b, x, y} {
				l.Remove(e)
			}
		}
	}),
	"list copy, range": of(func(s []int) {
		l, m := glist.New[int](), glist.New[int]()
		for _, x := range s {
			l.PushBack(x)
		}
		m.PushBackList(l)
		m.PushFrontList(l)
		m.Range(func(e *glist.Element[int]) { sink = e })
	}),
	"ring link, unlink": constant(func(n int, r func(int) int) func(int) {
		g := gring.New[int](n)
		x := gring.New[int](1)
		return func(int) { g.Link(x); x = g.Unlink(1); g = g.Next().Next().Prev() }
	}),
	"ring new, len, do, move": of(func(s []int) {
		g := gring.New[int](len(s))
		_ = g.Len()
		g.Do(func(any) {})
		_ = g.Move(len(s)).Unlink(len(s) / 2)
	}),
	"set add, contains, remove": constant(func(n int, r func(int) int) func(int) {
		s := gset.NewSet[int]()
		for i := range n {
			gset.Add(s, i)
		}
		return func(i int) {
			gset.Add(s, n+i%16)
			gset.Contains(s, i%n)
			gset.Remove(s, n+i%16)
			_ = gset.Len(s)
		}
	}),
	"set items": of(func(s []int) {
		t := gset.NewSet[int]()
		for _, x := range s {
			gset.Add(t, x)
		}
		_ = gset.Items(t)
	}),
	"lru get, set": constant(func(n int, r func(int) int) func(int) {
		c := lru(n)
		return func(i int) {
			_, _, _ = c.Get(bg, i%n)
			_, _, _ = c.Get(bg, -1)
			_ = c.Set(bg, i%n, i, time.Hour)
		}
	}),
	"lru evict": constant(func(n int, r func(int) int) func(int) {
		c := lru(n)
		return func(i int) { _ = c.Set(bg, n+i, i, time.Hour) }
	}),
	"lru delete": constant(func(n int, r func(int) int) func(int) {
		c := lru(n)
		return func(i int) { _ = c.Delete(bg, i%n); _ = c.Set(bg, i%n, i, time.Hour) }
	}),
	"lru batches": linear(func(n int, r func(int) int) func(int) {
		c, m := lru(n), intMap(n)
		keys := gmap.Keys(m)
		return func(int) {
			_ = c.MSet(bg, m, time.Hour)
			_, _, _ = c.MGet(bg, keys...)
			_ = c.Delete(bg, keys...)
		}
	}),
	"chain get": constant(func(n int, r func(int) int) func(int) {
		c := &cachex.Chain[int, int]{Caches: []*cachex.ChainItem[int, int]{{Cache: lru(n / 8), TTL: time.Hour}, {Cache: lru(n), TTL: time.Hour}}}
		return func(i int) { _, _, _ = c.Get(bg, i%n) }
	}),
	"chain batches": linear(func(n int, r func(int) int) func(int) {
		c := &cachex.Chain[int, int]{Caches: []*cachex.ChainItem[int, int]{{Cache: lru(n / 8), TTL: time.Hour}, {Cache: lru(n), TTL: time.Hour}}}
		m := intMap(n)
		keys := gmap.Keys(m)
		return func(int) {
			_, _, _ = c.MGet(bg, keys...)
			_ = c.MSet(bg, m, 0)
			res, _ := cachex.MGet[int, int](bg, c, keys...)
			_, _ = res.HitKeys(), res.HitMapValues()
			_, _ = res.HitMissKeys()
			res.Range(func(int, bool, int) bool { return true })
		}
	}),
	"map load, store": constant(func(n int, r func(int) int) func(int) {
		m := new(gsync.Map[int, int])
		for i := range n {
			m.Store(i, i)
		}
		m.Range(func(int, int) bool { return true })
		return func(i int) {
			m.Load(i % n)
			m.Load(-1)
			m.Store(i%n, i)
			m.LoadOrStore(i%n, i)
			m.Swap(i%n, i)
			m.CompareAndSwap(i%n, i, i+1)
			m.LoadAndDelete(i % n)
			m.Store(i%n, i)
		}
	}),
	"map fill, range, empty": of(func(s []int) {
		m := new(gsync.Map[int, int])
		for _, x := range s {
			m.Store(x, x)
		}
		m.Range(func(k, v int) bool { return true })
		for _, x := range s {
			m.Load(x)
			m.Delete(x)
		}
	}),
	"bit set get, set": constant(func(n int, r func(int) int) func(int) {
		b := bitset.New(make([]byte, n)...)
		return func(i int) { _, _ = b.Set(i%(8*n), i%3 == 0); b.Get(i * 7 % (8 * n)); b.Size() }
	}),
	"bit set whole": linear(func(n int, r func(int) int) func(int) {
		b, c := bitset.New(make([]byte, n)...), bitset.New(make([]byte, n)...)
		_, _ = b.Set(8*n-1, true)
		return func(int) {
			b.Or(c)
			b.Xor(c).And(b).AndNot(c).Not()
			_, _ = b.Count(0, -1), b.Sub(1, -1)
			b.Range(func(int, bool) bool { return true })
			_, _, _ = b.String(), b.Binary(" "), b.Bytes()
		}
	}),
	"tree listings": linear(func(n int, r func(int) int) func(int) {
		t := rbt.New[int, int](func(a, b int) bool { return a < b })
		for i := range n {
			t.Insert(i, i)
		}
		return func(int) {
			_, _, _ = t.Keys(), t.Values(), t.Nodes()
			_, _ = t.GetIf(func(k int) bool { return k%2 == 0 }), t.Len()
		}
	}),
	"slice copy, reverse, merge": of(func(s []int) {
		sink = gslice.Merge(gslice.Reverse(gslice.Copy(s)), s)
	}),
	"slice compare, search": of(func(s []int) {
		t := gslice.Copy(s)
		sink = gslice.Equal(s, t) && gslice.Contains(s, -1) && gslice.IsSorted(s)
		sink = gslice.Index(s, -1) + gslice.IndexWithFunc(s, func(x int) bool { return x < 0 })
		sink = gslice.ContainsWithFunc(s, func(x int) bool { return x < 0 })
		sink = gslice.EqualWithFunc(s, t, func(a, b int) bool { return a == b })
		sink = gslice.IsSortedFunc(s, func(a, b int) bool { return a == b && a < 0 })
	}),
	"slice unique": of(func(s []int) {
		u, _ := gslice.Unique(gslice.Copy(s))
		v, _ := gslice.UniqueWithFunc(gslice.Copy(s), func(x int) int { return x })
		sink = [][]int{u, v}
	}),
	"slice shuffle": of(func(s []int) { sink = gslice.Shuffle(s) }),
	"map copy, list": linear(func(n int, r func(int) int) func(int) {
		m := intMap(n)
		return func(int) {
			es := gmap.Map2Entries(m)
			sink = gmap.Entries2Map(es)
			sink = []any{gmap.Keys(m), gmap.Values(m), gmap.Copy(m)}
		}
	}),
	"map equal": linear(func(n int, r func(int) int) func(int) {
		m, k := intMap(n), intMap(n)
		return func(int) {
			sink = gmap.Equal(m, k) && gmap.EqualWithFunc(m, k, func(a, b int) bool { return a == b })
		}
	}),
	"extremes": of(func(s []int) {
		less := func(a, b int) bool { return a < b }
		sink = gnumerics.MaxCollection(s) + gnumerics.MinCollection(s) + gnumerics.MaxBy(s, less) + gnumerics.MinBy(s, less)
	}),
	"snake":       ofText("abcXYZ_0é", func(s string) { sink = stringx.SnakeString(s) }),
	"camel":       ofText("abcXYZ_0é", func(s string) { sink = stringx.CamelString(s) }),
	"lint camel":  ofText("abcXYZ0é", func(s string) { sink = stringx.LintCamelString(s) }),
	"indent":      ofText("ab\n\n ", func(s string) { sink = stringx.Indent(s, "  ") }),
	"spaces":      ofText("ab  \t\n", func(s string) { sink = stringx.SpaceInOne(s) }),
	"json string": ofText("ab<&>\"\\\n\x01\u2028é", func(s string) { sink = stringx.StringMarshalJSON(s, len(s)%2 == 0) }),
	"entities":    ofText("ab&", func(s string) { sink = stringx.HTMLEntityToUTF8(strings.ReplaceAll(s, "&", "&#65;"), 10) }),
	"code points": ofText("ab/", func(s string) { sink = stringx.CodePointToUTF8(strings.ReplaceAll(s, "/", `\u0041`), 16) }),
	"password":    ofText("abAB01!", func(s string) { sink = password.CheckPassword(s, 0, 1, len(s)+1) }),
	"digests": ofText("abAB01!", func(s string) {
		b := []byte(s)
		sink = cryptox.Md5(b) + cryptox.Sha256(b)
		_ = cryptox.Fnv1aToUint64(b)
	}),
	"aes ecb, cbc": ofText("abAB01!", func(s string) {
		k := []byte("0123456789abcdef")
		sink, _ = cryptox.AESDecrypt(k, cryptox.AESEncrypt(k, []byte(s), true), true)
		sink, _ = cryptox.AESCBCDecrypt(k, cryptox.AESCBCEncrypt(k, []byte(s)))
	}),
	"aes ctr": ofText("abAB01!", func(s string) {
		k := []byte("0123456789abcdef")
		sink, _ = cryptox.AESCTRDecrypt(k, cryptox.AESCTREncrypt(k, []byte(s)))
	}),
}

var costNames = func() []string {
	s := []string{}
	for k := range costs {
		s = append(s, k)
	}
	// in a fixed order
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
	return s
}()

func numbers(seed uint64) func(int) int {
	return func(n int) int {
		seed += 0x9e3779b97f4a7c15
		z := seed
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return int((z ^ (z >> 31)) % uint64(n))
	}
}

func TestC51_Growth(t *testing.T) {
	pbt.Check(t, pbt.Prop[costPlan]{
		Rule: fmt.Sprintf("one of %d groups of operations, contents of a drawn size (200..500) and of %d times that size; the thread's CPU time per operation must not grow more than 12 times where one operation should cost the same at any size (linear cost: %[2]d times), and not more than 8 times as fast as the size where it should be linear (quadratic: %[2]d times as fast); the best of six attempts counts; ", len(costs), growth) +
			"non-trivial: always",
		Cases:    110,
		NoShrink: true,
		LongCase: true,
		Repeats:  3,
		Gen: func(t *rapid.T) costPlan {
			return costPlan{rapid.SampledFrom(costNames).Draw(t, "what"), rapid.IntRange(200, 500).Draw(t, "n"), rapid.Uint64().Draw(t, "seed")}
		},
		Run: func(c *pbt.Ctx, p costPlan) error {
			runtime.LockOSThread()
			defer runtime.UnlockOSThread()
			x, ok := costs[p.What]
			if !ok {
				return fmt.Errorf("harness: %q", p.What)
			}
			c.NonTrivial()
			c.Label(p.What)
			small := x.make(p.N, numbers(p.Seed))
			large := x.make(growth*p.N, numbers(p.Seed))
			limit := 12.0
			if x.linear {
				limit = 8 * growth
			}
			var a, b time.Duration
			for range 6 {
				a, b = perOp(small, 300*time.Microsecond), perOp(large, 300*time.Microsecond)
				if float64(b) <= limit*float64(max(a, 50)) {
					return nil
				}
			}
			return pbt.Errf("%s: %v at size %d, %v at size %d", p.What, a, p.N, b, growth*p.N)
		},
	})
}

type heapCost struct {
	Start []int
	Ops   []int // push, or pop if negative
}

func TestC51_Heap(t *testing.T) {
	pbt.Check(t, pbt.Prop[heapCost]{
		Rule:  "a heap built from up to 300 values and then up to 300 pushes and pops; the calls of the ordering are counted: at most 2n+2 for the build, log2(n)+2 for a push, 2 log2(n)+2 for a pop; non-trivial: at least 32 values and a pop",
		Cases: 300,
		Gen: func(t *rapid.T) heapCost {
			p := heapCost{}
			n := pbt.Size(t, 300, "n")
			val := rapid.SampledFrom([]int{1, 3, 1000})
			m := val.Draw(t, "span")
			for range n {
				p.Start = append(p.Start, rapid.IntRange(0, m).Draw(t, "v"))
			}
			p.Ops = pbt.Ops(t, 300, func(t *rapid.T) int { return rapid.IntRange(-m, m).Draw(t, "op") })
			return p
		},
		Run: func(c *pbt.Ctx, p heapCost) error {
			calls := 0
			h := gheap.NewWithData(gslice.Copy(p.Start), func(a, b int) bool { calls++; return a < b })
			size := len(p.Start)
			if calls > 2*size+2 {
				return pbt.Errf("building a heap of %d takes %d comparisons", size, calls)
			}
			big, pops := size, 0
			for _, o := range p.Ops {
				calls = 0
				if o >= 0 {
					gheap.Push(h, o)
					size++
					if calls > bits.Len(uint(size))+2 {
						return pbt.Errf("a push onto %d values takes %d comparisons", size-1, calls)
					}
				} else if size > 0 {
					gheap.Pop(h)
					pops++
					if calls > 2*bits.Len(uint(size))+2 {
						return pbt.Errf("a pop from %d values takes %d comparisons", size, calls)
					}
					size--
				}
				big = max(big, size)
			}
			if big >= 32 && pops > 0 {
				c.NonTrivial()
			}
			return nil
		},
	})
}
