package ds

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"regexp"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"gosbverif/pbt"
	"pgregory.net/rapid"
)

// slSeg is a stretch of operations in one order.
type slSeg struct {
	Op   string // insert, delete
	From int
	N    int
	Step int
	Mix  bool // in random order
}

type slLanePlan struct {
	Scale int
	Words bool  // levels from Levels and then a fixed sequence, not from the real source
	Lv    []int `json:",omitempty"`
	Seed  int64
	Segs  []slSeg
}

// slTower is one element as the rendering shows it.
type slTower struct {
	id   int
	next []string
	prev string
}

var (
	slNode = regexp.MustCompile(`^(-?\d+): \[(-?\d+|---)\|(-?\d+|---)\]((?: -> \[(?:-?\d+|---)\])*)$`)
	slBox  = regexp.MustCompile(`\[(-?\d+|---)\]`)
)

// slParse reads the rendering of a list whose values are numbers; ok is false
// when it has some other form.
func slParse(s string) (first []string, nodes []slTower, last []string, ok bool) {
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	if len(lines) < 2 {
		return
	}
	ends := func(l string) (out []string, ok bool) {
		if !strings.HasPrefix(strings.TrimSpace(l), "-->") {
			return nil, false
		}
		for _, m := range slBox.FindAllStringSubmatch(l, -1) {
			out = append(out, m[1])
		}
		return out, true
	}
	if first, ok = ends(lines[0]); !ok {
		return
	}
	if last, ok = ends(lines[len(lines)-1]); !ok {
		return
	}
	for _, l := range lines[1 : len(lines)-1] {
		m := slNode.FindStringSubmatch(l)
		if m == nil {
			return nil, nil, nil, false
		}
		t := slTower{prev: m[2], next: []string{m[3]}}
		t.id, _ = strconv.Atoi(m[1])
		for _, b := range slBox.FindAllStringSubmatch(m[4], -1) {
			t.next = append(t.next, b[1])
		}
		nodes = append(nodes, t)
	}
	return first, nodes, last, true
}

// slShape checks that each level links what reaches it; the result is the mean
// number of steps of a search and of links an element.
func slShape(l *gskiplist.SkipList[int, int], keys []int, random bool) (steps, links float64, parsed bool, err error) {
	first, nodes, last, ok := slParse(l.String())
	if !ok {
		return 0, 0, false, nil
	}
	if len(nodes) != len(keys) {
		return 0, 0, true, pbt.Errf("%d elements are rendered of %d", len(nodes), len(keys))
	}
	prev, top := "---", 0
	for i, n := range nodes {
		if n.id != keys[i] {
			return 0, 0, true, pbt.Errf("element %d of the rendering is %d, want %d", i, n.id, keys[i])
		}
		if n.prev != prev {
			return 0, 0, true, pbt.Errf("the element before %d is rendered as %s, it is %s", n.id, n.prev, prev)
		}
		prev = strconv.Itoa(n.id)
		top = max(top, len(n.next))
		links += float64(len(n.next)) / float64(len(nodes))
	}
	if len(first) != top || len(last) != top {
		return 0, 0, true, pbt.Errf("%d levels have a first and %d a last element, the tallest element reaches %d", len(first), len(last), top)
	}
	for lv := 0; lv < top; lv++ {
		at, who := first[lv], "the start"
		seen := "---"
		for _, n := range nodes {
			if len(n.next) <= lv {
				continue
			}
			if id := strconv.Itoa(n.id); at != id {
				return 0, 0, true, pbt.Errf("on level %d %s leads to %s, the next element there is %s", lv, who, at, id)
			}
			at, who, seen = n.next[lv], strconv.Itoa(n.id), strconv.Itoa(n.id)
		}
		if at != "---" {
			return 0, 0, true, pbt.Errf("on level %d the last element %s leads to %s", lv, who, at)
		}
		if last[lv] != seen {
			return 0, 0, true, pbt.Errf("on level %d the last element is %s, the end leads to %s", lv, seen, last[lv])
		}
	}
	// The way to each element: from the top, right while there is nothing taller
	// on the way, that is: the number of elements that are taller than all
	// between them and the element (strictly or not), plus the levels.
	tall := make([]int, top)
	for _, n := range nodes {
		for lv := range n.next {
			tall[lv]++
		}
	}
	if random {
		lo, hi := 1.0, 0.0
		for lv, n := range tall {
			if n < 300 {
				continue
			}
			up := 0.0
			if lv+1 < top {
				up = float64(tall[lv+1]) / float64(n)
			}
			lo, hi = min(lo, up), max(hi, up)
		}
		if hi-lo > 0.3 || top > 0 && tall[top-1] > 60 {
			return 0, 0, true, pbt.Errf("the levels hold %v elements, which is no fixed fraction of the level below", tall)
		}
	}
	if len(nodes) > 0 {
		total := 0
		stack := []int{} // heights not covered by a taller one behind, falling
		for _, n := range nodes {
			h := len(n.next)
			total += len(stack) + 1 + top
			for len(stack) > 0 && stack[len(stack)-1] < h {
				stack = stack[:len(stack)-1]
			}
			stack = append(stack, h)
		}
		steps = float64(total) / float64(len(nodes))
	}
	return steps, links, true, nil
}

// perOp is the least mean time of a find, insert and delete over some batches.
func perOp(l *gskiplist.SkipList[int, int], keys []int, rnd *rand.Rand) time.Duration {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	best := time.Hour
	for b := 0; b < 6; b++ {
		const n = 60
		at := make([]int, n)
		for i := range at {
			at[i] = keys[rnd.Intn(len(keys))]
		}
		start := time.Now()
		for _, k := range at {
			l.Find(k)
			l.FindGreaterOrEqual(k + 1)
			l.Delete(k)
			l.Insert(k, k)
		}
		best = min(best, time.Since(start)/(4*n))
	}
	return best
}

func runLanes(c *pbt.Ctx, p slLanePlan) error {
	if p.Words {
		var words []uint64
		for _, l := range p.Lv {
			if l >= 25 {
				words = append(words, 0)
			} else {
				words = append(words, 0xfff0_0000_0000_0001<<l|1<<l)
			}
		}
		defer script(words)()
	}
	rnd := rand.New(rand.NewSource(p.Seed))
	l := gskiplist.New[int, int]()
	in := map[int]bool{}
	everMost, removed := 0, 0
	for n, s := range p.Segs {
		step := s.Step
		if step == 0 {
			step = 1
		}
		ks := make([]int, s.N)
		for i := range ks {
			ks[i] = s.From + i*step
		}
		if s.Mix {
			rnd.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		}
		for _, k := range ks {
			if s.Op == "insert" {
				l.Insert(k, k)
				in[k] = true
			} else {
				l.Delete(k)
				if in[k] {
					removed++
				}
				delete(in, k)
			}
		}
		everMost = max(everMost, len(in))
		keys := make([]int, 0, len(in))
		for k := range in {
			keys = append(keys, k)
		}
		slices.Sort(keys)
		what := fmt.Sprintf("after segment %d %+v, %d keys", n, s, len(keys))
		var steps, links float64
		var parsed bool
		var err error
		if p.Scale < 20000 {
			steps, links, parsed, err = slShape(l, keys, !p.Words)
		}
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		c.LabelIf(parsed, "levels read")
		if !p.Words && len(keys) >= 300 {
			if most := 5*math.Log2(float64(len(keys))) + 25; parsed && steps > most {
				return pbt.Errf("%s: a search takes %.0f steps on average, O(log n) is at most %.0f", what, steps, most)
			}
			if parsed && links > 6 {
				return pbt.Errf("%s: %.1f links an element", what, links)
			}
		}
		if p.Scale >= 20000 && len(keys) >= p.Scale/2 {
			c.Label("timed")
			// a search through every element takes ten times that and more
			t := perOp(l, keys, rnd)
			if t > time.Duration(len(keys)/10)*2*time.Nanosecond+5*time.Microsecond {
				slow := t
				for i := 0; i < 4; i++ {
					slow = min(slow, perOp(l, keys, rnd))
				}
				if slow > time.Duration(len(keys)/10)*2*time.Nanosecond+5*time.Microsecond {
					return pbt.Errf("%s: a find, insert or delete takes %v", what, slow)
				}
			}
		}
	}
	if everMost >= 20 && removed > 0 {
		c.NonTrivial()
	}
	return nil
}

func genLanes(scale int, words bool) func(t *rapid.T) slLanePlan {
	return func(t *rapid.T) slLanePlan {
		p := slLanePlan{Scale: scale, Words: words, Seed: rapid.Int64Range(0, 1<<40).Draw(t, "seed")}
		if words {
			p.Lv = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 8, 24, 25}), 0, 60).Draw(t, "levels")
		}
		n := rapid.IntRange(1, 5).Draw(t, "segs")
		if scale >= 20000 {
			n = rapid.IntRange(1, 3).Draw(t, "segs2")
		}
		for i := 0; i < n; i++ {
			s := slSeg{Op: rapid.SampledFrom([]string{"insert", "insert", "delete"}).Draw(t, "op"), Mix: rapid.Bool().Draw(t, "mix")}
			s.N = rapid.IntRange(0, scale).Draw(t, "n")
			if i == 0 || scale >= 20000 && s.Op == "insert" {
				s.Op = "insert"
				s.N = rapid.IntRange(scale/2, scale).Draw(t, "n0")
			}
			s.Step = rapid.SampledFrom([]int{1, 1, -1, 2, -3, 7}).Draw(t, "step")
			s.From = rapid.IntRange(-scale/4, scale).Draw(t, "from")
			p.Segs = append(p.Segs, s)
		}
		return p
	}
}

func TestC41_Levels(t *testing.T) {
	pbt.Check(t, pbt.Prop[slLanePlan]{
		Rule:  "up to 5 segments of up to 60 inserts or deletes (up, down, strided, shuffled) with levels from the plan; after each segment the rendering of the list is read: every level leads in order through exactly the elements that reach it, from the start to the end; non-trivial: 20 keys and a delete",
		Cases: 3000,
		Gen:   genLanes(60, true),
		Run:   runLanes,
	})
}

func TestC41_Steps(t *testing.T) {
	pbt.Check(t, pbt.Prop[slLanePlan]{
		Rule:  "up to 5 segments of up to 1200 inserts or deletes with the real source of levels: as before, and the mean number of steps of a search is O(log n); non-trivial: 20 keys and a delete",
		Cases: 40,
		Gen:   genLanes(1200, false),
		Run:   runLanes,
	})
}

func TestC41_Lanes(t *testing.T) {
	pbt.Check(t, pbt.Prop[slLanePlan]{
		Rule:     "the same with up to 6000 inserts or deletes: in addition, each level with at least 300 elements has about the same fraction of the one below, and the highest few; non-trivial: 20 keys and a delete",
		Cases:    12,
		LongCase: true,
		Gen:      genLanes(6000, false),
		Run:      runLanes,
	})
}

func TestC41_Time(t *testing.T) {
	pbt.Check(t, pbt.Prop[slLanePlan]{
		Rule:     "up to 3 segments of up to 60000 inserts or deletes with the real source of levels: the time of a find, insert or delete (least of several batches) is far below that of a walk through the list; non-trivial: 20 keys and a delete",
		Cases:    30,
		LongCase: true,
		Gen:      genLanes(60000, false),
		Run:      runLanes,
	})
}

// slTall counts the elements on each level by following the links in memory
// (rendering so many takes too long); nil when the list has some other form than
// an array of first elements that hold arrays of next ones.
func slTall(l *gskiplist.SkipList[int, int], want int) []int {
	chains := func(t reflect.Type) (at []int) {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i).Type
			if (f.Kind() == reflect.Array || f.Kind() == reflect.Slice) && f.Elem().Kind() == reflect.Pointer && f.Elem().Elem().Kind() == reflect.Struct {
				at = append(at, i)
			}
		}
		return at
	}
	v := reflect.ValueOf(l).Elem()
	for _, i := range chains(v.Type()) {
		first := v.Field(i)
		node := first.Type().Elem().Elem()
		for _, j := range chains(node) {
			if node.Field(j).Type.Elem().Elem() != node {
				continue
			}
			var tall []int
			for lv := 0; lv < first.Len() && !first.Index(lv).IsNil(); lv++ {
				n := 0
				for e := first.Index(lv); !e.IsNil() && n <= want; n++ {
					next := e.Elem().Field(j)
					if next.Len() <= lv {
						return nil
					}
					e = next.Index(lv)
				}
				tall = append(tall, n)
			}
			if len(tall) > 0 && tall[0] == want {
				return tall
			}
		}
	}
	return nil
}

type slTopPlan struct {
	N    int
	Step int
	Mix  bool
	Cut  int // per cent deleted again
	Seed int64
}

func TestC41_Top(t *testing.T) {
	pbt.Check(t, pbt.Prop[slTopPlan]{
		Rule:     "200000 to 500000 keys (up, down, strided, shuffled), up to half of them deleted again, levels from the real source: by the links in memory, the highest level holds few elements and each level with at least 2000 about the same fraction of the one below; non-trivial: the levels could be read",
		Cases:    1,
		LongCase: true,
		Gen: func(t *rapid.T) slTopPlan {
			return slTopPlan{
				N:    rapid.IntRange(200000, 500000).Draw(t, "n"),
				Step: rapid.SampledFrom([]int{1, -1, 3}).Draw(t, "step"),
				Mix:  rapid.Bool().Draw(t, "mix"),
				Cut:  rapid.SampledFrom([]int{0, 10, 50}).Draw(t, "cut"),
				Seed: rapid.Int64Range(0, 1<<40).Draw(t, "seed"),
			}
		},
		Run: func(c *pbt.Ctx, p slTopPlan) error {
			rnd := rand.New(rand.NewSource(p.Seed))
			ks := make([]int, p.N)
			for i := range ks {
				ks[i] = i * p.Step
			}
			if p.Mix {
				rnd.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
			}
			l := gskiplist.New[int, int]()
			for _, k := range ks {
				l.Insert(k, k)
			}
			cut := p.N * p.Cut / 100
			for _, k := range ks[:cut] {
				l.Delete(k)
			}
			tall := slTall(l, p.N-cut) // elements that reach each level
			if tall == nil {
				c.Label("not read")
				return nil
			}
			c.NonTrivial()
			lo, hi := 1.0, 0.0
			for lv, n := range tall {
				if n < 2000 {
					break
				}
				up := 0.0
				if lv+1 < len(tall) {
					up = float64(tall[lv+1]) / float64(n)
				}
				lo, hi = min(lo, up), max(hi, up)
			}
			// the least number of elements per level with any one fraction is
			// much the same on all levels, 60 on the highest is far from it
			if hi-lo > 0.2 || tall[len(tall)-1] > 60 {
				return pbt.Errf("of %d keys the levels hold %v elements, which is no fixed fraction of the level below", p.N-cut, tall)
			}
			return nil
		},
	})
}
