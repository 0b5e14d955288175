From 791cccff62ed5e6ae4f6c0370bd26b5a579f2848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 01/27] fix: gmap.Equal compares the second map, not the first
 with itself

---
 gogenerics/gcontainers/gmap/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gmap/map.go b/gogenerics/gcontainers/gmap/map.go
index ab0d76f..24f99c8 100644
--- a/gogenerics/gcontainers/gmap/map.go
+++ b/gogenerics/gcontainers/gmap/map.go
@@ -81,7 +81,7 @@ func Equal[K, V comparable](m1, m2 map[K]V) bool {
 	}
 
 	for k, v1 := range m1 {
-		v2, ok := m1[k]
+		v2, ok := m2[k]
 		if !ok || v2 != v1 {
 			return false
 		}
-- 
2.43.0


From 85b787b0cdfac623839d83cd5a747a663db5ec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 02/27] fix: sync.Map CompareAndSwap and CompareAndDelete
 compare the old value

---
 gogenerics/gconcurrent/sync/map.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconcurrent/sync/map.go b/gogenerics/gconcurrent/sync/map.go
index 7d64677..91c1596 100644
--- a/gogenerics/gconcurrent/sync/map.go
+++ b/gogenerics/gconcurrent/sync/map.go
@@ -166,7 +166,7 @@ func (m *Map[K, V]) Store(key K, value V) {
 // the entry unchanged.
 func (e *entry[V]) tryCompareAndSwap(old, new V) bool {
 	p := e.p.Load()
-	if p == nil || unsafe.Pointer(p) == expunged {
+	if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 		return false
 	}
 
@@ -179,7 +179,7 @@ func (e *entry[V]) tryCompareAndSwap(old, new V) bool {
 			return true
 		}
 		p = e.p.Load()
-		if p == nil || unsafe.Pointer(p) == expunged {
+		if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 			return false
 		}
 	}
@@ -434,7 +434,7 @@ func (m *Map[K, V]) CompareAndDelete(key K, old V) (deleted bool) {
 	}
 	for ok {
 		p := e.p.Load()
-		if p == nil || unsafe.Pointer(p) == expunged {
+		if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
 			return false
 		}
 		if e.p.CompareAndSwap(p, nil) {
-- 
2.43.0


From 462053979a86209e5110d53d33770b32790ed292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 03/27] fix: gslice.Merge no longer writes into the spare
 capacity of its first argument

---
 gogenerics/gcontainers/gslice/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gogenerics/gcontainers/gslice/slice.go b/gogenerics/gcontainers/gslice/slice.go
index 5e3a692..e30f18f 100644
--- a/gogenerics/gcontainers/gslice/slice.go
+++ b/gogenerics/gcontainers/gslice/slice.go
@@ -151,7 +151,7 @@ func Merge[T any](s1, s2 []T) []T {
 	if s2 == nil {
 		return Copy(s1)
 	}
-	return append(s1, s2...)
+	return append(Copy(s1), s2...)
 }
 
 // IsSorted reports whether x is sorted in ascending order
-- 
2.43.0


From 79aa452d3e9d8ab3429e92a767188f22a419f43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 04/27] fix: bitset Count and Sub over single-byte and
 unaligned ranges

---
 library/bitset/bitset.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index 757c39f..289783f 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -131,6 +131,9 @@ func (b *BitSet) Count(start, end int) int {
 	if !valid {
 		return 0
 	}
+	if sgi == egi {
+		return bits.OnesCount8(b.set[sgi] << sbi >> (sbi + 7 - ebi))
+	}
 	var n int
 	n += bits.OnesCount8(b.set[sgi] << sbi)
 	for _, v := range b.set[sgi+1 : egi] {
@@ -349,14 +352,18 @@ func (b *BitSet) Sub(start, end int) *BitSet {
 	if !valid {
 		return newBitSet
 	}
+	if sgi == egi {
+		newBitSet.set = append(newBitSet.set, b.set[sgi]>>(7-ebi)<<(7-ebi+sbi))
+		return newBitSet
+	}
 	pre := b.set[sgi] << sbi
 	for _, v := range b.set[sgi+1 : egi] {
-		newBitSet.set = append(newBitSet.set, pre|v>>(7-sbi))
+		newBitSet.set = append(newBitSet.set, pre|v>>(8-sbi))
 		pre = v << sbi
 	}
 	last := b.set[egi] >> (7 - ebi) << (7 - ebi)
-	newBitSet.set = append(newBitSet.set, pre|last>>(7-sbi))
-	if sbi < ebi {
+	newBitSet.set = append(newBitSet.set, pre|last>>(8-sbi))
+	if sbi <= ebi {
 		newBitSet.set = append(newBitSet.set, last<<sbi)
 	}
 	return newBitSet
-- 
2.43.0


From e5689c450092fa112afb19a73095aeaab4631315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 05/27] fix: bitset And/Or/Xor/AndNot cannot deadlock with
 writers or each other

---
 library/bitset/bitset.go | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/library/bitset/bitset.go b/library/bitset/bitset.go
index 289783f..52bc01b 100644
--- a/library/bitset/bitset.go
+++ b/library/bitset/bitset.go
@@ -6,7 +6,9 @@ import (
 	"errors"
 	"fmt"
 	"math/bits"
+	"sort"
 	"sync"
+	"unsafe"
 
 	"github.com/miniLCT/gosb/hack/unsafex"
 )
@@ -187,20 +189,16 @@ func (b *BitSet) Not() *BitSet {
 //
 //	If the bitSets are empty, returns b.
 func (b *BitSet) And(bitSets ...*BitSet) *BitSet {
-	b.mu.RLock()
-	defer b.mu.RUnlock()
 	if len(bitSets) == 0 {
 		return b
 	}
+	defer rlock(b, bitSets)()
 	var (
 		maxLen  = len(b.set)
 		minLen  = maxLen
 		currLen int
 	)
 	for _, g := range bitSets {
-		g.mu.RLock()
-		defer g.mu.RUnlock()
-
 		currLen = len(g.set)
 		if currLen > maxLen {
 			maxLen = currLen
@@ -220,6 +218,32 @@ func (b *BitSet) And(bitSets ...*BitSet) *BitSet {
 	return rBitSet
 }
 
+// rlock read-locks b and all the bitSets and returns the function that unlocks them.
+// Each distinct set is locked once, in address order, so that concurrent
+// operations on the same sets cannot wait for each other in a cycle.
+func rlock(b *BitSet, bitSets []*BitSet) func() {
+	sets := append([]*BitSet{b}, bitSets...)
+	sort.Slice(sets, func(i, j int) bool {
+		return uintptr(unsafe.Pointer(sets[i])) < uintptr(unsafe.Pointer(sets[j]))
+	})
+	n := 0
+	for _, g := range sets {
+		if n == 0 || sets[n-1] != g {
+			sets[n] = g
+			n++
+		}
+	}
+	sets = sets[:n]
+	for _, g := range sets {
+		g.mu.RLock()
+	}
+	return func() {
+		for _, g := range sets {
+			g.mu.RUnlock()
+		}
+	}
+}
+
 // Or returns all the "OR" bit sets.
 // NOTE:
 //
@@ -248,14 +272,11 @@ func (b *BitSet) op(op string, bitSets []*BitSet) *BitSet {
 	if len(bitSets) == 0 {
 		return b
 	}
-	b.mu.RLock()
-	defer b.mu.RUnlock()
+	defer rlock(b, bitSets)()
 	var (
 		maxLen, currLen = len(b.set), 0
 	)
 	for _, g := range bitSets {
-		g.mu.RLock()
-		defer g.mu.RUnlock()
 		currLen = len(g.set)
 		if currLen > maxLen {
 			maxLen = currLen
-- 
2.43.0


From 2246951f0ddbfce1d95352eb97adfcdd0a9a680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 06/27] fix: LRUCacheV2.MGet takes the lock

---
 library/cachex/lrucache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/cachex/lrucache.go b/library/cachex/lrucache.go
index 7b800be..215c02b 100644
--- a/library/cachex/lrucache.go
+++ b/library/cachex/lrucache.go
@@ -98,6 +98,8 @@ func (lc *LRUCacheV2[K, V]) MGet(_ context.Context, keys ...K) ([]V, []bool, err
 	}
 	values := make([]V, len(keys))
 	oks := make([]bool, len(keys))
+	lc.mux.Lock()
+	defer lc.mux.Unlock()
 	for idx, key := range keys {
 		val, ok := lc.getOne(key)
 		values[idx] = val
-- 
2.43.0


From c5fea5c36ed6c3ea716a2dc90dbe4104f031281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 07/27] fix: Chain.MGet answers every position of a repeated
 key

---
 library/cachex/cache.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/library/cachex/cache.go b/library/cachex/cache.go
index c6ec8e5..d2961ad 100644
--- a/library/cachex/cache.go
+++ b/library/cachex/cache.go
@@ -157,10 +157,15 @@ func (c *Chain[K, V]) MGet(ctx context.Context, keys ...K) ([]V, []bool, error)
 		return nil, nil, nil
 	}
 	length := len(keys)
-	indexMap := make(map[K]int, length)
+	indexMap := make(map[K][]int, length)
+	uniqKeys := make([]K, 0, length)
 	for i, k := range keys {
-		indexMap[k] = i
+		if _, ok := indexMap[k]; !ok {
+			uniqKeys = append(uniqKeys, k)
+		}
+		indexMap[k] = append(indexMap[k], i)
 	}
+	keys = uniqKeys
 	values := make([]V, length)
 	status := make([]bool, length)
 	var err error
@@ -176,9 +181,10 @@ func (c *Chain[K, V]) MGet(ctx context.Context, keys ...K) ([]V, []bool, error)
 		}
 		for j := 0; j < len(oks); j++ {
 			if oks[j] {
-				keyIndex := indexMap[keys[j]]
-				values[keyIndex] = vals[j]
-				status[keyIndex] = true
+				for _, keyIndex := range indexMap[keys[j]] {
+					values[keyIndex] = vals[j]
+					status[keyIndex] = true
+				}
 			}
 		}
 		// Set the content queried from the next-level cache to the upper-level cache
-- 
2.43.0


From d4f38e3e5938d86dcc7eec0b4b41937c5b14c503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 08/27] fix: AES encryption no longer pads inside the caller's
 buffer

---
 library/cryptox/cryptox.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index cb29f56..ac04019 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -203,6 +203,8 @@ func mustNewCipher(cipherKey []byte) cipher.Block {
 
 func pkcs5Padding(plainText []byte, blockSize int) []byte {
 	n := byte(blockSize - len(plainText)%blockSize)
+	// Copy on append: never write into the spare capacity of the caller's slice.
+	plainText = plainText[:len(plainText):len(plainText)]
 	for i := byte(0); i < n; i++ {
 		plainText = append(plainText, n)
 	}
-- 
2.43.0


From 6ed59619b87ab5e4044be02250c6815d1d3f0b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 09/27] fix: AESDecrypt returns an error for ciphertext that is
 not whole blocks

---
 library/cryptox/cryptox.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index ac04019..d7abd68 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -87,6 +87,9 @@ func AESDecrypt(cipherKey, ciphertext []byte, useBase64 ...bool) ([]byte, error)
 		return nil, err
 	}
 	blockSize := block.BlockSize()
+	if len(src)%blockSize != 0 {
+		return nil, errors.New("ciphertext is not a multiple of the block size")
+	}
 	r := make([]byte, len(src))
 	dst := r
 	for len(src) > 0 {
-- 
2.43.0


From b0cfa017195d156ed6e77206df4f69547759cbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 10/27] fix: AES decryption rejects padding bytes outside 1 to
 16

---
 library/cryptox/cryptox.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cryptox/cryptox.go b/library/cryptox/cryptox.go
index d7abd68..23e51ec 100644
--- a/library/cryptox/cryptox.go
+++ b/library/cryptox/cryptox.go
@@ -220,7 +220,7 @@ func pkcs5Unpadding(r []byte) ([]byte, error) {
 		return nil, errors.New("input padded bytes is empty")
 	}
 	last := int(r[l-1])
-	if l-last < 0 {
+	if last == 0 || last > aes.BlockSize || l-last < 0 {
 		return nil, errors.New("input padded bytes is invalid")
 	}
 	n := byte(last)
-- 
2.43.0


From 9bd4a38915bce0c8e83abbbc010e08b2701c78a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 11/27] fix: AtomicError accepts errors of different concrete
 types

---
 gogenerics/gconstraints/errors.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconstraints/errors.go b/gogenerics/gconstraints/errors.go
index 81c3bbd..77a6728 100644
--- a/gogenerics/gconstraints/errors.go
+++ b/gogenerics/gconstraints/errors.go
@@ -7,20 +7,25 @@ import (
 // AtomicError defines an atomic error.
 
 type AtomicError struct {
-	err atomic.Value // error
+	err atomic.Value // errorBox
+}
+
+// errorBox lets errors of different concrete types be stored in one atomic.Value.
+type errorBox struct {
+	err error
 }
 
 // Set sets the error.
 func (ae *AtomicError) Set(err error) {
 	if err != nil {
-		ae.err.Store(err)
+		ae.err.Store(errorBox{err})
 	}
 }
 
 // Load returns the error.
 func (ae *AtomicError) Load() error {
 	if v := ae.err.Load(); v != nil {
-		return v.(error)
+		return v.(errorBox).err
 	}
 	return nil
 }
-- 
2.43.0


From 5a92bae3e6e62fa874738f461fbac33f388d828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 12/27] fix: mr keeps late panics, results and cancellations
 from blocking or crashing

---
 gogenerics/gconcurrent/mr/mr.go | 69 +++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 16 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 2c7d316..5108607 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -104,7 +104,7 @@ func FinishVoid(fns ...func()) {
 // ForEach maps all elements from given generate but no output.
 func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Option) {
 	options := buildOptions(opts...)
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	source := buildSource(generate, panicChan)
 	collector := make(chan any)
 	done := make(chan struct{})
@@ -127,6 +127,7 @@ func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Opt
 			panic(v)
 		case _, ok := <-collector:
 			if !ok {
+				panicChan.repanic()
 				return
 			}
 		}
@@ -137,7 +138,7 @@ func ForEach[T any](generate GenerateFunc[T], mapper ForEachFunc[T], opts ...Opt
 // and reduces the output elements with given reducer.
 func MapReduce[T, U, V any](generate GenerateFunc[T], mapper MapperFunc[T, U], reducer ReducerFunc[U, V],
 	opts ...Option) (V, error) {
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	source := buildSource(generate, panicChan)
 	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
 }
@@ -145,7 +146,7 @@ func MapReduce[T, U, V any](generate GenerateFunc[T], mapper MapperFunc[T, U], r
 // MapReduceChan maps all elements from source, and reduce the output elements with given reducer.
 func MapReduceChan[T, U, V any](source <-chan T, mapper MapperFunc[T, U], reducer ReducerFunc[U, V],
 	opts ...Option) (V, error) {
-	panicChan := &onceChan{channel: make(chan any)}
+	panicChan := newOnceChan()
 	return mapReduceWithPanicChan(source, panicChan, mapper, reducer, opts...)
 }
 
@@ -155,12 +156,6 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 	options := buildOptions(opts...)
 	// output is used to write the final result
 	output := make(chan V)
-	defer func() {
-		// reducer can only write once, if more, panic
-		for range output {
-			panic("more than one element written in reducer")
-		}
-	}()
 
 	// collector is used to collect data from mapper, and consume in reducer
 	collector := make(chan U, options.workers)
@@ -173,9 +168,19 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 	finish := func() {
 		closeOnce.Do(func() {
 			close(done)
-			close(output)
 		})
 	}
+	defer func() {
+		select {
+		case <-output:
+			// reducer can only write once, if more, panic
+			finish()
+			panic("more than one element written in reducer")
+		case <-done:
+		}
+		// don't lose a panic raised after the result was written
+		panicChan.repanic()
+	}()
 	cancel := once(func(err error) {
 		if err != nil {
 			retErr.Set(err)
@@ -216,17 +221,29 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 		cancel(context.DeadlineExceeded)
 		err = context.DeadlineExceeded
 	case v := <-panicChan.channel:
-		// drain output here, otherwise for loop panic in defer
-		drain(output)
+		// wait for the reducer, drop what it writes, otherwise panic in defer
+		for waiting := true; waiting; {
+			select {
+			case <-output:
+			case <-done:
+				waiting = false
+			}
+		}
 		panic(v)
-	case v, ok := <-output:
+	case <-done:
 		if e := retErr.Load(); e != nil {
 			err = e
-		} else if ok {
-			val = v
+		} else if options.ctx.Err() != nil {
+			err = context.DeadlineExceeded
 		} else {
 			err = ErrReduceNoOutput
 		}
+	case v := <-output:
+		if e := retErr.Load(); e != nil {
+			err = e
+		} else {
+			val = v
+		}
 	}
 
 	return
@@ -375,15 +392,35 @@ func (gw guardedWriter[T]) Write(v T) {
 	case <-gw.done:
 		return
 	default:
-		gw.channel <- v
+	}
+
+	select {
+	case <-gw.ctx.Done():
+	case <-gw.done:
+	case gw.channel <- v:
 	}
 }
 
+// newOnceChan returns a onceChan whose single value can be written
+// whether or not somebody still waits for it.
+func newOnceChan() *onceChan {
+	return &onceChan{channel: make(chan any, 1)}
+}
+
 type onceChan struct {
 	channel chan any
 	wrote   int32
 }
 
+// repanic panics with the written value, if there is one.
+func (oc *onceChan) repanic() {
+	select {
+	case v := <-oc.channel:
+		panic(v)
+	default:
+	}
+}
+
 func (oc *onceChan) write(val any) {
 	if atomic.CompareAndSwapInt32(&oc.wrote, 0, 1) {
 		oc.channel <- val
-- 
2.43.0


From dc3e3375ac2f673b255034d791c970ecbc9aced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 13/27] fix: MapReduceVoid and Finish return every error they
 are given

---
 gogenerics/gconcurrent/mr/mr.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 5108607..a3eb700 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -255,10 +255,10 @@ func MapReduceVoid[T, U any](generate GenerateFunc[T], mapper MapperFunc[T, U],
 	reducer VoidReducerFunc[U], opts ...Option) error {
 	_, err := MapReduce(generate, mapper, func(input <-chan U, writer Writer[any], cancel func(error)) {
 		reducer(input, cancel)
+		// wait for the mappers, one of them may still cancel
+		drain(input)
+		writer.Write(nil)
 	}, opts...)
-	if errors.Is(err, ErrReduceNoOutput) {
-		return nil
-	}
 
 	return err
 }
-- 
2.43.0


From 2c577aaf75d213679316292429ed68365561ce2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 14/27] fix: FileStore background cleaning leaves files that
 are not its own alone

---
 library/cachex/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index be9cd26..93f46ad 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -221,7 +221,7 @@ func (f *FileStore[K, V]) scanExpire() {
 		if err != nil {
 			return nil
 		}
-		if d.IsDir() {
+		if d.IsDir() || !strings.HasSuffix(path, cacheFileExt) {
 			return nil
 		}
 		_, _, _ = f.readFile(path)
-- 
2.43.0


From 878f477b89e232ba13a32f8c4cdc59be364e8ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 15/27] fix: FileStore.Purge neither removes directories nor
 fails because of them

---
 library/cachex/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 93f46ad..068b012 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -237,9 +237,9 @@ func (f *FileStore[K, V]) Purge() error {
 	var lastErr error
 	var errTotal int
 	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
-		if strings.HasSuffix(path, cacheFileExt) {
+		if d != nil && !d.IsDir() && strings.HasSuffix(path, cacheFileExt) {
 			e := os.Remove(path)
-			if e != nil && !os.IsNotExist(err) {
+			if e != nil && !os.IsNotExist(e) {
 				errTotal++
 				lastErr = e
 			}
-- 
2.43.0


From dff433ce9dfce20be5f0fd945ab4f17d97ddbd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 16/27] fix: FileStore no longer panics on a cache file holding
 null

---
 library/cachex/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 068b012..1303ed4 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -71,7 +71,7 @@ func (f *FileStore[K, V]) readFile(fp string) (V, bool, error) {
 		return emp, false, err
 	}
 	item := &fileCacheItem[K, V]{}
-	err = json.Unmarshal(content, &item)
+	err = json.Unmarshal(content, item)
 	if err != nil {
 		_ = os.Remove(fp)
 		var emp V
-- 
2.43.0


From 8b9acc18954409b1cf5b394425e95dc2626e0f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 17/27] fix: FileStore entries with a very long TTL no longer
 expire at once

---
 library/cachex/file.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 1303ed4..c5ed5eb 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	"io/fs"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -94,12 +95,19 @@ func (f *FileStore[K, V]) Set(ctx context.Context, key K, value V, ttl time.Dura
 	}
 	defer f.gc()
 
+	exp := time.Now().UnixNano()
+	if int64(ttl) > math.MaxInt64-exp {
+		exp = math.MaxInt64
+	} else {
+		exp += int64(ttl)
+	}
+
 	fp := f.getFilePath(key)
 	item := fileCacheItem[K, V]{
 		Data: value,
 		Key:  key,
 		TTL:  int64(ttl),
-		Exp:  time.Now().Add(ttl).UnixNano(),
+		Exp:  exp,
 	}
 	content, err := json.MarshalIndent(item, "", "  ")
 	if err != nil {
-- 
2.43.0


From 2e19df0411007b8b1fded2548f5f68b7fa7a5b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 18/27] fix: FileStore readers and cleaning no longer tear or
 remove a value being written

---
 library/cachex/file.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index c5ed5eb..688bb64 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -12,6 +12,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"sync"
 	"sync/atomic"
 	"time"
 )
@@ -37,6 +38,7 @@ type FileStore[K comparable, V any] struct {
 	// Every GCCycle duration, when calling Set, Get, and other interfaces, a background goroutine is started to scan files and delete expired cache files.
 	GCCycle time.Duration
 
+	mux      sync.Mutex // guards the cache files
 	lastGC   atomic.Int64
 	gcStatus atomic.Bool
 }
@@ -63,6 +65,8 @@ func (f *FileStore[K, V]) Get(_ context.Context, key K) (V, bool, error) {
 }
 
 func (f *FileStore[K, V]) readFile(fp string) (V, bool, error) {
+	f.mux.Lock()
+	defer f.mux.Unlock()
 	content, err := os.ReadFile(fp)
 	if err != nil {
 		var emp V
@@ -113,6 +117,8 @@ func (f *FileStore[K, V]) Set(ctx context.Context, key K, value V, ttl time.Dura
 	if err != nil {
 		return err
 	}
+	f.mux.Lock()
+	defer f.mux.Unlock()
 	dir := filepath.Dir(fp)
 	_, err = os.Stat(dir)
 	if err != nil && os.IsNotExist(err) {
@@ -180,7 +186,9 @@ func (f *FileStore[K, V]) Delete(ctx context.Context, keys ...K) error {
 	var errs []error
 	for _, k := range keys {
 		fp := f.getFilePath(k)
+		f.mux.Lock()
 		err := os.Remove(fp)
+		f.mux.Unlock()
 		if err == nil || os.IsNotExist(err) {
 			continue
 		}
-- 
2.43.0


From 1b5f832e9451940dbe304d9a2fa93a75c8571f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 19/27] fix: FileStore keeps keys apart that print alike

---
 library/cachex/file.go | 51 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 688bb64..e1ea824 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -11,6 +11,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"reflect"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -44,7 +45,7 @@ type FileStore[K comparable, V any] struct {
 }
 
 func (f *FileStore[K, V]) getFilePath(key K) string {
-	str := fmt.Sprint(key)
+	str := keyString(key)
 	h := md5.New()
 	h.Write([]byte(str))
 	s := hex.EncodeToString(h.Sum(nil))
@@ -52,6 +53,54 @@ func (f *FileStore[K, V]) getFilePath(key K) string {
 	return fp + cacheFileExt
 }
 
+// keyString renders key such that different keys have different strings.
+func keyString(key any) string {
+	var sb strings.Builder
+	var write func(v reflect.Value)
+	write = func(v reflect.Value) {
+		if !v.IsValid() {
+			sb.WriteString("nil;")
+			return
+		}
+		sb.WriteString(v.Type().String())
+		if v.CanInterface() {
+			if t, ok := v.Interface().(time.Time); ok {
+				// Not field by field: it holds a pointer to its location.
+				fmt.Fprintf(&sb, "(%s);", t)
+				return
+			}
+		}
+		switch {
+		case v.Kind() == reflect.Interface:
+			write(v.Elem())
+		case v.Kind() == reflect.Struct:
+			for i := 0; i < v.NumField(); i++ {
+				write(v.Field(i))
+			}
+		case v.Kind() == reflect.Array:
+			for i := 0; i < v.Len(); i++ {
+				write(v.Index(i))
+			}
+		case v.Kind() == reflect.String:
+			fmt.Fprintf(&sb, "%q;", v.String())
+		case v.Kind() == reflect.Bool:
+			fmt.Fprintf(&sb, "(%t);", v.Bool())
+		case v.CanInt():
+			fmt.Fprintf(&sb, "(%d);", v.Int())
+		case v.CanUint():
+			fmt.Fprintf(&sb, "(%d);", v.Uint())
+		case v.CanFloat():
+			fmt.Fprintf(&sb, "(%v);", v.Float()+0) // +0: -0 and 0 are the same key
+		case v.CanComplex():
+			fmt.Fprintf(&sb, "(%v);", v.Complex()+0)
+		default:
+			fmt.Fprintf(&sb, "(%x);", v.Pointer())
+		}
+	}
+	write(reflect.ValueOf(key))
+	return sb.String()
+}
+
 // Get Read the content from the cache
 // Return values:
 //
-- 
2.43.0


From 179e2ca017a87202015d2ab395fe2b98f435cbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 20/27] fix: FileStore cleaning and Purge work when Dir is a
 symbolic link

---
 library/cachex/file.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index e1ea824..2011ad1 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -281,8 +281,19 @@ func (f *FileStore[K, V]) gc() {
 	}()
 }
 
+// rootDir is Dir with symbolic links resolved, as filepath.WalkDir does not follow them.
+func (f *FileStore[K, V]) rootDir() string {
+	if f.Dir == "" {
+		return ""
+	}
+	if dir, err := filepath.EvalSymlinks(f.Dir); err == nil {
+		return dir
+	}
+	return f.Dir
+}
+
 func (f *FileStore[K, V]) scanExpire() {
-	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
+	_ = filepath.WalkDir(f.rootDir(), func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
 			return nil
 		}
@@ -301,7 +312,7 @@ func (f *FileStore[K, V]) Purge() error {
 	}
 	var lastErr error
 	var errTotal int
-	_ = filepath.WalkDir(f.Dir, func(path string, d fs.DirEntry, err error) error {
+	_ = filepath.WalkDir(f.rootDir(), func(path string, d fs.DirEntry, err error) error {
 		if d != nil && !d.IsDir() && strings.HasSuffix(path, cacheFileExt) {
 			e := os.Remove(path)
 			if e != nil && !os.IsNotExist(e) {
-- 
2.43.0


From f309081f71cce979e78be427a420fa56b5d28c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 21/27] fix: HTMLEntityToUTF8 decodes each entity on its own

---
 library/stringx/stringx.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/library/stringx/stringx.go b/library/stringx/stringx.go
index 2b90b6f..246d827 100644
--- a/library/stringx/stringx.go
+++ b/library/stringx/stringx.go
@@ -192,18 +192,12 @@ var htmlEntityRegexp = regexp.MustCompile(`&#([0-9a-zA-Z]+);*`)
 // e.g.: HTMLEntityToUTF8(`{"info":[["color","&#5496;&#5561;&#8272;&#7c;&#7eff;&#8272;"]]｝`, 16)
 // => `{"info":[["color","咖啡色|绿色"]]｝`
 func HTMLEntityToUTF8(str string, base int) string {
-	a := htmlEntityRegexp.FindAllStringSubmatch(str, -1)
-	if len(a) == 0 {
-		return str
-	}
-	oldnew := make([]string, 0, len(a)*2)
-	for _, s := range a {
-		if i, err := strconv.ParseInt(s[1], base, 32); err == nil {
-			oldnew = append(oldnew, s[0], string(rune(i)))
+	return htmlEntityRegexp.ReplaceAllStringFunc(str, func(s string) string {
+		if i, err := strconv.ParseInt(strings.TrimRight(s[len("&#"):], ";"), base, 32); err == nil {
+			return string(rune(i))
 		}
-	}
-	r := strings.NewReplacer(oldnew...)
-	return r.Replace(str)
+		return s
+	})
 }
 
 // CodePointToUTF8 converts Unicode Code Point to UTF-8.
-- 
2.43.0


From c918b2095a352c3190b9cfa92fe2133d930794b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 22/27] fix: CodePointToUTF8 decodes only code points and keeps
 the rest of the text

---
 library/stringx/stringx.go | 40 +++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/library/stringx/stringx.go b/library/stringx/stringx.go
index 246d827..4119b00 100644
--- a/library/stringx/stringx.go
+++ b/library/stringx/stringx.go
@@ -204,22 +204,36 @@ func HTMLEntityToUTF8(str string, base int) string {
 // e.g.: CodePointToUTF8(`{"info":[["color","\u5496\u5561\u8272\u7c\u7eff\u8272"]]｝`, 16)
 // => `{"info":[["color","咖啡色|绿色"]]｝`
 func CodePointToUTF8(str string, base int) string {
-	i := 0
-	if strings.Index(str, `\u`) > 0 {
-		i = 1
+	if base < 2 || base > 36 {
+		return str
 	}
-	strSlice := strings.Split(str, `\u`)
-	last := len(strSlice) - 1
-	if len(strSlice[last]) > 4 {
-		strSlice = append(strSlice, string(strSlice[last][4:]))
-		strSlice[last] = string(strSlice[last][:4])
-	}
-	for ; i <= last; i++ {
-		if x, err := strconv.ParseInt(strSlice[i], base, 32); err == nil {
-			strSlice[i] = string(rune(x))
+	maxDigits := len(strconv.FormatInt(0xFFFF, base))
+	var sb strings.Builder
+	for {
+		i := strings.Index(str, `\u`)
+		if i < 0 {
+			sb.WriteString(str)
+			return sb.String()
+		}
+		sb.WriteString(str[:i])
+		str = str[i:]
+		n := 2
+		for n < len(str) && n < 2+maxDigits && isDigit(str[n], base) {
+			n++
+		}
+		if x, err := strconv.ParseInt(str[2:n], base, 32); err == nil {
+			sb.WriteString(string(rune(x)))
+		} else {
+			sb.WriteString(str[:n])
 		}
+		str = str[n:]
 	}
-	return strings.Join(strSlice, "")
+}
+
+// isDigit reports whether c is a digit in the given base.
+func isDigit(c byte, base int) bool {
+	_, err := strconv.ParseUint(string(rune(c)), base, 8)
+	return err == nil
 }
 
 var spaceReplacer = strings.NewReplacer(
-- 
2.43.0


From c9fd53fef0c72a3d200294aaf3b44a156edcb11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 23/27] fix: let programs that use fastrand.Uint or Uintn link
 since Go 1.22

---
 hack/fastrand/runtime19.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hack/fastrand/runtime19.go b/hack/fastrand/runtime19.go
index 6244da5..9beeb09 100644
--- a/hack/fastrand/runtime19.go
+++ b/hack/fastrand/runtime19.go
@@ -13,5 +13,10 @@ func runtimefastrand() uint32
 //go:linkname runtimefastrand64 runtime.fastrand64
 func runtimefastrand64() uint64
 
-//go:linkname runtimefastrandu runtime.fastrandu
-func runtimefastrandu() uint
+// runtimefastrandu does not link to runtime.fastrandu: that symbol is gone since Go 1.22.
+func runtimefastrandu() uint {
+	if ^uint(0)>>32 == 0 {
+		return uint(runtimefastrand())
+	}
+	return uint(runtimefastrand64())
+}
-- 
2.43.0


From 23a544ecfcbef82f95cd1aeeacf1dac8a028fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 24/27] fix: mr records a reducer's panic before waiting for
 the mappers

The context ending while the mappers were still busy made the call return
a context error and lose the panic.
---
 gogenerics/gconcurrent/mr/mr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index a3eb700..635e7de 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -194,10 +194,10 @@ func mapReduceWithPanicChan[T, U, V any](source <-chan T, panicChan *onceChan, m
 
 	go func() {
 		defer func() {
-			drain(collector)
 			if r := recover(); r != nil {
 				panicChan.write(r)
 			}
+			drain(collector)
 			finish()
 		}()
 
-- 
2.43.0


From b72c3ca214247f1666577904eef2d70e4ab0a50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 25/27] fix: mr: no panic is lost when two happen at once

---
 gogenerics/gconcurrent/mr/mr.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gogenerics/gconcurrent/mr/mr.go b/gogenerics/gconcurrent/mr/mr.go
index 635e7de..dfef3ce 100644
--- a/gogenerics/gconcurrent/mr/mr.go
+++ b/gogenerics/gconcurrent/mr/mr.go
@@ -409,7 +409,7 @@ func newOnceChan() *onceChan {
 
 type onceChan struct {
 	channel chan any
-	wrote   int32
+	once    sync.Once
 }
 
 // repanic panics with the written value, if there is one.
@@ -421,8 +421,9 @@ func (oc *onceChan) repanic() {
 	}
 }
 
+// write returns once a value is in the channel, be it this or an earlier one.
 func (oc *onceChan) write(val any) {
-	if atomic.CompareAndSwapInt32(&oc.wrote, 0, 1) {
+	oc.once.Do(func() {
 		oc.channel <- val
-	}
+	})
 }
-- 
2.43.0


From 5aebcedb9a4ba7ef47751f5fce6deed8deac802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:46 +0000
Subject: [PATCH 26/27] fix: FileStore.Purge reports directories it cannot read

---
 library/cachex/file.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/library/cachex/file.go b/library/cachex/file.go
index 2011ad1..d500334 100644
--- a/library/cachex/file.go
+++ b/library/cachex/file.go
@@ -313,6 +313,14 @@ func (f *FileStore[K, V]) Purge() error {
 	var lastErr error
 	var errTotal int
 	_ = filepath.WalkDir(f.rootDir(), func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			// What is below path is not seen and so not deleted.
+			if !os.IsNotExist(err) {
+				errTotal++
+				lastErr = err
+			}
+			return nil
+		}
 		if d != nil && !d.IsDir() && strings.HasSuffix(path, cacheFileExt) {
 			e := os.Remove(path)
 			if e != nil && !os.IsNotExist(e) {
-- 
2.43.0


From d769fed834cb91ae8051ba7f188f19de1e1d67f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:41 +0000
Subject: [PATCH 27/27] fix: cachex: batch results keep their own copy of the
 keys

---
 library/cachex/cache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/cachex/cache.go b/library/cachex/cache.go
index d2961ad..a694067 100644
--- a/library/cachex/cache.go
+++ b/library/cachex/cache.go
@@ -293,9 +293,11 @@ func (n *NoCache[K, V]) MSet(ctx context.Context, kvs map[K]V, ttl time.Duration
 
 // MGet is an auxiliary method for MGetter, providing a friendlier result.
 func MGet[K comparable, V any](ctx context.Context, cache MGetter[K, V], keys ...K) (MGetResult[K, V], error) {
+	// The result must not change when the caller uses its slice again.
+	own := append([]K(nil), keys...)
 	values, hits, err := cache.MGet(ctx, keys...)
 	return MGetResult[K, V]{
-		keys:   keys,
+		keys:   own,
 		values: values,
 		hits:   hits,
 	}, err
-- 
2.43.0

