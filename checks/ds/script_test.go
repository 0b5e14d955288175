//go:build !novars

package ds

import "github.com/miniLCT/gosb/hack/fastrand"

// script replaces the generator the skip list draws its levels from: the given
// words first, then a fixed deterministic sequence.
func script(words []uint64) (restore func()) {
	o32, o64, ou := fastrand.Uint32, fastrand.Uint64, fastrand.Uint
	i := 0
	x := uint64(0x9e3779b97f4a7c15)
	next := func() uint64 {
		if i < len(words) {
			i++
			return words[i-1]
		}
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return x
	}
	fastrand.Uint64 = next
	fastrand.Uint32 = func() uint32 { return uint32(next()) }
	fastrand.Uint = func() uint { return uint(next()) }
	return func() { fastrand.Uint32, fastrand.Uint64, fastrand.Uint = o32, o64, ou }
}
