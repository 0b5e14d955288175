//go:build !novars

package rnd

import "github.com/miniLCT/gosb/hack/fastrand"

// install replaces the underlying generator with the given words followed by a
// seeded uniform sequence.
func install(seed uint64, words []uint64) (*source, func()) {
	o32, o64, ou := fastrand.Uint32, fastrand.Uint64, fastrand.Uint
	s := &source{words: words, x: seed}
	fastrand.Uint64 = s.next
	fastrand.Uint32 = func() uint32 { return uint32(s.next()) }
	fastrand.Uint = func() uint { return uint(s.next()) }
	return s, func() { fastrand.Uint32, fastrand.Uint64, fastrand.Uint = o32, o64, ou }
}
