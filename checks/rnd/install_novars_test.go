//go:build novars

package rnd

// Used when the generator is not made of replaceable functions any more: the
// words then come from the real source and are not chosen.

func install(seed uint64, words []uint64) (*source, func()) {
	return &source{words: words, x: seed}, func() {}
}
