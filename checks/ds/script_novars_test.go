//go:build novars

package ds

// Used when the generator is not made of replaceable functions any more: the
// levels are then whatever the real source gives.

func script(words []uint64) (restore func()) { return func() {} }
