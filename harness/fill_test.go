package ctngverif

import (
	"os"
	"unsafe"

	"github.com/bits-and-blooms/bitset"
)

// fill overwrites *dst with *src; nothing uses dst at that time. The race
// detector does not see that, for the goroutines of the Start function that dst
// was made for, which have only their timers left (see capture), so that it is
// told to forget what it knows about dst, as if dst was allocated anew.
//
//go:norace
func fill[T any](dst, src *T) {
	if forget != nil {
		forget(unsafe.Pointer(dst), unsafe.Sizeof(*dst))
	}
	*dst = *src
}

var forget func(p unsafe.Pointer, n uintptr) // under the race detector

func bitmap() map[string]*bitset.BitSet { return map[string]*bitset.BitSet{} }

// scratch returns a directory for one case.
func scratch() string {
	d, err := os.MkdirTemp(workDir, "case")
	if err != nil {
		panic(err)
	}
	return d
}
