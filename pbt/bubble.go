package pbt

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
)

// Bubble runs f in a synctest bubble: time is virtual and only advances when
// every goroutine started inside is blocked. A deadlock of the bubble and a
// panic of f are returned as errors. (A panic of another goroutine ends the
// process; the driver replays it.)
func Bubble(t *testing.T, f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if err != nil {
				return // f's own error says more
			}
			if strings.Contains(s, "deadlock") {
				err = fmt.Errorf("blocked for ever: %s", s)
				return
			}
			err = fmt.Errorf("panic: %v", s)
		}
	}()
	synctest.Test(t, func(*testing.T) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		err = f()
	})
	return
}

var scratchN atomic.Int64

// Scratch makes an empty directory for one case and the function removing it.
func Scratch() (string, func()) {
	root := os.Getenv("PBT_SCRATCH")
	if root == "" {
		root = filepath.Join(os.TempDir(), "pbt-scratch")
	}
	dir := filepath.Join(root, fmt.Sprintf("c%d", scratchN.Add(1)))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic("harness: " + err.Error())
	}
	return dir, func() { _ = os.RemoveAll(dir) }
}
