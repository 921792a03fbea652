package vt

import (
	"testing"
	"testing/synctest"
)

// Virtual runs f on virtual time: the clock only moves when every goroutine
// waits, so nothing depends on the speed of the machine. The components start
// background goroutines that never end, so the process exits when f is done.
func Virtual(t *testing.T, r *R, f func(t *testing.T)) {
	synctest.Test(t, func(t *testing.T) {
		f(t)
		r.Exit()
	})
}
