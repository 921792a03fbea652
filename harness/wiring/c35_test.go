package wiring

import (
	"os"
	"sync"
	"syscall"
	"testing"

	"verif/harness/vt"
)

// parallel calls f for 0..n-1, at most four at a time.
func parallel(n int, f func(int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 4)
	for i := 0; i < n; i++ {
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			f(i)
			<-sem
		}()
	}
	wg.Wait()
}

func TestC35(t *testing.T) {
	r := vt.Start(t, "C35", "one evaluation per expectation on a configured element of the running program; distinct by option and configuration")
	parallel(r.N(3, 40), func(n int) {
		w := newWorld(r, r.Rand("world", n))
		w.failGroups()
		w.blocklists()
		w.modifiers()
		w.answerers()
		w.routers()
		kept := w.caches()
		if w.start() {
			w.steps()
			w.stop([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP}[n%3])
			for _, s := range kept {
				st, err := os.Stat(s.file)
				w.check(err == nil && st.Size() > 0, "cache filename", "the cache file is not there after the program ended: %v", err)
			}
			w.again(kept)
			if w.start() {
				w.steps()
				w.stop(syscall.SIGTERM)
			}
			r.Observe("programs", 2)
		}
		w.proc.cmd.Process.Kill()
		w.close()
	})
	r.Need("queries", 500)
	r.Need("programs", 4)
	r.Exit()
}
