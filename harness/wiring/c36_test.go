package wiring

import (
	"syscall"
	"testing"

	"verif/harness/vt"
)

func TestC36(t *testing.T) {
	r := vt.Start(t, "C36", "one evaluation per query over a link with given certificates on both sides; distinct by protocol, certificates and configuration")
	parallel(r.N(4, 60), func(n int) {
		w := newWorld(r, r.Rand("world", n))
		p := w.pki()
		w.tlsLinks(p)
		if w.start() {
			w.steps()
			w.stop(syscall.SIGTERM)
			r.Observe("programs", 1)
		}
		w.proc.cmd.Process.Kill()
		w.close()
	})
	r.Need("queries", 400)
	r.Exit()
}

func TestC37(t *testing.T) {
	r := vt.Start(t, "C37", "one evaluation per expectation on a listener or resolver of the running program; distinct by option and configuration")
	parallel(r.N(4, 60), func(n int) {
		w := newWorld(r, r.Rand("world", n))
		p := w.pki()
		w.plainLinks()
		w.plainHTTP(p)
		w.secureListeners(p)
		w.oblivious(p)
		if w.start() {
			w.steps()
			w.stop([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP}[n%3])
			r.Observe("programs", 1)
		}
		w.proc.cmd.Process.Kill()
		w.close()
	})
	r.Need("queries", 300)
	r.Exit()
}
