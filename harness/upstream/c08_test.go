package upstream

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/miekg/dns"

	"verif/harness/vt"
)

var virtualKinds = []string{"udp", "tcp", "dot", "doh1", "doh2", "odoh"}

// TestC08: what a client returns is the upstream's answer to that very query.
func TestC08(t *testing.T) {
	r := vt.Start(t, "C08", "concurrent calls with colliding IDs and shared names against servers that answer out of order, twice, late, for others or wrongly; non-trivial when an answer was returned and judged, distinct by (transport, response code, records, EDNS, case)")
	for _, k := range append([]string{"dtls", "doq", "doh3"}, virtualKinds...) {
		r.Need("answers "+k, 200)
		r.Need("errors "+k, 20)
		r.Need("large answers "+k, 5)
	}
	r.Need("in flight together", 5000)
	realKinds(r)
	vt.Virtual(t, r, func(t *testing.T) {
		for c := 0; c < r.N(60, 2000); c++ {
			for _, kind := range virtualKinds {
				matchCase(r, kind, c)
			}
		}
		for _, kind := range []string{"udp", "tcp"} {
			for c := 0; c < r.N(1, 10); c++ {
				flood(r, kind, c)
			}
		}
	})
}

func matchCase(r *vt.R, kind string, c int) {
	rnd := r.Rand("match", kind, c)
	label := fmt.Sprintf("match %s case %d", kind, c)
	r.Case("%s", label)
	w := newWorld(r, kind, label, rnd)
	w.virtual = true
	w.hostile = c%2 == 1
	if kind == "udp" && c%10 == 0 {
		w.udpSize = 1400
	}
	cl := w.client(fmt.Sprintf("%s-%d", kind, c), rand.New(rand.NewSource(rnd.Int63())))
	n := 5 + rnd.Intn(60)
	var wg sync.WaitGroup
	start := time.Now()
	at := 0
	for i := 0; i < n; i++ {
		switch w.intn(12) {
		case 0:
			at += 300
		case 1:
			at += 700
		case 2:
			if !w.hostile {
				at += 1000
				if w.intn(3) == 0 {
					at += 11000 // beyond the idle limit of the connection
				}
			}
		case 3, 4, 5:
			at += 2 * w.intn(20)
		}
		time.Sleep(time.Until(start.Add(time.Duration(at) * time.Millisecond)))
		if !w.hostile && w.intn(20) == 0 {
			// the server closes an idle connection
			w.mu.Lock()
			var idle *srvConn
			for _, sc := range w.conns {
				if len(sc.out) == 0 && !sc.closed && sc.close != nil && w.pipelined() && kind != "udp" {
					idle = sc
				}
			}
			busy := false
			for _, x := range w.calls {
				busy = busy || !x.returned
			}
			w.mu.Unlock()
			if idle != nil && !busy {
				w.shut(idle)
				at += 2
				time.Sleep(2 * time.Millisecond)
				r.Observe("idle closes", 1)
			}
		}
		ca := w.newCall()
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.run(cl, ca)
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Minute):
	}
	time.Sleep(5 * time.Second) // late replies arrive
	most := 0
	for _, x := range w.calls {
		w.mu.Lock()
		ret, took := x.returned, x.took
		w.mu.Unlock()
		if !ret || took > w.timeout+time.Second {
			r.Violation("hang", fmt.Sprintf("%s call %d did not return within %v (returned %v, took %v)", kind, x.n, w.timeout, ret, took), label)
			continue
		}
		w.judge(x)
		most++
	}
	if c < 2 {
		r.Sample(map[string]any{"transport": kind, "case": c, "calls": n, "hostile": w.hostile})
	}
}

// flood puts so many queries in flight that IDs would collide by chance, and
// looks at the IDs.
func flood(r *vt.R, kind string, c int) {
	rnd := r.Rand("flood", kind, c)
	label := fmt.Sprintf("flood %s case %d", kind, c)
	r.Case("%s", label)
	w := newWorld(r, kind, label, rnd)
	w.virtual = true
	w.timeout = 10 * time.Minute
	w.small = true
	n := 5500
	var mu sync.Mutex
	var ids []uint16
	same := 0
	w.newQ = func(q wireQuery) {
		mu.Lock()
		defer mu.Unlock()
		ids = append(ids, q.id)
		if q.id == w.calls[q.raw].q.Id {
			same++
		}
	}
	w.plan = func(*call) string { return "honest" }
	cl := w.client(fmt.Sprintf("flood-%s-%d", kind, c), rnd)
	// replies go out from 1 ms on, the queries all leave at 0 ms
	var calls []*call
	for i := 0; i < n; i++ {
		ca := w.newCall()
		ca.q.Id = uint16(rnd.Intn(65536))
		ca.q.Opcode = dns.OpcodeQuery
		calls = append(calls, ca)
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 2600) // the reply goroutines count against the race detector's limit
	for _, ca := range calls {
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.run(cl, ca)
			<-sem
		}()
	}
	wg.Wait()
	for _, x := range calls {
		w.judge(x)
	}
	r.Observe("in flight together", n)
	// IDs are drawn at random: neither the caller's nor in steps
	steps := map[uint16]int{}
	for i := 1; i < len(ids); i++ {
		steps[ids[i]-ids[i-1]]++
	}
	for s, k := range steps {
		if k > len(ids)/20 {
			r.Violation("predictable-id", fmt.Sprintf("%s: %d of %d query IDs differ from the one before by %d", kind, k, len(ids), s), label)
		}
	}
	if same > len(ids)/20 {
		r.Violation("predictable-id", fmt.Sprintf("%s: %d of %d queries were sent with the client's own ID", kind, same, len(ids)), label)
	}
}
