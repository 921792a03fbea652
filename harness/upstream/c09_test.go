package upstream

import (
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	odoh "github.com/cloudflare/odoh-go"
	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// TestC09: a failing upstream costs each query no more than its timeout, and a
// recovered upstream is used again.
func TestC09(t *testing.T) {
	r := vt.Start(t, "C09", "phases of one fault each (refused, stalled, closing, dead path, garbage, slow connect) with single calls and bursts, then recovery; non-trivial when calls were made during the fault, distinct by (transport, fault, outcome)")
	r.Need("calls during a fault", 2000)
	r.Need("recoveries", 150)
	r.Need("real recoveries", 6)
	r.Need("unsendable queries", 100)
	r.Need("oversized queries", 1)
	realFaults(r)
	for c := 0; c < r.N(2, 20); c++ {
		oversized(r, c)
	}
	r.Need("queries never answered", 66000)
	r.Need("writes that fail after delivery", 3)
	r.Need("queries after a closed idle connection", 20)
	r.Need("queries with a new key", 20)
	r.Need("timeouts compared", 3)
	vt.Virtual(t, r, func(t *testing.T) {
		unanswered(r)
		for c := 0; c < r.N(3, 30); c++ {
			lateError(r, c)
			for _, kind := range []string{"udp", "tcp", "dot", "doh1", "doh2"} {
				idleClose(r, kind, c)
			}
		}
		for c := 0; c < r.N(8, 300); c++ {
			for _, kind := range virtualKinds {
				unsendableCase(r, kind, c)
				for _, fault := range []string{"refuse", "stall", "stall-resume", "close", "dead-path", "garbage", "dial-hang", "not-reading", "not-reading-resume"} {
					if strings.HasPrefix(fault, "not-reading") && kind != "tcp" && kind != "dot" && kind != "doh1" {
						continue // HTTP/2 waits with locks held, which stops virtual time
					}
					faultCase(r, kind, fault, c)
				}
			}
			for _, fault := range []string{"stall", "empty", "unsupported", "garbage", "500", "stall-body"} {
				odohConfigCase(r, fault, c)
			}
		}
	})
}

// recoveryLimit is the idle limit after which a silent connection is given up,
// plus a connect attempt that was already under way.
const recoveryLimit = 45 * time.Second

func faultCase(r *vt.R, kind, fault string, c int) {
	rnd := r.Rand("fault", kind, fault, c)
	label := fmt.Sprintf("fault %s %s case %d", kind, fault, c)
	r.Case("%s", label)
	w := newWorld(r, kind, label, r.Rand("fault-world", kind, fault, c))
	w.virtual = true
	w.plan = func(*call) string { return "honest" }
	w.timeout = time.Duration(300+2*rnd.Intn(2000)) * time.Millisecond
	cl := w.client(fmt.Sprintf("f-%s-%s-%d", kind, fault, c), rnd)
	var wg sync.WaitGroup
	launch := func(n int) {
		for i := 0; i < n; i++ {
			ca := w.newCall()
			wg.Add(1)
			go func() { defer wg.Done(); w.run(cl, ca) }()
		}
	}
	if c%2 == 0 { // a working connection exists when the fault strikes
		launch(3)
		wg.Wait()
		for _, x := range w.calls {
			w.judge(x)
		}
	}
	first := len(w.calls)
	set := func(on bool) {
		w.mu.Lock()
		defer w.mu.Unlock()
		switch fault {
		case "refuse":
			if on {
				w.dialErr = func() error { return &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connection refused")} }
				for _, sc := range w.conns {
					if !sc.closed && sc.close != nil {
						sc.closed = true
						go sc.close()
					}
				}
			} else {
				w.dialErr = nil
			}
		case "dial-hang":
			if on {
				w.dialErr = func() error { time.Sleep(20 * time.Second); return errors.New("i/o timeout") }
				for _, sc := range w.conns {
					if !sc.closed && sc.close != nil {
						sc.closed = true
						go sc.close()
					}
				}
			} else {
				w.dialErr = nil
			}
		case "stall", "stall-resume":
			w.stall = on
			if on || fault == "stall" {
				for _, sc := range w.conns {
					sc.silent = true
				}
			} else {
				for _, sc := range w.conns {
					sc.silent = false
				}
			}
		case "not-reading", "not-reading-resume":
			// nothing is taken off the connections, so writes come to a halt
			w.frozen = on
			if on || fault == "not-reading-resume" {
				for _, sc := range w.conns {
					if sc.freeze != nil {
						sc.freeze(on)
					}
				}
			}
		case "dead-path":
			if on {
				for _, sc := range w.conns {
					sc.silent = true
				}
			}
		case "close":
			if on {
				w.plan = func(*call) string { return "close" }
			} else {
				w.plan = func(*call) string { return "honest" }
			}
		case "garbage":
			if on {
				w.plan = func(*call) string { return "garbage" }
			} else {
				w.plan = func(*call) string { return "honest" }
			}
		}
	}
	set(true)
	time.Sleep(2 * time.Millisecond)
	for i := 0; i < 4; i++ {
		launch(vt.Pick(rnd, 1, 2, 30))
		if w.frozen {
			launch(40)
		}
		time.Sleep(time.Duration(2*rnd.Intn(1500)) * time.Millisecond)
	}
	end := make(chan struct{})
	go func() { wg.Wait(); close(end) }()
	select {
	case <-end:
	case <-time.After(5 * time.Minute):
	}
	failed := 0
	for _, x := range w.calls[first:] {
		w.mu.Lock()
		ret, took, err, a := x.returned, x.took, x.err, x.a
		w.mu.Unlock()
		r.Observe("calls during a fault", 1)
		if !ret || took > w.timeout+500*time.Millisecond {
			r.Violation("unbounded", fmt.Sprintf("%s under %q: a query with a timeout of %v returned=%v after %v", kind, fault, w.timeout, ret, took), label)
			return
		}
		if err == nil && a == nil {
			r.Violation("nothing", fmt.Sprintf("%s under %q: neither an answer nor an error", kind, fault), label)
		}
		if err != nil {
			failed++
		}
	}
	r.Eval(fmt.Sprintf("%s %s failed%v", kind, fault, failed > 0))
	// recovery
	set(false)
	lifted := time.Now()
	ok := false
	for time.Since(lifted) < recoveryLimit {
		ca := w.newCall()
		w.run(cl, ca)
		if ca.err == nil && ca.a != nil {
			ok = true
			break
		}
		time.Sleep(200 * time.Millisecond)
	}
	if !ok {
		r.Violation("no-recovery", fmt.Sprintf("%s: %v after %q ended queries still fail: %v", kind, time.Since(lifted), fault, w.calls[len(w.calls)-1].err), label)
		return
	}
	r.Observe("recoveries", 1)
	r.State("recovery time (s)", fmt.Sprintf("%s %s %d", kind, fault, int(time.Since(lifted).Seconds())))
	time.Sleep(time.Second)
	// and it stays recovered
	for i := 0; i < 10; i++ {
		ca := w.newCall()
		w.run(cl, ca)
		if ca.err != nil {
			r.Violation("relapse", fmt.Sprintf("%s: query %d after recovering from %q failed: %v", kind, i, fault, ca.err), label)
			return
		}
		w.judge(ca)
		time.Sleep(time.Duration(2*rnd.Intn(50)) * time.Millisecond)
	}
	if w.pipelined() && c%4 == 0 {
		// idle connections are given up
		time.Sleep(5 * time.Minute)
		w.mu.Lock()
		open := w.open
		w.mu.Unlock()
		if open != 0 {
			r.Violation("connection-leak", fmt.Sprintf("%s: %d connections still open after five idle minutes", kind, open), label)
		}
	}
}

// odohConfigCase: a target that does not give out a usable key.
func odohConfigCase(r *vt.R, fault string, c int) {
	rnd := r.Rand("odohcfg", fault, c)
	label := fmt.Sprintf("odoh config %s case %d", fault, c)
	r.Case("%s", label)
	w := newWorld(r, "odoh", label, r.Rand("odohcfg-world", fault, c))
	w.virtual = true
	w.plan = func(*call) string { return "honest" }
	w.timeout = time.Duration(500+rnd.Intn(2000)) * time.Millisecond
	bad := true
	var mu sync.Mutex
	w.odohCfg = func(rw http.ResponseWriter, req *http.Request) {
		mu.Lock()
		b := bad
		mu.Unlock()
		if !b {
			rw.Write(w.odohConfigs())
			return
		}
		switch fault {
		case "stall":
			select {
			case <-req.Context().Done():
			case <-time.After(time.Hour):
			}
		case "stall-body":
			rw.Write(odohConfigs()[:10])
			rw.(http.Flusher).Flush()
			select {
			case <-req.Context().Done():
			case <-time.After(time.Hour):
			}
		case "empty":
			rw.Write([]byte{0, 0, 0, 2, 0, 0})
		case "unsupported":
			b := odohConfigs()
			b[2], b[3] = 0xff, 0x01
			rw.Write(b)
		case "garbage":
			rw.Write(make([]byte, c%2))
		case "500":
			rw.WriteHeader(500)
		}
	}
	w.target = "/dns-query"
	cl, err := rdns.NewODoHClient(label, "https://dns.test/proxy", "https://target.test:443/dns-query", "", rdns.DoHClientOptions{Dialer: w, QueryTimeout: w.timeout, TLSConfig: &tls.Config{RootCAs: ca.Pool(), InsecureSkipVerify: true}})
	if err != nil {
		panic(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 25; i++ {
		x := w.newCall()
		wg.Add(1)
		go func() { defer wg.Done(); w.run(cl, x) }()
	}
	end := make(chan struct{})
	go func() { wg.Wait(); close(end) }()
	select {
	case <-end:
	case <-time.After(10 * time.Minute):
	}
	for _, x := range w.calls {
		w.mu.Lock()
		ret, took := x.returned, x.took
		w.mu.Unlock()
		r.Observe("calls during a fault", 1)
		if !ret || took > w.timeout+500*time.Millisecond {
			r.Violation("unbounded", fmt.Sprintf("odoh with config fetch fault %q: a query with a timeout of %v returned=%v after %v", fault, w.timeout, ret, took), label)
			return
		}
	}
	r.Eval("odoh config " + fault)
	mu.Lock()
	bad = false
	mu.Unlock()
	for i := 0; ; i++ {
		x := w.newCall()
		w.run(cl, x)
		if x.err == nil {
			break
		}
		if i > 3 {
			r.Violation("no-recovery", fmt.Sprintf("odoh: the target's config works again but queries fail: %v", x.err), label)
			return
		}
	}
	r.Observe("recoveries", 1)
	// a day later the target has another key
	time.Sleep(25 * time.Hour)
	key, err := odoh.CreateDefaultKeyPair()
	if err != nil {
		panic(err)
	}
	w.odohKey = &key
	x := w.newCall()
	w.run(cl, x)
	if x.err != nil {
		r.Violation("no-recovery", fmt.Sprintf("odoh: a day later, with a new key of the target, a query failed: %v", x.err), label)
		return
	}
	r.Observe("queries with a new key", 1)
}

// realFaults covers the transports that need sockets. Only hangs far beyond
// every configured limit are judged.
func realFaults(r *vt.R) {
	var wg sync.WaitGroup
	for _, kind := range []string{"dtls", "doq", "doh3"} {
		wg.Add(1)
		go func() { defer wg.Done(); realTimeout(r, kind) }()
	}
	for _, kind := range []string{"dtls", "doq", "doh3", "dot"} {
		for c := 0; c < r.N(2, 6); c++ {
			wg.Add(1)
			go func() { defer wg.Done(); realFault(r, kind, c) }()
		}
	}
	wg.Wait()
}

func realFault(r *vt.R, kind string, c int) {
	rnd := r.Rand("realfault", kind, c)
	label := fmt.Sprintf("real fault %s case %d", kind, c)
	w := newWorld(r, kind, label, rnd)
	w.timeout = 1500 * time.Millisecond
	w.plan = func(*call) string { return "honest" }
	addr := ""
	var hole io.Closer
	burst := func(n int) bool {
		var wg sync.WaitGroup
		from := len(w.calls)
		for i := 0; i < n; i++ {
			x := w.newCall()
			wg.Add(1)
			go func() { defer wg.Done(); w.run(w.cl, x) }()
		}
		end := make(chan struct{})
		go func() { wg.Wait(); close(end) }()
		select {
		case <-end:
		case <-time.After(vt.HangLimit):
			left := 0
			w.mu.Lock()
			for _, x := range w.calls[from:] {
				if !x.returned {
					left++
				}
			}
			w.mu.Unlock()
			if left > 0 {
				r.Violation("unbounded", fmt.Sprintf("%s: %d of %d concurrent queries with a timeout of %v had not returned after %v", kind, left, n, w.timeout, vt.HangLimit), label)
				return false
			}
		}
		r.Observe("calls during a fault", n)
		return true
	}
	if c%2 == 0 {
		// a black hole that later becomes a server
		if kind == "dot" {
			// connections are accepted, the handshake gets no reaction
			ln, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				r.Inconclusive("%v", err)
				return
			}
			hole, addr = ln, ln.Addr().String()
		} else {
			pc, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IP{127, 0, 0, 1}})
			if err != nil {
				r.Inconclusive("%v", err)
				return
			}
			hole, addr = pc, pc.LocalAddr().String()
		}
		w.cl = w.realClient(label, addr, rnd)
		if !burst(50) {
			return
		}
		hole.Close()
	} else {
		a, stop, err := w.realServer("127.0.0.1:0")
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		addr = a
		w.cl = w.realClient(label, addr, rnd)
		if !burst(5) {
			return
		}
		stop()
		if !burst(20) {
			return
		}
	}
	var stop func()
	var err error
	for i := 0; i < 50; i++ {
		if _, stop, err = w.realServer(addr); err == nil {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	if err != nil {
		r.Inconclusive("restart %s: %v", kind, err)
		return
	}
	defer stop()
	t0 := time.Now()
	for {
		x := w.newCall()
		w.run(w.cl, x)
		if x.err == nil {
			break
		}
		if time.Since(t0) > 2*vt.HangLimit {
			r.Violation("no-recovery", fmt.Sprintf("%s: the upstream is back but queries still fail after %v: %v", kind, time.Since(t0), x.err), label)
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	r.Observe("real recoveries", 1)
	r.State("recovery time (s)", fmt.Sprintf("%s %d %d", kind, c%2, int(time.Since(t0).Seconds())))
	r.Eval(fmt.Sprintf("real %s %d", kind, c%2))
}

// unsendableCase mixes queries that cannot be sent into a stream of good ones.
func unsendableCase(r *vt.R, kind string, c int) {
	rnd := r.Rand("unsendable", kind, c)
	label := fmt.Sprintf("unsendable %s case %d", kind, c)
	r.Case("%s", label)
	w := newWorld(r, kind, label, r.Rand("unsendable-world", kind, c))
	w.virtual = true
	w.plan = func(*call) string { return "honest" }
	cl := w.client(fmt.Sprintf("u-%s-%d", kind, c), rnd)
	var wg sync.WaitGroup
	for i := 0; i < 30; i++ {
		if rnd.Intn(5) == 0 {
			q := vt.Query("a.test.", dns.TypeA)
			if w.pipelined() && rnd.Intn(2) == 0 {
				q.SetTsig("key.test.", dns.HmacSHA256, 300, 946684800)
			} else {
				q.Question[0].Name = strings.Repeat("a", 64+rnd.Intn(200)) + ".test."
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				start := time.Now()
				a, err := cl.Resolve(q, rdns.ClientInfo{})
				if took := time.Since(start); took > w.timeout+500*time.Millisecond {
					r.Violation("unbounded", fmt.Sprintf("%s: a query that cannot be sent took %v", kind, took), label)
				}
				if err == nil {
					r.Violation("unsendable", fmt.Sprintf("%s: a query that cannot be sent got %v", kind, a), label)
				}
				r.Observe("unsendable queries", 1)
			}()
		}
		ca := w.newCall()
		wg.Add(1)
		go func() { defer wg.Done(); w.run(cl, ca) }()
		time.Sleep(time.Duration(2*rnd.Intn(20)) * time.Millisecond)
	}
	wg.Wait()
	for _, x := range w.calls {
		w.judge(x)
	}
}

// oversized sends a query that is too large for a datagram while others wait.
func oversized(r *vt.R, c int) {
	rnd := r.Rand("oversized", c)
	label := fmt.Sprintf("oversized case %d", c)
	pc, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		r.Inconclusive("listen: %v", err)
		return
	}
	defer pc.Close()
	const n = 20
	arrived, release := make(chan struct{}), make(chan struct{})
	go func() {
		var replies []func()
		buf := make([]byte, 65535)
		for len(replies) < n {
			k, from, err := pc.ReadFrom(buf)
			if err != nil {
				return
			}
			q := new(dns.Msg)
			if q.Unpack(buf[:k]) != nil {
				continue
			}
			b, _ := new(dns.Msg).SetReply(q).Pack()
			replies = append(replies, func() { pc.WriteTo(b, from) })
		}
		close(arrived)
		<-release
		for _, f := range replies {
			f()
		}
	}()
	cl, err := rdns.NewDNSClient("oversized", pc.LocalAddr().String(), "udp", rdns.DNSClientOptions{QueryTimeout: 30 * time.Second})
	if err != nil {
		r.Inconclusive("client: %v", err)
		return
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if _, err := cl.Resolve(vt.Query(fmt.Sprintf("q%d.test.", i), dns.TypeA), rdns.ClientInfo{}); err != nil {
				r.Violation("not-alone", fmt.Sprintf("an answered query failed with %q after another one was too large to be sent", err), label)
			}
		}()
	}
	select {
	case <-arrived:
	case <-time.After(vt.HangLimit):
		r.Inconclusive("queries got lost on loopback")
		return
	}
	q := vt.Query("big.test.", dns.TypeA)
	q.SetEdns0(4096, false)
	q.IsEdns0().Option = append(q.IsEdns0().Option, &dns.EDNS0_LOCAL{Code: 65001, Data: make([]byte, 65475+rnd.Intn(19))})
	if _, err := cl.Resolve(q, rdns.ClientInfo{}); err == nil {
		r.Violation("unsendable", "a query too large for a datagram was answered", label)
	}
	r.Observe("oversized queries", 1)
	close(release)
	wg.Wait()
}

type dialFunc func() (net.Conn, error)

func (f dialFunc) Dial(network, address string) (net.Conn, error) { return f() }

// unanswered: queries that nobody ever answers, more of them than there are
// IDs, do not use up a connection on which others are answered all the time.
func unanswered(r *vt.R) {
	label := "unanswered"
	r.Case("%s", label)
	var conns, got atomic.Int64
	dial := func() (net.Conn, error) {
		conns.Add(1)
		c, s := vt.MemPipe(false)
		go func() {
			co := &dns.Conn{Conn: s}
			for {
				q, err := co.ReadMsg()
				if err != nil {
					return
				}
				if strings.HasPrefix(q.Question[0].Name, "no.") {
					got.Add(1)
					continue
				}
				if co.WriteMsg(new(dns.Msg).SetReply(q)) != nil {
					return
				}
			}
		}()
		return c, nil
	}
	cl, err := rdns.NewDNSClient("unanswered", "192.0.2.1:53", "tcp", rdns.DNSClientOptions{Dialer: dialFunc(dial), QueryTimeout: 501 * time.Millisecond})
	if err != nil {
		r.Violation("rejected", err.Error(), label)
		return
	}
	for got.Load() < 66500 {
		var wg sync.WaitGroup
		before := got.Load()
		for i := 0; i < 3500; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				cl.Resolve(vt.Query("no.test.", dns.TypeA), rdns.ClientInfo{})
			}()
		}
		wg.Wait()
		a, err := cl.Resolve(vt.Query("yes.test.", dns.TypeA), rdns.ClientInfo{})
		if err != nil || a == nil {
			r.Violation("no-recovery", fmt.Sprintf("after %d queries that were never answered one that the upstream answers got %v %v", got.Load(), a, err), label)
			return
		}
		r.Eval(fmt.Sprintf("unanswered %d", got.Load()/10000))
		if got.Load() == before {
			r.Inconclusive("no query arrived")
			return
		}
	}
	r.Observe("queries never answered", int(got.Load()))
	r.Observe("connections of queries never answered", int(conns.Load()))
}

// lateErrConn reports a failure for a message that got through.
type lateErrConn struct {
	net.Conn
	n atomic.Int64
}

func (c *lateErrConn) Write(b []byte) (int, error) {
	n, err := c.Conn.Write(b)
	if c.n.Add(1) == 2 {
		time.Sleep(20 * time.Millisecond)
		return 0, errors.New("broken pipe")
	}
	return n, err
}

// lateError: the answer to a query arrives before writing it turns out to have failed.
func lateError(r *vt.R, c int) {
	label := fmt.Sprintf("late error %d", c)
	r.Case("%s", label)
	dial := func() (net.Conn, error) {
		cc, s := vt.MemPipe(false)
		go func() {
			co := &dns.Conn{Conn: s}
			for {
				q, err := co.ReadMsg()
				if err != nil {
					return
				}
				if co.WriteMsg(new(dns.Msg).SetReply(q)) != nil {
					return
				}
			}
		}()
		return &lateErrConn{Conn: cc}, nil
	}
	cl, err := rdns.NewDNSClient(fmt.Sprintf("late-%d", c), "192.0.2.1:53", "tcp", rdns.DNSClientOptions{Dialer: dialFunc(dial), QueryTimeout: 501 * time.Millisecond})
	if err != nil {
		r.Violation("rejected", err.Error(), label)
		return
	}
	for i := 0; i < 6; i++ {
		t0 := time.Now()
		a, err := cl.Resolve(vt.Query("yes.test.", dns.TypeA), rdns.ClientInfo{})
		if d := time.Since(t0); d > time.Second {
			r.Violation("unbounded", fmt.Sprintf("a query whose message got through on a breaking connection took %v", d), label)
		}
		if i%2 == 0 && (a == nil || err != nil) {
			r.Violation("no-recovery", fmt.Sprintf("a query on a new connection failed: %v", err), label)
		}
		time.Sleep(time.Second)
	}
	r.Eval("late error")
	r.Observe("writes that fail after delivery", 3)
}

// idleClose: upstreams close connections that were idle for a while; that does
// not cost a query.
func idleClose(r *vt.R, kind string, c int) {
	rnd := r.Rand("idle", kind, c)
	label := fmt.Sprintf("idle close %s case %d", kind, c)
	r.Case("%s", label)
	w := newWorld(r, kind, label, r.Rand("idle-world", kind, c))
	w.virtual = true
	w.plan = func(*call) string { return "honest" }
	w.timeout = 1501 * time.Millisecond
	cl := w.client(fmt.Sprintf("idle-%s-%d", kind, c), rnd)
	for i := 0; i < 4; i++ {
		x := w.newCall()
		w.run(cl, x)
		if x.err != nil {
			r.Violation("no-recovery", fmt.Sprintf("%s: a query failed after the upstream had closed an idle connection: %v", kind, x.err), label)
			return
		}
		if i > 0 {
			r.Eval("idle " + kind)
			r.Observe("queries after a closed idle connection", 1)
		}
		time.Sleep(time.Duration(100+2*rnd.Intn(4000)) * time.Millisecond)
		w.mu.Lock()
		for _, sc := range w.conns {
			if !sc.closed && sc.close != nil {
				sc.closed = true
				go sc.close()
			}
		}
		w.mu.Unlock()
		time.Sleep(time.Duration(10+2*rnd.Intn(4000)) * time.Millisecond)
	}
}

// realTimeout compares how long queries to a silent upstream take with sleeps
// of the same length at the same time.
func realTimeout(r *vt.R, kind string) {
	rnd := r.Rand("realtimeout", kind)
	label := "real timeout " + kind
	w := newWorld(r, kind, label, rnd)
	w.timeout = 1500 * time.Millisecond
	w.plan = func(*call) string { return "honest" }
	addr, stop, err := w.realServer("127.0.0.1:0")
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	defer stop()
	w.cl = w.realClient(label, addr, rnd)
	detail := ""
	for round := 0; round < 3; round++ {
		w.mu.Lock()
		w.stall = false
		w.mu.Unlock()
		w.run(w.cl, w.newCall())
		w.mu.Lock()
		w.stall = true
		w.mu.Unlock()
		var wg sync.WaitGroup
		var mu sync.Mutex
		least, most := time.Hour, w.timeout
		for i := 0; i < 5; i++ {
			x := w.newCall()
			wg.Add(2)
			go func() {
				defer wg.Done()
				w.run(w.cl, x)
				mu.Lock()
				least = min(least, x.took)
				mu.Unlock()
			}()
			go func() {
				defer wg.Done()
				t0 := time.Now()
				time.Sleep(w.timeout)
				mu.Lock()
				most = max(most, time.Since(t0))
				mu.Unlock()
			}()
		}
		wg.Wait()
		r.Eval("real timeout " + kind)
		if least < most*8/5 {
			r.Observe("timeouts compared", 1)
			return
		}
		detail = fmt.Sprintf("%s: five queries with a timeout of %v took at least %v each, sleeps of that length at the same time at most %v", kind, w.timeout, least, most)
	}
	r.Violation("unbounded", detail, label)
}
