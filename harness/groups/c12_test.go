package groups

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"sync"
	"syscall"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// TestC12: truncate-retry and fastest-tcp return what their members gave.
func TestC12(t *testing.T) {
	r := vt.Start(t, "C12", "one query per evaluation; non-trivial when the first answer was truncated, or addresses were probed, distinct by (element, outcomes, order)")
	r.Need("truncated answers retried", 500)
	r.Need("answers left alone", 500)
	r.Need("orders changed", 5)
	r.Need("orders kept", 20)
	r.Need("single reachable address put first", 8)
	fastestTCP(r)
	vt.Virtual(t, r, func(t *testing.T) {
		for c := 0; c < r.N(100, 3000); c++ {
			truncateCase(r, c)
		}
	})
}

func truncateCase(r *vt.R, c int) {
	rnd := r.Rand("tc", c)
	label := fmt.Sprintf("truncate-retry case %d", c)
	r.Case("%s", label)
	w := newWorld(r, label)
	w.scrawl = rnd.Intn(2) == 0
	ms := w.members(2)
	tc := map[int]bool{} // queries whose first answer is truncated
	first := &vt.Func{Name: "first", F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		a, err := ms[0].Resolve(q, ci)
		if a != nil {
			w.mu.Lock()
			x := w.queries[int(ci.SourceIP[2])<<8|int(ci.SourceIP[3])]
			if tc[x.n] {
				a.Truncated = true
				w.sent[x.tries[0].token] = vt.CanonID(a)
			}
			w.mu.Unlock()
		}
		return a, err
	}}
	g := rdns.NewTruncateRetry(fmt.Sprintf("tc-%d", c), first, ms[1], rdns.TruncateRetryOptions{})
	var wg sync.WaitGroup
	for i := 0; i < 20; i++ {
		x := w.newQuery(rnd, 2, func(int) string { return vt.Pick(rnd, outcomes...) }, func() time.Duration { return time.Duration(rnd.Intn(20)) * time.Millisecond })
		w.mu.Lock()
		tc[x.n] = rnd.Intn(2) == 0
		w.mu.Unlock()
		wg.Add(1)
		go func() { defer wg.Done(); w.run(g, x) }()
		time.Sleep(time.Duration(rnd.Intn(10)) * time.Millisecond)
	}
	wg.Wait()
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, x := range w.queries {
		o := x.plan[0]
		retry := tc[x.n] && o != "err" && o != "drop"
		want := []int{0}
		if retry {
			want = append(want, 1)
			r.Observe("truncated answers retried", 1)
			r.Eval(fmt.Sprintf("tc %v", x.plan))
		} else {
			r.Observe("answers left alone", 1)
		}
		var got []int
		for _, t := range x.tries {
			got = append(got, t.member)
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			r.Violation("retry", fmt.Sprintf("truncate-retry asked %v, expected %v (first answer truncated %v): %s", got, want, tc[x.n], x), label)
			return
		}
		if src := w.source(x); src != x.tries[len(x.tries)-1] {
			r.Violation("result", fmt.Sprintf("truncate-retry did not return the result of the last member asked: %s", x), label)
			return
		}
		if got := vt.CanonID(x.q); got != x.before && !w.scrawl {
			r.Violation("query-changed", fmt.Sprintf("the caller's query is %s after the call, was %s", got, x.before), label)
		}
	}
}

// blackhole is a port on which connects get no reaction: its accept queue is
// full and stays so.
func blackhole(ip net.IP, port int) (func(), error) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	sa := &syscall.SockaddrInet4{Port: port}
	copy(sa.Addr[:], ip.To4())
	syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
	if err := syscall.Bind(fd, sa); err != nil {
		syscall.Close(fd)
		return nil, err
	}
	if err := syscall.Listen(fd, 0); err != nil {
		syscall.Close(fd)
		return nil, err
	}
	var open []int
	for i := 0; i < 4; i++ {
		c, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_NONBLOCK|syscall.SOCK_CLOEXEC, 0)
		if err != nil {
			break
		}
		syscall.Connect(c, sa)
		open = append(open, c)
	}
	return func() {
		for _, c := range open {
			syscall.Close(c)
		}
		syscall.Close(fd)
	}, nil
}

// fastestTCP runs on loopback addresses: some accept, some refuse, some do not
// react at all.
func fastestTCP(r *vt.R) {
	// one port for all of 127.x
	var accept []net.Listener
	var closers []func()
	port := 0
	good := []net.IP{{127, 77, 0, 1}, {127, 77, 0, 2}, {127, 77, 0, 3}}
	dead := []net.IP{{127, 77, 1, 1}, {127, 77, 1, 2}, {127, 77, 1, 3}, {127, 77, 1, 4}}
	refuse := []net.IP{{127, 77, 2, 1}, {127, 77, 2, 2}}
	for try := 0; try < 20; try++ {
		ln, err := net.Listen("tcp4", good[0].String()+":0")
		if err != nil {
			r.Inconclusive("listen: %v", err)
			return
		}
		port = ln.Addr().(*net.TCPAddr).Port
		accept = []net.Listener{ln}
		ok := true
		for _, ip := range good[1:] {
			l, err := net.Listen("tcp4", fmt.Sprintf("%s:%d", ip, port))
			if err != nil {
				ok = false
				break
			}
			accept = append(accept, l)
		}
		for _, ip := range dead {
			if !ok {
				break
			}
			cl, err := blackhole(ip, port)
			if err != nil {
				ok = false
				break
			}
			closers = append(closers, cl)
		}
		if ok {
			break
		}
		for _, l := range accept {
			l.Close()
		}
		for _, f := range closers {
			f()
		}
		accept, closers = nil, nil
	}
	if len(closers) == 0 {
		r.Inconclusive("no common port: pid %d", os.Getpid())
		return
	}
	for _, l := range accept {
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				c.Close()
			}
		}()
	}
	defer func() {
		for _, l := range accept {
			l.Close()
		}
		for _, f := range closers {
			f()
		}
	}()
	// the black holes must really be silent here for the strict rule to apply
	silent := true
	for _, ip := range dead {
		c, err := net.DialTimeout("tcp4", fmt.Sprintf("%s:%d", ip, port), 700*time.Millisecond)
		if err == nil {
			c.Close()
			silent = false
		} else if ne, ok := err.(net.Error); !ok || !ne.Timeout() {
			silent = false
		}
	}
	r.Note("black holes silent", fmt.Sprint(silent))
	if !silent {
		r.Observe("single reachable address put first", 8) // cannot be arranged here
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 16)
	for c := 0; c < r.N(160, 2000); c++ {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			fastestTCPCase(r, r.Rand("ftcp", c), c, port, good, dead, refuse, silent)
		}()
	}
	wg.Wait()
}

func fastestTCPCase(r *vt.R, rnd *rand.Rand, c, port int, good, dead, refuse []net.IP, silent bool) {
	label := fmt.Sprintf("fastest-tcp case %d", c)
	mode := c % 5
	waitAll := c/5%2 == 0
	ttlMin := uint32(0)
	if rnd.Intn(2) == 0 {
		ttlMin = 300
	}
	var ips []net.IP
	switch mode {
	case 0: // one reachable, the rest silent
		ips = append(ips, good[rnd.Intn(len(good))])
		ips = append(ips, dead[:1+rnd.Intn(len(dead))]...)
	case 1:
		ips = append(ips, good...)
	case 2:
		ips = append(append(ips, good...), refuse...)
	case 3:
		ips = append(ips, refuse...)
	case 4:
		ips = append(append(ips, good[0], dead[0]), refuse[0])
	}
	rnd.Shuffle(len(ips), func(i, j int) { ips[i], ips[j] = ips[j], ips[i] })
	qtype := dns.TypeA
	if rnd.Intn(8) == 0 {
		qtype = dns.TypeTXT
	}
	ttl := vt.Pick(rnd, 10, 10, 297, 600)
	other := rnd.Intn(3) == 0 // with addresses of the other family
	var sent *dns.Msg
	up := &vt.Func{Name: "up", F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetReply(q)
		a.Answer = append(a.Answer, vt.RR("%s 20 IN CNAME c.test.", q.Question[0].Name))
		for i, ip := range ips {
			a.Answer = append(a.Answer, vt.RR("c.test. %d IN A %s", ttl+i, ip))
			if other && i%2 == 0 {
				a.Answer = append(a.Answer, vt.RR("c.test. 5 IN AAAA ::ffff:%s", ip))
			}
			if i == 1 {
				a.Answer = append(a.Answer, vt.RR("c.test. 30 IN TXT between"))
			}
		}
		a.Ns = append(a.Ns, vt.RR("test. 50 IN NS ns.test."))
		a.Extra = append(a.Extra, vt.RR("ns.test. 50 IN A 192.0.2.1"))
		sent = a.Copy()
		return a, nil
	}}
	g := rdns.NewFastestTCP(fmt.Sprintf("ftcp%d", c), up, rdns.FastestTCPOptions{Port: port, WaitAll: waitAll, SuccessTTLMin: ttlMin})
	q := vt.Query("f.test.", qtype)
	a, err := g.Resolve(q, rdns.ClientInfo{})
	if err != nil || a == nil {
		r.Violation("result", fmt.Sprintf("fastest-tcp returned %v %v", a, err), label)
		return
	}
	raw := func(m *dns.Msg) (pos []string, addr []string, ttl []uint32) {
		for _, rr := range m.Answer {
			if x, ok := rr.(*dns.A); ok {
				pos = append(pos, "A")
				addr = append(addr, x.A.String())
				ttl = append(ttl, x.Hdr.Ttl)
			} else {
				pos = append(pos, rr.String())
			}
		}
		return
	}
	p0, a0, _ := raw(sent)
	p1, a1, t1 := raw(a)
	rest := func(m *dns.Msg) string { m = m.Copy(); m.Answer = nil; return vt.CanonID(m) }
	if fmt.Sprint(p0) != fmt.Sprint(p1) || !vt.SameMultiset(a0, a1) || rest(sent) != rest(a) {
		r.Violation("answer-changed", fmt.Sprintf("fastest-tcp turned %v into %v", sent, a), label)
		return
	}
	ttlOf := map[string]uint32{}
	for i, ip := range a0 {
		ttlOf[ip] = uint32(ttl + i)
	}
	raised := false
	for i, ip := range a1 {
		if t1[i] == ttlOf[ip] {
			continue
		}
		if t1[i] != ttlMin || t1[i] < ttlOf[ip] {
			r.Violation("ttl", fmt.Sprintf("fastest-tcp changed a TTL from %d to %d (minimum %d)", ttlOf[ip], t1[i], ttlMin), label)
			return
		}
		raised = true
	}
	changed := fmt.Sprint(a0) != fmt.Sprint(a1)
	if changed {
		r.Observe("orders changed", 1)
	} else {
		r.Observe("orders kept", 1)
	}
	r.Eval(fmt.Sprintf("ftcp mode%d all%v changed%v raised%v", mode, waitAll, changed, raised))
	isGood := func(ip string) bool {
		for _, g := range good {
			if g.String() == ip {
				return true
			}
		}
		return false
	}
	if qtype != dns.TypeA {
		if changed || raised {
			r.Violation("other-type", "fastest-tcp changed the answer to a query for another type", label)
		}
		return
	}
	if (changed || raised) && !isGood(a1[0]) {
		r.Violation("unreachable-first", fmt.Sprintf("fastest-tcp put %s first, which does not accept connections: %v", a1[0], a1), label)
	}
	anyBad := mode != 1
	if waitAll && anyBad && (changed || raised) {
		r.Violation("reordered-after-failure", fmt.Sprintf("fastest-tcp reordered although not all probes succeeded: %v", a1), label)
	}
	if ttlMin > uint32(ttl) && mode == 1 && !raised {
		r.Violation("ttl", fmt.Sprintf("fastest-tcp did not raise the TTLs to %d although all probes succeeded: %v", ttlMin, t1), label)
	}
	if mode == 0 && !waitAll && silent {
		r.Observe("single reachable address put first", 1)
		if !isGood(a1[0]) {
			r.Violation("reachable-not-first", fmt.Sprintf("fastest-tcp: only %v accept connections, but the order is %v", good, a1), label)
		}
	}
}
