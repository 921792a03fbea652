package groups

import (
	"fmt"
	"net"
	"sync"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// TestC14: rate limits are exact per client network and window.
func TestC14(t *testing.T) {
	r := vt.Start(t, "C14", "one query per evaluation, sequential or concurrent, from clients in equal and neighbouring networks; non-trivial when its network had reached the limit, distinct by (prefixes, limit, family)")
	r.Need("passed", 10000)
	r.Need("limited", 10000)
	r.Need("windows", 2000)
	r.Need("networks in a crowd", 50000)
	r.Need("limited in a crowd", 100000)
	vt.Virtual(t, r, func(t *testing.T) {
		for c := 0; c < r.N(600, 15000); c++ {
			rateCase(r, c)
		}
		for c := 0; c < r.N(3, 30); c++ {
			crowdCase(r, c)
		}
	})
}

func rateCase(r *vt.R, c int) {
	rnd := r.Rand("rate", c)
	label := fmt.Sprintf("rate case %d", c)
	r.Case("%s", label)
	opt := rdns.RateLimiterOptions{
		Requests: uint(vt.Pick(rnd, 1, 2, 5, 20)),
		Window:   uint(vt.Pick(rnd, 0, 1, 7, 60)),
		Prefix4:  uint8(vt.Pick(rnd, 0, 8, 20, 24, 25, 32)),
		Prefix6:  uint8(vt.Pick(rnd, 0, 16, 48, 56, 57, 64, 128)),
	}
	var mu sync.Mutex
	type hit struct {
		limited bool
		n       int
	}
	hits := map[int]hit{}
	mk := func(limited bool) rdns.Resolver {
		return &vt.Func{Name: fmt.Sprint(limited), F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			mu.Lock()
			h := hits[int(q.Id)]
			hits[int(q.Id)] = hit{limited, h.n + 1}
			mu.Unlock()
			a := new(dns.Msg)
			a.SetReply(q)
			return a, nil
		}}
	}
	alt := rnd.Intn(2) == 0
	if alt {
		opt.LimitResolver = mk(true)
	}
	g := rdns.NewRateLimiter(fmt.Sprintf("rate-%d", c), mk(false), opt)
	// reference
	window := int64(opt.Window)
	if window == 0 {
		window = 60
	}
	p4, p6 := int(opt.Prefix4), int(opt.Prefix6)
	if p4 == 0 {
		p4 = 24
	}
	if p6 == 0 {
		p6 = 56
	}
	bits := func(ip []byte, n int) string {
		s := ""
		for i := 0; i < n; i++ {
			s += string('0' + ip[i/8]>>(7-i%8)&1)
		}
		return s
	}
	netOf := func(ip net.IP) string {
		if a := ip.To4(); a != nil {
			return "4:" + bits(a, p4)
		}
		return "6:" + bits(ip, p6)
	}
	client := func() net.IP {
		var ip net.IP
		if rnd.Intn(2) == 0 {
			ip = net.IP{10, byte(rnd.Intn(2)), byte(16 * rnd.Intn(2)), byte(128*rnd.Intn(2) + rnd.Intn(2))}
			if rnd.Intn(2) == 0 {
				ip = ip.To16()
			}
		} else {
			ip = make(net.IP, 16)
			copy(ip, net.ParseIP("2001:db8::"))
			ip[5] = byte(rnd.Intn(2))
			ip[7] = byte(vt.Pick(rnd, 0, 0, 0x80, 1))
			ip[15] = byte(rnd.Intn(2))
		}
		return ip
	}
	id := 0
	for step := 0; step < 12; step++ {
		// to somewhere in a window, often close to its edges
		switch rnd.Intn(3) {
		case 0:
			next := (time.Now().Unix()/window + 1) * window
			time.Sleep(time.Until(time.Unix(next, 0)) + time.Duration(rnd.Intn(3)-1)*time.Millisecond)
		case 1:
			time.Sleep(time.Duration(rnd.Intn(int(window))) * time.Second)
		}
		var wg sync.WaitGroup
		type one struct {
			id  int
			net string
			win int64
			a   *dns.Msg
			err error
		}
		var batch []*one
		conc := rnd.Intn(2) == 0
		for i := 0; i < 40; i++ {
			ip := client()
			q := vt.Query("r.test.", dns.TypeA)
			id++
			q.Id = uint16(id)
			x := &one{id: id, net: netOf(ip), win: time.Now().Unix() / window}
			batch = append(batch, x)
			wg.Add(1)
			f := func() {
				defer wg.Done()
				x.a, x.err = g.Resolve(q, rdns.ClientInfo{SourceIP: ip})
			}
			if conc {
				go f()
			} else {
				f()
				if rnd.Intn(8) == 0 {
					time.Sleep(time.Duration(rnd.Intn(1000)) * time.Millisecond)
				}
			}
		}
		wg.Wait()
		r.Observe("windows", 1)
		mu.Lock()
		for _, x := range batch {
			h := hits[x.id]
			k := fmt.Sprintf("%s@%d", x.net, x.win)
			e := rateSeen(g, k)
			e.total++
			passed := h.n == 1 && !h.limited
			limited := (alt && h.n == 1 && h.limited) || (!alt && h.n == 0 && x.a == nil && x.err == nil)
			if !passed && !limited {
				r.Violation("result", fmt.Sprintf("query was neither passed on nor limited as configured (calls %d, limit resolver %v, err %v)", h.n, alt, x.err), label)
				mu.Unlock()
				return
			}
			if passed {
				e.passed++
				r.Observe("passed", 1)
			} else {
				r.Observe("limited", 1)
				r.Eval(fmt.Sprintf("p4 %d p6 %d lim %d fam %c", opt.Prefix4, opt.Prefix6, opt.Requests, x.net[0]))
			}
			if !conc && passed != (e.total <= int(opt.Requests)) {
				r.Violation("limit", fmt.Sprintf("query number %d of network %s in this window passed=%v with a limit of %d (prefixes %d/%d)", e.total, x.net, passed, opt.Requests, p4, p6), label)
				mu.Unlock()
				return
			}
		}
		for k, e := range rates[g] {
			if want := min(e.total, int(opt.Requests)); e.passed != want {
				r.Violation("limit", fmt.Sprintf("%d of %d queries of network %s passed in one window, the limit is %d (prefixes %d/%d)", e.passed, e.total, k, opt.Requests, p4, p6), label)
				mu.Unlock()
				return
			}
		}
		mu.Unlock()
	}
	delete(rates, g)
}

type rateEntry struct{ total, passed int }

var rates = map[rdns.Resolver]map[string]*rateEntry{}

func rateSeen(g rdns.Resolver, k string) *rateEntry {
	if rates[g] == nil {
		rates[g] = map[string]*rateEntry{}
	}
	if rates[g][k] == nil {
		rates[g][k] = &rateEntry{}
	}
	return rates[g][k]
}

// crowdCase is one window with very many networks, and one network with very
// many queries among them.
func crowdCase(r *vt.R, c int) {
	rnd := r.Rand("crowd", c)
	label := fmt.Sprintf("crowd case %d", c)
	r.Case("%s", label)
	networks := vt.Pick(rnd, 3000, 20000, 70000)
	if c == 0 {
		networks = 70000
	}
	limit := uint(vt.Pick(rnd, 1, 2, 300))
	var passed, limited int
	count := func(n *int) rdns.Resolver {
		return &vt.Func{Name: "count", F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			*n++
			a := new(dns.Msg)
			a.SetReply(q)
			return a, nil
		}}
	}
	g := rdns.NewRateLimiter(fmt.Sprintf("crowd-%d", c), count(&passed), rdns.RateLimiterOptions{
		Requests: limit, Window: 3600, Prefix4: 32, Prefix6: 64, LimitResolver: count(&limited)})
	next := (time.Now().Unix()/3600 + 1) * 3600
	time.Sleep(time.Until(time.Unix(next, 0)))
	asked := map[int]int{}
	ask := func(n int) bool {
		ip := net.IP{10, byte(n >> 16), byte(n >> 8), byte(n)}
		if n%4 == 3 {
			ip = make(net.IP, 16)
			copy(ip, net.ParseIP("2001:db8::"))
			ip[5], ip[6], ip[7], ip[15] = byte(n>>16), byte(n>>8), byte(n), byte(rnd.Intn(256))
		}
		p, l := passed, limited
		asked[n]++
		g.Resolve(vt.Query("r.test.", dns.TypeA), rdns.ClientInfo{SourceIP: ip})
		want := asked[n] <= int(limit)
		if passed-p+limited-l != 1 || (passed-p == 1) != want {
			r.Violation("limit-crowd", fmt.Sprintf("query number %d of %s in this window, in which %d networks have asked, passed %d times and was limited %d times, the limit is %d", asked[n], ip, len(asked), passed-p, limited-l, limit), label)
			return false
		}
		if !want {
			r.Observe("limited in a crowd", 1)
			r.Eval(fmt.Sprintf("crowd of %d lim %d fam %v", networks, limit, n%4 == 3))
		}
		return true
	}
	// a few reach the limit, all others come, and the first ones are back
	for n := 0; n < 20; n++ {
		for i := 0; i < int(limit); i++ {
			if !ask(n) {
				return
			}
		}
	}
	for n := 0; n < networks; n++ {
		if !ask(n) || !ask(rnd.Intn(20)) {
			return
		}
	}
	r.Observe("networks in a crowd", networks)
	for n := 0; n < 20; n++ {
		if !ask(n) {
			return
		}
	}
	for i := 0; i < 70000; i++ {
		if !ask(1) {
			return
		}
	}
	// the next window starts from zero
	time.Sleep(time.Hour)
	asked = map[int]int{}
	for n := 0; n < 20; n++ {
		for i := 0; i <= int(limit); i++ {
			if !ask(n) {
				return
			}
		}
	}
}
