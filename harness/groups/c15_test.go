package groups

import (
	"fmt"
	"math/rand"
	"net"
	"strings"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// expr is a regular expression and what it means, in plain string terms.
type expr struct {
	re string
	ok func(string) bool
}

var nameExprs = []expr{
	{`(^|\.)test\.$`, func(s string) bool { return s == "test." || strings.HasSuffix(s, ".test.") }},
	{`^a\.`, func(s string) bool { return strings.HasPrefix(s, "a.") }},
	{`(?i)\.test\.$`, func(s string) bool { return strings.HasSuffix(strings.ToLower(s), ".test.") }},
	{`b`, func(s string) bool { return strings.Contains(s, "b") }},
	{`^x\.example\.$`, func(s string) bool { return s == "x.example." }},
}
var pathExprs = []expr{
	{`^/one$`, func(s string) bool { return s == "/one" }},
	{`^/t`, func(s string) bool { return strings.HasPrefix(s, "/t") }},
}
var idExprs = []expr{
	{`^in-1$`, func(s string) bool { return s == "in-1" }},
	{`in`, func(s string) bool { return strings.Contains(s, "in") }},
}
var sniExprs = []expr{
	{`^dns\.test$`, func(s string) bool { return s == "dns.test" }},
	{`dns`, func(s string) bool { return strings.Contains(s, "dns") }},
}
var days = []string{"sun", "mon", "tue", "wed", "thu", "fri", "sat"}

// within: the first n bits of the address are those of the network; the
// families never match each other.
func within(ip net.IP, cidr string) bool {
	base, n, _ := strings.Cut(cidr, "/")
	var bits int
	fmt.Sscan(n, &bits)
	a, b := ip.To4(), net.ParseIP(base).To4()
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		a, b = ip.To16(), net.ParseIP(base).To16()
	}
	if a == nil {
		return false
	}
	for i := 0; i < bits; i++ {
		if (a[i/8]^b[i/8])>>(7-i%8)&1 != 0 {
			return false
		}
	}
	return true
}

type refRoute struct {
	desc   string
	invert bool
	conds  []func(q *dns.Msg, ci rdns.ClientInfo, now time.Time) bool
}

func (x *refRoute) match(q *dns.Msg, ci rdns.ClientInfo, now time.Time) bool {
	for _, c := range x.conds {
		if !c(q, ci, now) {
			return x.invert
		}
	}
	return !x.invert
}

// TestC15: the first route whose conditions all hold gets the query.
func TestC15(t *testing.T) {
	r := vt.Start(t, "C15", "one query against one random router per evaluation; non-trivial when a route other than the first took it, distinct by (route number, conditions used)")
	r.Need("routed", 20000)
	r.Need("no route", 500)
	r.Need("not the first route", 8000)
	time.Local = time.FixedZone("here", 5*3600+1800)
	vt.Virtual(t, r, func(t *testing.T) {
		for c := 0; c < r.N(4000, 100000); c++ {
			routeCase(r, c)
		}
	})
}

func randomRoute(rnd *rand.Rand, last bool, to rdns.Resolver) (*refRoute, func() error, func(*rdns.Router)) {
	x := &refRoute{}
	var name, class, before, after, source, ecs, path, lid, sni string
	var types, week []string
	use := func(p int) bool { return !last && rnd.Intn(p) == 0 }
	cond := func(d string, f func(q *dns.Msg, ci rdns.ClientInfo, now time.Time) bool) {
		x.desc += d + ";"
		x.conds = append(x.conds, f)
	}
	if use(3) {
		e := vt.Pick(rnd, nameExprs...)
		name = e.re
		cond("name "+e.re, func(q *dns.Msg, _ rdns.ClientInfo, _ time.Time) bool { return e.ok(q.Question[0].Name) })
	}
	if use(3) {
		set := map[uint16]bool{}
		for i := 0; i < 1+rnd.Intn(3); i++ {
			t := vt.Pick(rnd, "A", "aaaa", "MX", "txt", "HTTPS")
			types = append(types, t)
			set[dns.StringToType[strings.ToUpper(t)]] = true
		}
		cond(fmt.Sprint("types ", types), func(q *dns.Msg, _ rdns.ClientInfo, _ time.Time) bool { return set[q.Question[0].Qtype] })
	}
	if use(5) {
		n := vt.Pick[uint16](rnd, 1, 3, 4, 254, 255)
		class = map[uint16]string{1: vt.Pick(rnd, "IN", "inet"), 3: "CH", 4: "hs", 254: "NONE", 255: "ANY"}[n]
		cond("class "+class, func(q *dns.Msg, _ rdns.ClientInfo, _ time.Time) bool { return q.Question[0].Qclass == n })
	}
	nets := []string{"10.0.0.0/8", "10.1.0.0/17", "10.1.2.3/32", "2001:db8::/33", "0.0.0.0/0", "::/0", "192.0.2.0/25"}
	if use(4) {
		source = vt.Pick(rnd, nets...)
		s := source
		cond("source "+s, func(_ *dns.Msg, ci rdns.ClientInfo, _ time.Time) bool { return within(ci.SourceIP, s) })
	}
	if use(4) {
		ecs = vt.Pick(rnd, nets...)
		s := ecs
		cond("ecs "+s, func(q *dns.Msg, _ rdns.ClientInfo, _ time.Time) bool {
			var ip net.IP
			if o := q.IsEdns0(); o != nil {
				for _, e := range o.Option {
					if e, ok := e.(*dns.EDNS0_SUBNET); ok {
						ip = e.Address
					}
				}
			}
			return ip != nil && within(ip, s)
		})
	}
	if use(6) {
		e := vt.Pick(rnd, pathExprs...)
		path = e.re
		cond("path "+e.re, func(_ *dns.Msg, ci rdns.ClientInfo, _ time.Time) bool { return e.ok(ci.DoHPath) })
	}
	if use(6) {
		e := vt.Pick(rnd, idExprs...)
		lid = e.re
		cond("listener "+e.re, func(_ *dns.Msg, ci rdns.ClientInfo, _ time.Time) bool { return e.ok(ci.Listener) })
	}
	if use(6) {
		e := vt.Pick(rnd, sniExprs...)
		sni = e.re
		cond("sni "+e.re, func(_ *dns.Msg, ci rdns.ClientInfo, _ time.Time) bool { return e.ok(ci.TLSServerName) })
	}
	if use(4) {
		set := map[string]bool{}
		for i := 0; i < 1+rnd.Intn(4); i++ {
			week = append(week, vt.Pick(rnd, days...))
			set[week[len(week)-1]] = true
		}
		cond(fmt.Sprint("days ", week), func(_ *dns.Msg, _ rdns.ClientInfo, now time.Time) bool {
			return set[days[localSec(now)/86400%7]]
		})
	}
	clock := func() (string, int64) {
		h, m := rnd.Intn(24), vt.Pick(rnd, 0, 0, 30, rnd.Intn(60))
		if m == 0 && rnd.Intn(2) == 0 {
			return fmt.Sprintf("%d", h), int64(h) * 60
		}
		return fmt.Sprintf("%02d:%02d", h, m), int64(h*60 + m)
	}
	if use(4) {
		s, m := clock()
		before = s
		cond("before "+s, func(_ *dns.Msg, _ rdns.ClientInfo, now time.Time) bool { return localSec(now)%86400/60 < m })
	}
	if use(4) {
		s, m := clock()
		after = s
		cond("after "+s, func(_ *dns.Msg, _ rdns.ClientInfo, now time.Time) bool { return localSec(now)%86400/60 >= m })
	}
	x.invert = !last && rnd.Intn(4) == 0
	if x.invert {
		x.desc += "inverted"
	}
	var add func(*rdns.Router)
	mk := func() error {
		rt, err := rdns.NewRoute(name, class, types, week, before, after, source, ecs, path, lid, sni, to)
		if err != nil {
			return err
		}
		rt.Invert(x.invert)
		add = func(r *rdns.Router) { r.Add(rt) }
		return nil
	}
	return x, mk, func(r *rdns.Router) { add(r) }
}

// localSec counts seconds of local time from a Sunday, midnight.
func localSec(t time.Time) int64 {
	const sunday = 3 * 86400 // 1970-01-04
	return t.Unix() + 5*3600 + 1800 - sunday
}

func routeCase(r *vt.R, c int) {
	rnd := r.Rand("route", c)
	label := fmt.Sprintf("router case %d", c)
	r.Case("%s", label)
	g := rdns.NewRouter(fmt.Sprintf("router-%d", c%50))
	n := 1 + rnd.Intn(5)
	var refs []*refRoute
	hit := -1
	var seen *dns.Msg
	var seenCI rdns.ClientInfo
	outcome := 0
	for i := 0; i < n; i++ {
		to := &vt.Func{Name: fmt.Sprint("to", i), F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			if hit >= 0 {
				hit = 1000
			} else {
				hit = i
			}
			seen, seenCI = q, ci
			switch outcome {
			case 1:
				return nil, fmt.Errorf("failed")
			case 2:
				return nil, nil
			}
			a := new(dns.Msg)
			a.SetReply(q)
			a.Answer = append(a.Answer, vt.RR("m.test. 60 IN TXT \"%d\"", i))
			return a, nil
		}}
		x, mk, add := randomRoute(rnd, i == n-1 && rnd.Intn(2) == 0, to)
		if err := mk(); err != nil {
			r.Violation("rejected", fmt.Sprintf("route %s: %v", x.desc, err), label)
			return
		}
		add(g)
		refs = append(refs, x)
	}
	for i := 0; i < 25; i++ {
		time.Sleep(time.Duration(rnd.Intn(3*3600*1000)) * time.Millisecond)
		if rnd.Intn(2) == 0 { // to a round minute, or the last millisecond before it
			to := time.Now().Truncate(30 * time.Minute).Add(30 * time.Minute)
			time.Sleep(time.Until(to) - time.Duration(rnd.Intn(2))*time.Millisecond)
		}
		q := vt.Query(vt.Pick(rnd, "a.test.", "b.test.", "test.", "A.TEST.", "xtest.", "x.example.", "a.test.example.", "."), vt.Pick(rnd, dns.TypeA, dns.TypeAAAA, dns.TypeMX, dns.TypeTXT, dns.TypeHTTPS))
		if rnd.Intn(5) == 0 {
			q.Question[0].Qclass = vt.Pick[uint16](rnd, 3, 4, 254, 255)
		}
		addrs := []string{"10.0.0.1", "10.1.2.3", "10.1.200.1", "192.0.2.1", "192.0.2.129", "2001:db8::1", "2001:db8:8000::1"}
		for k := rnd.Intn(3); k > 0; k-- {
			vt.AddECS(q, vt.Pick(rnd, addrs...), 24)
		}
		if o := q.IsEdns0(); o != nil && rnd.Intn(2) == 0 {
			o.Option = append(o.Option, &dns.EDNS0_NSID{Code: dns.EDNS0NSID})
		}
		ci := rdns.ClientInfo{
			SourceIP:      net.ParseIP(vt.Pick(rnd, addrs...)),
			DoHPath:       vt.Pick(rnd, "", "/one", "/two", "/one/x"),
			Listener:      vt.Pick(rnd, "in-1", "in-11", "out"),
			TLSServerName: vt.Pick(rnd, "", "dns.test", "my.dns.test", "other"),
		}
		if rnd.Intn(20) == 0 {
			ci.SourceIP = nil // the client isn't known
		}
		if ip := ci.SourceIP.To4(); ip != nil && rnd.Intn(2) == 0 {
			ci.SourceIP = ip
		}
		now := time.Now()
		want := -1
		for k, x := range refs {
			if x.match(q, ci, now) {
				want = k
				break
			}
		}
		hit, seen, outcome = -1, nil, rnd.Intn(5)
		before := vt.CanonID(q)
		a, err := g.Resolve(q, ci)
		if hit != want {
			var d []string
			for _, x := range refs {
				d = append(d, x.desc)
			}
			r.Violation("route", fmt.Sprintf("%v from %+v at %v went to route %d, expected %d of %q", q.Question[0], ci, now.In(time.Local), hit, want, d), label)
			return
		}
		if want < 0 {
			r.Observe("no route", 1)
			if err == nil {
				r.Violation("no-route", fmt.Sprintf("no route matched but the result is %v", a), label)
				return
			}
			continue
		}
		r.Observe("routed", 1)
		if want > 0 {
			r.Observe("not the first route", 1)
			r.Eval(fmt.Sprintf("%d %s", want, refs[want].desc))
		}
		ok := true
		switch outcome {
		case 1:
			ok = err != nil
		case 2:
			ok = a == nil && err == nil
		default:
			ok = err == nil && a != nil && len(a.Answer) == 1 && a.Answer[0].(*dns.TXT).Txt[0] == fmt.Sprint(want)
		}
		if !ok {
			r.Violation("result", fmt.Sprintf("the router did not return its resolver's result: %v %v", a, err), label)
			return
		}
		if got := vt.CanonID(seen); got != before || fmt.Sprintf("%+v", seenCI) != fmt.Sprintf("%+v", ci) {
			r.Violation("changed", fmt.Sprintf("the router passed on %s, %+v for %s, %+v", got, seenCI, before, ci), label)
			return
		}
	}
}
