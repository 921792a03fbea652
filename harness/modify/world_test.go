package modify

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

var types = []uint16{dns.TypeA, dns.TypeAAAA, dns.TypeTXT, dns.TypeMX, dns.TypeHTTPS, dns.TypePTR, dns.TypeNS, dns.TypeANY, 65280}

// query makes a random query.
func query(rnd *rand.Rand) *dns.Msg {
	q := vt.Query(vt.MixCase(rnd, vt.Pick(rnd, "www.example.com.", "a.b.example.net.", "host-1.", "x\\.y.test.", "*.wild.test.", ".", "sp\\ ace.test.", "1.0.0.127.in-addr.arpa.")), vt.Pick(rnd, types...))
	q.Id = uint16(rnd.Intn(1 << 16))
	q.RecursionDesired = rnd.Intn(2) == 0
	q.CheckingDisabled = rnd.Intn(4) == 0
	q.AuthenticatedData = rnd.Intn(4) == 0
	if rnd.Intn(10) == 0 {
		q.Question[0].Qclass = dns.ClassCHAOS
	}
	if rnd.Intn(20) == 0 {
		q.Opcode = dns.OpcodeNotify
	}
	if rnd.Intn(3) > 0 {
		q.SetEdns0(vt.Pick[uint16](rnd, 512, 1232, 4096, 65535), rnd.Intn(3) == 0)
		q.IsEdns0().Option = options(rnd)
	}
	return q
}

// options makes EDNS0 options, often several of a kind.
func options(rnd *rand.Rand) []dns.EDNS0 {
	var o []dns.EDNS0
	for i := rnd.Intn(5); i > 0; i-- {
		switch rnd.Intn(6) {
		case 0, 1:
			o = append(o, subnet(rnd))
		case 2:
			o = append(o, &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "0123456789abcdef"})
		case 3:
			o = append(o, &dns.EDNS0_NSID{Code: dns.EDNS0NSID, Nsid: "aabb"})
		default:
			b := make([]byte, rnd.Intn(8))
			rnd.Read(b)
			o = append(o, &dns.EDNS0_LOCAL{Code: uint16(65001 + rnd.Intn(3)), Data: b})
		}
	}
	return o
}

func subnet(rnd *rand.Rand) *dns.EDNS0_SUBNET {
	s := &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 1, SourceNetmask: uint8(rnd.Intn(33))}
	ip := make(net.IP, 4)
	if rnd.Intn(2) == 0 {
		s.Family, s.SourceNetmask = 2, uint8(rnd.Intn(129))
		ip = make(net.IP, 16)
	}
	rnd.Read(ip)
	s.Address = ip.Mask(net.CIDRMask(int(s.SourceNetmask), 8*len(ip)))
	return s
}

// ttl favours the edges.
func ttl(rnd *rand.Rand) uint32 {
	return vt.Pick(rnd, 0, 1, 29, 30, 31, 59, 60, 61, 299, 300, 3600, 86400, 1<<31-1, 1<<31, 1<<32-1, rnd.Uint32()%1000, rnd.Uint32())
}

func ip4(rnd *rand.Rand) net.IP {
	return net.IPv4(byte(rnd.Intn(256)), byte(rnd.Intn(256)), byte(rnd.Intn(256)), byte(rnd.Intn(256))).To4()
}

func ip6(rnd *rand.Rand) net.IP {
	ip := make(net.IP, 16)
	rnd.Read(ip)
	ip[0] = 0x20
	return ip
}

// record makes a record of one of several types.
func record(rnd *rand.Rand, name string) dns.RR {
	h := func(t uint16) dns.RR_Header {
		return dns.RR_Header{Name: name, Rrtype: t, Class: dns.ClassINET, Ttl: ttl(rnd)}
	}
	switch rnd.Intn(8) {
	case 0:
		return &dns.AAAA{Hdr: h(dns.TypeAAAA), AAAA: ip6(rnd)}
	case 1:
		return &dns.TXT{Hdr: h(dns.TypeTXT), Txt: []string{vt.Label(rnd, 1+rnd.Intn(30))}}
	case 2:
		return &dns.MX{Hdr: h(dns.TypeMX), Preference: uint16(rnd.Intn(100)), Mx: "mx." + vt.Label(rnd, 3) + ".test."}
	case 3:
		return &dns.NS{Hdr: h(dns.TypeNS), Ns: "ns." + vt.Label(rnd, 3) + ".test."}
	case 4:
		return &dns.SOA{Hdr: h(dns.TypeSOA), Ns: "ns.test.", Mbox: "m.test.", Serial: rnd.Uint32(), Minttl: ttl(rnd)}
	case 5:
		return &dns.PTR{Hdr: h(dns.TypePTR), Ptr: vt.Label(rnd, 5) + ".test."}
	default:
		return &dns.A{Hdr: h(dns.TypeA), A: ip4(rnd)}
	}
}

// answer makes a random answer to q.
func answer(rnd *rand.Rand, q *dns.Msg) *dns.Msg {
	a := new(dns.Msg)
	a.SetReply(q)
	a.RecursionAvailable = rnd.Intn(2) == 0
	a.Authoritative = rnd.Intn(2) == 0
	a.AuthenticatedData = rnd.Intn(3) == 0
	a.Truncated = rnd.Intn(10) == 0
	if rnd.Intn(4) == 0 {
		a.Rcode = vt.Pick(rnd, dns.RcodeNameError, dns.RcodeServerFailure, dns.RcodeRefused)
	}
	name := q.Question[0].Name
	for i := rnd.Intn(4); i > 0 && rnd.Intn(2) == 0; i-- {
		next := vt.Label(rnd, 4) + ".cdn.test."
		a.Answer = append(a.Answer, &dns.CNAME{Hdr: dns.RR_Header{Name: name, Rrtype: dns.TypeCNAME, Class: q.Question[0].Qclass, Ttl: ttl(rnd)}, Target: next})
		name = next
	}
	for i := rnd.Intn(6); i > 0; i-- {
		rr := record(rnd, name)
		if rnd.Intn(2) == 0 && q.Question[0].Qtype == dns.TypeA {
			rr = &dns.A{Hdr: dns.RR_Header{Name: name, Rrtype: dns.TypeA, Class: q.Question[0].Qclass, Ttl: ttl(rnd)}, A: ip4(rnd)}
		}
		if rnd.Intn(8) == 0 {
			rr.Header().Name = vt.Label(rnd, 3) + ".other.test."
		}
		if rnd.Intn(20) == 0 {
			rr.Header().Class = dns.ClassHESIOD
		}
		a.Answer = append(a.Answer, rr)
	}
	for i := rnd.Intn(3); i > 0; i-- {
		a.Ns = append(a.Ns, record(rnd, "zone.test."))
	}
	for i := rnd.Intn(3); i > 0; i-- {
		a.Extra = append(a.Extra, record(rnd, "glue.test."))
	}
	if rnd.Intn(3) > 0 {
		a.SetEdns0(vt.Pick[uint16](rnd, 512, 1232, 4096), rnd.Intn(2) == 0)
		o := a.IsEdns0()
		o.Option = options(rnd)
		if rnd.Intn(2) == 0 && len(a.Extra) > 1 { // anywhere among the others
			i := rnd.Intn(len(a.Extra))
			a.Extra[i], a.Extra[len(a.Extra)-1] = a.Extra[len(a.Extra)-1], a.Extra[i]
		}
	}
	return a
}

// result is what an upstream returns.
type result struct {
	a   *dns.Msg
	err error
}

func (x result) copy() (*dns.Msg, error) {
	if x.a == nil {
		return nil, x.err
	}
	return x.a.Copy(), x.err
}

func (x result) String() string {
	if x.err != nil {
		return "error " + x.err.Error()
	}
	if x.a == nil {
		return "drop"
	}
	return vt.CanonID(x.a)
}

var errUpstream = errors.New("upstream failed")

// outcome makes a random result for q, mostly an answer.
func outcome(rnd *rand.Rand, q *dns.Msg) result {
	switch rnd.Intn(15) {
	case 0:
		return result{err: errUpstream}
	case 1:
		return result{}
	}
	return result{a: answer(rnd, q)}
}

// client makes random client details.
func client(rnd *rand.Rand) rdns.ClientInfo {
	ci := rdns.ClientInfo{SourceIP: ip4(rnd), Listener: vt.Label(rnd, 3), Protocol: vt.Pick(rnd, "udp", "dot"), DoHPath: "/" + vt.Label(rnd, 2), TLSServerName: vt.Label(rnd, 2)}
	switch rnd.Intn(3) {
	case 0:
		ci.SourceIP = ip6(rnd)
	case 1:
		ci.SourceIP = ci.SourceIP.To16() // the long form of an IPv4 address
	}
	return ci
}

// sighting is one query as an upstream saw it.
type sighting struct {
	q  *dns.Msg
	ci rdns.ClientInfo
}

// element drives one element: every query is paired with scripted upstream
// results, found again by the query's ID.
type element struct {
	mu     sync.Mutex
	script map[uint16]func(q *dns.Msg) (*dns.Msg, error)
	seen   map[uint16][]sighting
}

func newElement() *element {
	return &element{script: map[uint16]func(*dns.Msg) (*dns.Msg, error){}, seen: map[uint16][]sighting{}}
}

func (e *element) Resolve(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
	e.mu.Lock()
	f := e.script[q.Id]
	e.seen[q.Id] = append(e.seen[q.Id], sighting{q.Copy(), ci})
	e.mu.Unlock()
	if f == nil {
		return nil, fmt.Errorf("query with unknown ID %d", q.Id)
	}
	return f(q)
}

func (e *element) String() string { return "upstream" }

// step is one query through the element under test.
type step struct {
	q     *dns.Msg
	ci    rdns.ClientInfo
	f     func(q *dns.Msg) (*dns.Msg, error)
	judge func(got result, seen []sighting)
}

// drive runs the steps, eight at a time, and judges each. The caller's own
// message must come back as it was.
func (e *element) drive(r *vt.R, el rdns.Resolver, label string, steps []step) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	got := make([]result, len(steps))
	for i := range steps {
		s := &steps[i]
		s.q.Id = uint16(i)
		e.mu.Lock()
		e.script[s.q.Id] = s.f
		e.mu.Unlock()
	}
	for i := range steps {
		s := &steps[i]
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			before := vt.CanonID(s.q)
			a, err := el.Resolve(s.q, s.ci)
			got[i] = result{a, err}
			if after := vt.CanonID(s.q); after != before {
				r.Violation("query-changed", fmt.Sprintf("the caller's query %s became %s", before, after), label)
			}
		}()
	}
	wg.Wait()
	for i := range steps {
		steps[i].judge(got[i], e.seen[uint16(i)])
	}
}

// same reports whether two results are the same, and complains otherwise.
func same(r *vt.R, key, label string, q *dns.Msg, want, got result) bool {
	if want.String() == got.String() {
		return true
	}
	r.Violation(key, fmt.Sprintf("query %s\nwant %s\ngot  %s", vt.CanonID(q), want, got), label)
	return false
}

// passed requires that upstream saw exactly the given queries.
func passed(r *vt.R, label string, s *step, seen []sighting, want ...*dns.Msg) bool {
	var w, g []string
	for _, q := range want {
		w = append(w, vt.CanonID(q))
	}
	for _, x := range seen {
		g = append(g, vt.CanonID(x.q))
		if fmt.Sprint(x.ci) != fmt.Sprint(s.ci) {
			r.Violation("client", fmt.Sprintf("upstream was told of client %v instead of %v", x.ci, s.ci), label)
			return false
		}
	}
	if strings.Join(w, "\n") != strings.Join(g, "\n") {
		r.Violation("upstream-query", fmt.Sprintf("query %s\nwant upstream to see %s\nit saw %s", vt.CanonID(s.q), w, g), label)
		return false
	}
	return true
}
