package listeners

import (
	"fmt"
	"math/rand"
	"net"
	"slices"
	"strings"
	"testing"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"github.com/pion/dtls/v3"

	"verif/harness/vt"
)

// TestC23: answers keep to the client's size, encrypted ones are padded.
func TestC23(t *testing.T) {
	r := vt.Start(t, "C23", "one answer or upstream query per evaluation; non-trivial when truncated or padded, distinct by (listener, advertised size, size class of the answer, fits or not)")
	for _, k := range []string{"udp", "dtls"} {
		r.Need("truncated "+k, 20)
		r.Need("complete "+k, 50)
	}
	for _, k := range []string{"dot", "dtls", "doh", "doh3", "doq", "odoh"} {
		r.Need("padded "+k, 20)
	}
	r.Need("padding removed", 20)
	for _, k := range clientKinds {
		r.Need("upstream queries "+k, 30)
	}
	for c := 0; c < r.N(4, 60); c++ {
		for _, k := range kinds {
			nets := []string{""}
			if k == "udp" {
				nets = []string{"udp", "udp4", "udp6"}
			}
			for _, n := range nets {
				sizeCase(r, k, n, c)
			}
		}
		for _, k := range clientKinds {
			queryCase(r, k, c)
		}
	}
	r.Exit()
}

var clientKinds = []string{"udp", "tcp", "dot", "dtls", "doh", "doh3", "doq", "odoh"}

// queryCase looks at what the clients send: encrypted queries are padded, and
// plain ones never are.
func queryCase(r *vt.R, kind string, c int) {
	rnd := r.Rand("query", kind, c)
	label := fmt.Sprintf("query %s %d", kind, c)
	r.Case("%s", label)
	b := newBackend()
	s := start(r, kind, "query-"+kind, config{odohMode: "dual"}, b)
	if s == nil {
		return
	}
	defer s.stop()
	var cl rdns.Resolver
	var err error
	id, host := "size-"+kind, fmt.Sprintf("a.test:%d", s.port)
	switch kind {
	case "udp", "tcp":
		cl, err = rdns.NewDNSClient(id, s.target(), kind, rdns.DNSClientOptions{QueryTimeout: vt.HangLimit})
	case "dot":
		cl, err = rdns.NewDoTClient(id, host, rdns.DoTClientOptions{BootstrapAddr: "127.0.0.1", QueryTimeout: vt.HangLimit, TLSConfig: clientTLS("a.test")})
	case "dtls":
		cl, err = rdns.NewDTLSClient(id, host, rdns.DTLSClientOptions{BootstrapAddr: "127.0.0.1", QueryTimeout: vt.HangLimit, DTLSConfig: &dtls.Config{RootCAs: ca.Pool()}})
	case "doq":
		cl, err = rdns.NewDoQClient(id, host, rdns.DoQClientOptions{BootstrapAddr: "127.0.0.1", QueryTimeout: vt.HangLimit, TLSConfig: clientTLS("a.test"), LocalAddr: net.IP{127, 0, 0, 1}})
	case "doh", "doh3":
		o := rdns.DoHClientOptions{BootstrapAddr: "127.0.0.1", QueryTimeout: vt.HangLimit, TLSConfig: clientTLS("a.test"), Method: vt.Pick(rnd, "GET", "POST"), LocalAddr: net.IP{127, 0, 0, 1}}
		if kind == "doh3" {
			o.Transport = "quic"
		}
		cl, err = rdns.NewDoHClient(id, "https://"+host+"/dns-query{?dns}", o)
	case "odoh":
		o := rdns.DoHClientOptions{BootstrapAddr: "127.0.0.1", QueryTimeout: vt.HangLimit, TLSConfig: clientTLS("a.test"), LocalAddr: net.IP{127, 0, 0, 1}}
		cl, err = rdns.NewODoHClient(id, "", "https://"+host+"/dns-query", "", o)
	}
	if err != nil {
		r.Violation("rejected", err.Error(), label)
		return
	}
	for i := 0; i < 12; i++ {
		tok := fmt.Sprintf("q%d-%s", i, strings.ToLower(vt.Label(rnd, 1+rnd.Intn(40))))
		q := vt.Query(tok+"."+strings.Repeat("pad.", rnd.Intn(30))+"size.test.", dns.TypeA)
		edns, had := false, false
		if rnd.Intn(3) > 0 {
			edns = true
			q.SetEdns0(1232, rnd.Intn(2) == 0)
			if rnd.Intn(2) == 0 {
				vt.AddECS(q, "192.0.2.0", 24)
			}
			had = addOptions(rnd, q.IsEdns0(), 300)
		}
		before := vt.CanonID(q)
		arrived := make(chan *dns.Msg, 10)
		b.set(tok, func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			arrived <- q.Copy()
			return answerFor(tok)(q, ci)
		})
		a, err := cl.Resolve(q, rdns.ClientInfo{})
		var length, pad int
		var has bool
		select {
		case m := <-arrived:
			length = m.Len()
			pad, has = padding(m)
			if !slices.Equal(otherOptions(m), otherOptions(q)) {
				r.Violation("options-changed", fmt.Sprintf("%s: a query with the options %q went out with %q", kind, otherOptions(q), otherOptions(m)), label)
			}
		default:
		}
		desc := fmt.Sprintf("%s: a query (EDNS0 %v, padded before %v) went out with %d bytes, padding %v of %d", kind, edns, had, length, has, pad)
		if err != nil || !hasAnswer(a, tok) {
			r.Violation("not-answered", fmt.Sprintf("%s: %v", desc, err), label)
			return
		}
		r.Observe("upstream queries "+kind, 1)
		r.Eval(fmt.Sprintf("query %s %v %v %d", kind, edns, had, length/128))
		if vt.CanonID(q) != before {
			r.Violation("query-changed", desc+"\n"+before+"\n"+vt.CanonID(q), label)
		}
		switch kind {
		case "udp", "tcp":
			if has {
				r.Violation("padding-in-the-clear", desc, label)
			}
		default:
			if edns && (!has || length%128 != 0 || pad > 128) {
				r.Violation("query-not-padded", desc, label)
			}
			if !edns && has {
				r.Violation("unwanted-padding", desc, label)
			}
		}
	}
}

// sized returns an answer whose uncompressed length is about n.
func sized(rnd *rand.Rand, q *dns.Msg, n int) *dns.Msg {
	a := new(dns.Msg)
	a.SetReply(q)
	for a.Len() < n {
		left := n - a.Len()
		var rr dns.RR
		if left > 400 && rnd.Intn(2) == 0 {
			rr = vt.RR("%s 60 IN TXT %q", q.Question[0].Name, strings.Repeat("x", 50+rnd.Intn(200)))
		} else {
			rr = vt.RR("%s 60 IN A 192.0.%d.%d", q.Question[0].Name, rnd.Intn(256), rnd.Intn(256))
		}
		switch rnd.Intn(8) {
		case 0:
			a.Ns = append(a.Ns, rr)
		case 1:
			a.Extra = append(a.Extra, rr)
		default:
			a.Answer = append(a.Answer, rr)
		}
	}
	return a
}

func padding(m *dns.Msg) (n int, has bool) {
	o := m.IsEdns0()
	if o == nil {
		return 0, false
	}
	for _, e := range o.Option {
		if p, ok := e.(*dns.EDNS0_PADDING); ok {
			n += len(p.Padding)
			has = true
		}
	}
	return
}

// addOptions adds options in any order, often with padding among them.
func addOptions(rnd *rand.Rand, o *dns.OPT, most int) (padded bool) {
	for i := rnd.Intn(4); i > 0; i-- {
		switch rnd.Intn(3) {
		case 0:
			o.Option = append(o.Option, &dns.EDNS0_LOCAL{Code: 65001, Data: make([]byte, rnd.Intn(20))})
		case 1:
			o.Option = append(o.Option, &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "0123456789abcdef"})
		default:
			if !padded {
				o.Option = append(o.Option, &dns.EDNS0_PADDING{Padding: make([]byte, rnd.Intn(most))})
			}
			padded = true
		}
	}
	return
}

// otherOptions are all but the padding.
func otherOptions(m *dns.Msg) (out []string) {
	if o := m.IsEdns0(); o != nil {
		for _, e := range o.Option {
			if e.Option() != dns.EDNS0PADDING {
				out = append(out, fmt.Sprintf("%d:%s", e.Option(), e))
			}
		}
	}
	return
}

// prefixOf tells if the records are the first ones of all.
func prefixOf(got, all []dns.RR) bool {
	g, w := rrs(got), rrs(all)
	if len(g) > len(w) {
		return false
	}
	for i := range g {
		if g[i] != w[i] {
			return false
		}
	}
	return true
}

func rrs(in []dns.RR) (out []string) {
	for _, rr := range in {
		if rr.Header().Rrtype != dns.TypeOPT {
			out = append(out, rr.String())
		}
	}
	return
}

func sizeCase(r *vt.R, kind, network string, c int) {
	rnd := r.Rand("size", kind, network, c)
	label := fmt.Sprintf("size %s %s %d", kind, network, c)
	r.Case("%s", label)
	b := newBackend()
	s := start(r, kind, "size-"+kind, config{odohMode: "target", network: network, any: network == "udp6"}, b)
	if s == nil {
		return
	}
	defer s.stop()
	ip := loopIP(rnd)
	if network == "udp6" {
		if !bound("udp", s.port) {
			return
		}
		s.host, ip = "::1", nil
	}
	cl, err := dial(s, ip, "a.test", func(w string) { r.Violation("stray", kind+": "+w, label) })
	if err != nil {
		if network == "udp6" {
			r.Observe("no IPv6", 1)
			return
		}
		r.Violation("no-connection", fmt.Sprintf("%s: %v", kind, err), label)
		return
	}
	defer cl.close()
	datagram := kind == "udp" || kind == "dtls"
	encrypted := kind == "dot" || kind == "dtls" || kind == "doh" || kind == "doh-plain" || kind == "doh3" || kind == "doq" || kind == "odoh"
	for i := 0; i < 40; i++ {
		tok := fmt.Sprintf("s%d-%s", i, strings.ToLower(vt.Label(rnd, 1+rnd.Intn(20))))
		q := vt.Query(tok+".size.test.", dns.TypeA)
		q.Id = uint16(1000*c + i + 1)
		adv := 0
		if rnd.Intn(4) > 0 {
			adv = vt.Pick(rnd, 0, 100, 511, 512, 513, 600, 936, 1232, 1400, 4096, 8000, 65535, 512+rnd.Intn(3000))
			q.SetEdns0(uint16(adv), rnd.Intn(2) == 0)
		}
		edns := q.IsEdns0() != nil
		limit := max(adv, 512)
		size := vt.Pick(rnd, 60, 200, 480, 936, 1500, rnd.Intn(3000), rnd.Intn(8000), limit-rnd.Intn(40), limit+rnd.Intn(40), limit-rnd.Intn(500), 468*(1+rnd.Intn(6))-rnd.Intn(40))
		most := 60000
		if kind == "dtls" {
			most = 6500 // the client's own buffer
		}
		if !datagram && rnd.Intn(4) == 0 {
			size = rnd.Intn(60000)
		}
		size = min(size, most)
		raw, _ := q.Pack()
		sent := new(dns.Msg)
		sent.Unpack(raw)
		plan := sized(rnd, sent, size)
		had := false
		if rnd.Intn(2) == 0 {
			plan.SetEdns0(1232, false)
			had = addOptions(rnd, plan.IsEdns0(), 500)
		}
		wire, err := plan.Pack()
		if err != nil {
			continue
		}
		// what the listener has to send, at its smallest
		bare := plan.Copy()
		if o := bare.IsEdns0(); o != nil {
			o.Option = slices.DeleteFunc(o.Option, func(e dns.EDNS0) bool { return e.Option() == dns.EDNS0PADDING })
		}
		bare.Compress = true
		small, _ := bare.Pack()
		b.set(tok, func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			a := new(dns.Msg)
			return a, a.Unpack(wire)
		})
		o := cl.ask(request{raw: raw, get: kind != "odoh" && rnd.Intn(2) == 0})
		a := o.msg()
		desc := fmt.Sprintf("%s %s, client size %d (EDNS0 %v), answer of %d bytes (%d at the smallest): got %d bytes", kind, network, adv, edns, len(wire), len(small), len(o.raw))
		if a == nil {
			r.Violation("not-answered", desc+", "+o.String(), label)
			return
		}
		n := len(o.raw)
		fits := "stream"
		if datagram {
			fits = "fits"
			if n > limit {
				r.Violation("too-large", desc, label)
				continue
			}
			complete := len(rrs(a.Answer)) == len(rrs(plan.Answer)) && len(rrs(a.Ns)) == len(rrs(plan.Ns)) && len(rrs(a.Extra)) == len(rrs(plan.Extra))
			if !complete {
				fits = "cut"
				r.Observe("truncated "+kind, 1)
				if !a.Truncated {
					r.Violation("cut-silently", desc, label)
				}
				if len(small)+100 <= limit {
					r.Violation("cut-needlessly", desc, label)
				}
				if !prefixOf(a.Answer, plan.Answer) || !prefixOf(a.Ns, plan.Ns) || !prefixOf(a.Extra, plan.Extra) {
					r.Violation("records-changed", desc+"\n"+vt.CanonID(a), label)
				}
			} else {
				r.Observe("complete "+kind, 1)
				if a.Truncated {
					r.Violation("false-tc", desc, label)
				}
			}
			if edns && plan.IsEdns0() != nil && a.IsEdns0() == nil {
				r.Violation("opt-lost", desc, label)
			}
		}
		if fits != "cut" {
			if strings.Join(rrs(a.Answer), "\n") != strings.Join(rrs(plan.Answer), "\n") || strings.Join(rrs(a.Ns), "\n") != strings.Join(rrs(plan.Ns), "\n") || strings.Join(rrs(a.Extra), "\n") != strings.Join(rrs(plan.Extra), "\n") || a.Truncated {
				r.Violation("records-changed", desc+"\n"+vt.CanonID(a), label)
			}
		}
		if want := otherOptions(plan); (edns || kind == "tcp") && !slices.Equal(otherOptions(a), want) {
			r.Violation("options-changed", fmt.Sprintf("%s: options %q instead of %q", desc, otherOptions(a), want), label)
		}
		pad, has := padding(a)
		r.Eval(fmt.Sprintf("%s %s %d %d %s", kind, network, adv/256, size/256, fits))
		switch {
		case encrypted && edns && fits != "cut":
			// at least up to the next block, unless the client cannot take that
			base := n - pad
			want := (base/468 + 1) * 468
			switch {
			case !has:
				if base+4+pad <= adv {
					r.Violation("not-padded", desc, label)
				}
			case n == want || n == base && base%468 == 0:
				r.Observe("padded "+kind, 1)
			case want > adv && n == max(adv, base):
				r.Observe("padded "+kind, 1)
			case datagram && len(wire) > limit-20:
				// it only fits compressed, and is not padded then
			default:
				r.Violation("wrong-padding", fmt.Sprintf("%s, %d of it padding", desc, pad), label)
			}
		case encrypted && !edns:
			if has {
				r.Violation("unwanted-padding", desc, label)
			}
		case kind == "udp" || kind == "tcp":
			if has {
				r.Violation("padding-in-the-clear", desc, label)
			}
			if had {
				r.Observe("padding removed", 1)
			}
		}
	}
}
