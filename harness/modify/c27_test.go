package modify

import (
	"fmt"
	"math/rand"
	"net"
	"testing"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// truncated returns the first n bits of ip.
func truncated(ip net.IP, n int) net.IP {
	out := make(net.IP, len(ip))
	for i := range ip {
		for b := 0; b < 8; b++ {
			if i*8+b < n {
				out[i] |= ip[i] & (0x80 >> b)
			}
		}
	}
	return out
}

// opt returns the options of q, adding EDNS0 if needed.
func opt(q *dns.Msg) *dns.OPT {
	if q.IsEdns0() == nil {
		q.SetEdns0(4096, false)
	}
	return q.IsEdns0()
}

func drop(q *dns.Msg, code uint16) {
	o := q.IsEdns0()
	if o == nil {
		return
	}
	var keep []dns.EDNS0
	for _, x := range o.Option {
		if x.Option() != code {
			keep = append(keep, x)
		}
	}
	o.Option = keep
}

func hasECS(q *dns.Msg) bool {
	if o := q.IsEdns0(); o != nil {
		for _, x := range o.Option {
			if x.Option() == dns.EDNS0SUBNET {
				return true
			}
		}
	}
	return false
}

// TestC27: the EDNS0 elements change their own option and nothing else.
func TestC27(t *testing.T) {
	r := vt.Start(t, "C27", "one query through a subnet or option modifier per evaluation; non-trivial when the query had to change, distinct by (operation, prefix lengths, options of the query)")
	ops := []string{"ecs add", "ecs add-if-missing", "ecs delete", "ecs privacy", "ecs none", "edns0 add", "edns0 delete", "edns0 none"}
	for _, op := range ops {
		r.Need(op, 500)
	}
	for _, op := range ops {
		for c := 0; c < r.N(60, 1500); c++ {
			modifierCase(r, op, c)
		}
	}
	r.Exit()
}

func modifierCase(r *vt.R, op string, c int) {
	rnd := r.Rand("edns", op, c)
	p4, p6 := uint8(rnd.Intn(33)), uint8(rnd.Intn(129))
	if rnd.Intn(3) == 0 {
		p4, p6 = vt.Pick[uint8](rnd, 0, 8, 24, 32), vt.Pick[uint8](rnd, 0, 48, 56, 128)
	}
	var addr net.IP
	switch rnd.Intn(4) {
	case 0:
		addr = ip4(rnd)
	case 1:
		addr = ip4(rnd).To16()
	case 2:
		addr = ip6(rnd)
	}
	code := vt.Pick[uint16](rnd, 65001, 65002, dns.EDNS0NSID, dns.EDNS0COOKIE, dns.EDNS0SUBNET, 65100)
	data := make([]byte, rnd.Intn(10))
	rnd.Read(data)
	label := fmt.Sprintf("%s case %d p4=%d p6=%d addr=%v code=%d data=%x", op, c, p4, p6, addr, code, data)
	r.Case("%s", label)

	add := func(q *dns.Msg, ci rdns.ClientInfo) {
		drop(q, dns.EDNS0SUBNET)
		ip := addr
		if ip == nil {
			ip = ci.SourceIP
		}
		x := &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 2, SourceNetmask: p6, Address: truncated(ip, int(p6))}
		if v4 := ip.To4(); v4 != nil {
			x = &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 1, SourceNetmask: p4, Address: truncated(v4, int(p4))}
		}
		o := opt(q)
		o.Option = append(o.Option, x)
	}
	var model func(q *dns.Msg, ci rdns.ClientInfo)
	e := newElement()
	var el rdns.Resolver
	var err error
	switch op {
	case "ecs add":
		model = add
		el, err = rdns.NewECSModifier("m", e, rdns.ECSModifierAdd(addr, p4, p6))
	case "ecs add-if-missing":
		model = func(q *dns.Msg, ci rdns.ClientInfo) {
			if !hasECS(q) {
				add(q, ci)
			}
		}
		el, err = rdns.NewECSModifier("m", e, rdns.ECSModifierAddIfMissing(addr, p4, p6))
	case "ecs delete":
		model = func(q *dns.Msg, ci rdns.ClientInfo) { drop(q, dns.EDNS0SUBNET) }
		el, err = rdns.NewECSModifier("m", e, rdns.ECSModifierDelete)
	case "ecs privacy":
		model = func(q *dns.Msg, ci rdns.ClientInfo) {
			if !hasECS(q) {
				return
			}
			for _, x := range q.IsEdns0().Option {
				if s, ok := x.(*dns.EDNS0_SUBNET); ok {
					p := p4
					if s.Family == 2 {
						p = p6
					}
					s.Address = truncated(s.Address, int(p))
					s.SourceNetmask = min(p, s.SourceNetmask)
				}
			}
		}
		el, err = rdns.NewECSModifier("m", e, rdns.ECSModifierPrivacy(p4, p6))
	case "ecs none":
		model = func(*dns.Msg, rdns.ClientInfo) {}
		el, err = rdns.NewECSModifier("m", e, nil)
	case "edns0 add":
		model = func(q *dns.Msg, ci rdns.ClientInfo) {
			drop(q, code)
			o := opt(q)
			o.Option = append(o.Option, &dns.EDNS0_LOCAL{Code: code, Data: data})
		}
		el, err = rdns.NewEDNS0Modifier("m", e, rdns.EDNS0ModifierAdd(code, data))
	case "edns0 delete":
		model = func(q *dns.Msg, ci rdns.ClientInfo) { drop(q, code) }
		el, err = rdns.NewEDNS0Modifier("m", e, rdns.EDNS0ModifierDelete(code))
	case "edns0 none":
		model = func(*dns.Msg, rdns.ClientInfo) {}
		el, err = rdns.NewEDNS0Modifier("m", e, nil)
	}
	if err != nil {
		r.Violation("construct", err.Error(), label)
		return
	}
	var steps []step
	for i := 0; i < 40; i++ {
		q := query(rnd)
		if i%4 == 0 {
			q.IsEdns0()
			opt(q).Option = append(opt(q).Option, subnet(rnd))
		}
		if i%3 == 0 {
			o := opt(q)
			o.Option = append(o.Option, local(rnd, code))
		}
		res := outcome(rnd, q)
		s := step{q: q, ci: client(rnd), f: func(*dns.Msg) (*dns.Msg, error) { return res.copy() }}
		s.judge = func(got result, seen []sighting) {
			if got.a != nil {
				got.a.Id = 0
			}
			want := res
			if res.a != nil {
				want.a = res.a.Copy()
				want.a.Id = 0
			}
			same(r, "answer", label, s.q, want, got)
			up := s.q.Copy()
			model(up, s.ci)
			if !sameOptions(r, label, &s, seen, up) {
				return
			}
			if op == "ecs add" || op == "ecs privacy" {
				shortened(r, label, &s, seen[0].q)
			}
			r.Observe(op, 1)
			if vt.Canon(up) != vt.Canon(s.q) {
				kinds := ""
				if o := s.q.IsEdns0(); o != nil {
					for _, x := range o.Option {
						kinds += fmt.Sprintf(" %d", x.Option())
					}
				}
				r.Eval(fmt.Sprintf("%s %d %d%s", op, p4, p6, kinds))
			} else {
				r.Eval("")
			}
		}
		steps = append(steps, s)
	}
	e.drive(r, el, label, steps)
}

// shortened checks that elements in between, such as logs and scripts, don't get
// to see more of an address than what goes out.
func shortened(r *vt.R, label string, s *step, seen *dns.Msg) {
	if !hasECS(seen) {
		return
	}
	for _, x := range seen.IsEdns0().Option {
		o, ok := x.(*dns.EDNS0_SUBNET)
		if !ok {
			continue
		}
		ip := o.Address
		if v4 := ip.To4(); o.Family == 1 && v4 != nil {
			ip = v4
		}
		if !ip.Equal(truncated(ip, int(o.SourceNetmask))) {
			r.Violation("address", fmt.Sprintf("query %s was sent on with address %v/%d", vt.CanonID(s.q), o.Address, o.SourceNetmask), label)
		}
	}
}

func local(rnd *rand.Rand, code uint16) dns.EDNS0 {
	switch code {
	case dns.EDNS0NSID:
		return &dns.EDNS0_NSID{Code: code, Nsid: "ff00"}
	case dns.EDNS0COOKIE:
		return &dns.EDNS0_COOKIE{Code: code, Cookie: "fedcba9876543210"}
	case dns.EDNS0SUBNET:
		return subnet(rnd)
	}
	return &dns.EDNS0_LOCAL{Code: code, Data: []byte{1, 2, 3}}
}

// sameOptions compares what upstream was sent, on the wire. The advertised size
// of an OPT record that had to be added is left open.
func sameOptions(r *vt.R, label string, s *step, seen []sighting, want *dns.Msg) bool {
	if len(seen) != 1 {
		r.Violation("upstream-queries", fmt.Sprintf("query %s was sent on %d times", vt.CanonID(s.q), len(seen)), label)
		return false
	}
	if fmt.Sprint(seen[0].ci) != fmt.Sprint(s.ci) {
		r.Violation("client", fmt.Sprintf("upstream was told of client %v instead of %v", seen[0].ci, s.ci), label)
		return false
	}
	wire := func(m *dns.Msg) string {
		m = m.Copy()
		if s.q.IsEdns0() == nil && m.IsEdns0() != nil {
			m.IsEdns0().SetUDPSize(4096)
		}
		b, err := m.Pack()
		if err != nil {
			return "cannot be packed: " + err.Error()
		}
		return fmt.Sprintf("%x", b)
	}
	if w, g := wire(want), wire(seen[0].q); w != g {
		r.Violation("upstream-query", fmt.Sprintf("query %s\nwant upstream to see %s\nit saw %s", vt.CanonID(s.q), vt.CanonID(want), vt.CanonID(seen[0].q)), label)
		return false
	}
	return true
}
