package modify

import (
	"fmt"
	"math/big"
	"net"
	"strings"
	"testing"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// embed puts an IPv4 address into a prefix by arithmetic: the address follows
// the prefix, skipping bits 64 to 71.
func embed(prefix *net.IPNet, v4 net.IP) net.IP {
	n, _ := prefix.Mask.Size()
	x := new(big.Int).SetBytes(prefix.IP.To16())
	pos := n
	for i := 0; i < 32; i++ {
		if pos == 64 && n != 96 {
			pos = 72
		}
		if v4[i/8]&(0x80>>(i%8)) != 0 {
			x.SetBit(x, 127-pos, 1)
		}
		pos++
	}
	return net.IP(x.FillBytes(make([]byte, 16)))
}

// TestC28: AAAA records are made from A records exactly when there are none.
func TestC28(t *testing.T) {
	r := vt.Start(t, "C28", "one query through DNS64 per evaluation; non-trivial when upstream had no AAAA record, distinct by (prefixes, kind of AAAA answer, kind of A answer, chain)")
	r.Need("synthesised", 500)
	r.Need("native", 300)
	r.Need("not asked for AAAA", 500)
	r.Need("nothing to synthesise", 300)
	r.Need("DO set", 100)
	lens := []int{32, 40, 48, 56, 64, 96}
	for c := 0; c < r.N(150, 4000); c++ {
		rnd := r.Rand("dns64", c)
		var prefixes []*net.IPNet
		var texts []string
		for i := rnd.Intn(4); i > 0; i-- {
			ip := ip6(rnd)
			_, p, err := net.ParseCIDR(fmt.Sprintf("%s/%d", ip, vt.Pick(rnd, lens...)))
			if err != nil {
				panic(err)
			}
			if n, _ := p.Mask.Size(); n == 96 {
				p.IP[8] = 0
			}
			prefixes = append(prefixes, p)
			texts = append(texts, p.String())
		}
		if len(prefixes) == 0 {
			_, p, _ := net.ParseCIDR("64:ff9b::/96")
			prefixes = append(prefixes, p)
		}
		label := fmt.Sprintf("dns64 case %d %v", c, texts)
		r.Case("%s", label)
		e := newElement()
		el, err := rdns.NewDNS64("d", e, rdns.DNS64Options{Prefixes: texts})
		if err != nil {
			r.Violation("construct", err.Error(), label)
			continue
		}
		var steps []step
		for i := 0; i < 40; i++ {
			q := query(rnd)
			q.Opcode = dns.OpcodeQuery
			if rnd.Intn(4) > 0 {
				q.Question[0].Qtype = dns.TypeAAAA
			}
			first := outcome(rnd, q)
			if first.a != nil && rnd.Intn(2) == 0 {
				first.a.Rcode = 0
				var keep []dns.RR
				for _, rr := range first.a.Answer {
					if rr.Header().Rrtype != dns.TypeAAAA {
						keep = append(keep, rr)
					}
				}
				first.a.Answer = keep
			}
			aq := q.Copy()
			aq.Question[0].Qtype = dns.TypeA
			second := outcome(rnd, aq)
			n := 0
			s := step{q: q, ci: client(rnd)}
			s.f = func(m *dns.Msg) (*dns.Msg, error) {
				n++
				if n == 1 {
					return first.copy()
				}
				return second.copy()
			}
			s.judge = func(got result, seen []sighting) {
				id := func(x result) result {
					if x.a != nil {
						x.a = x.a.Copy()
						x.a.Id = s.q.Id
					}
					return x
				}
				got, want1, want2 := id(got), id(first), id(second)
				do := s.q.IsEdns0() != nil && s.q.IsEdns0().Do()
				native := first.a != nil && has(first.a, dns.TypeAAAA)
				ask := s.q.Question[0].Qtype == dns.TypeAAAA && !do && first.a != nil && first.a.Rcode == 0 && !native && !first.a.Truncated
				if !ask {
					if passed(r, label, &s, seen, s.q) && same(r, "passthrough", label, s.q, want1, got) {
						switch {
						case s.q.Question[0].Qtype != dns.TypeAAAA:
							r.Observe("not asked for AAAA", 1)
						case do:
							r.Observe("DO set", 1)
						case native:
							r.Observe("native", 1)
						}
						r.Eval("")
					}
					return
				}
				again := s.q.Copy()
				again.Question[0].Qtype = dns.TypeA
				if !passed(r, label, &s, seen, s.q, again) {
					return
				}
				kind := "a"
				var want []string
				chain := 0
				if second.a != nil && second.a.Rcode == 0 {
					var chained, made []string
					for _, rr := range want2.a.Answer {
						switch x := rr.(type) {
						case *dns.CNAME:
							chained = append(chained, vt.RRStrings([]dns.RR{x})...)
							chain++
						case *dns.A:
							for _, p := range prefixes {
								made = append(made, fmt.Sprintf("%s %d AAAA %s", strings.ToLower(x.Hdr.Name), x.Hdr.Ttl, embed(p, x.A.To4())))
							}
						}
					}
					if len(made) > 0 {
						want = append(chained, made...)
					}
				} else {
					kind = "failed"
				}
				if want == nil {
					if same(r, "no-synthesis", label, s.q, want1, got) {
						r.Observe("nothing to synthesise", 1)
						r.Eval(fmt.Sprintf("%d %s", len(prefixes), kind))
					}
					return
				}
				if got.a == nil {
					r.Violation("synthesis", fmt.Sprintf("query %s: got %s, want %v", vt.CanonID(s.q), got, want), label)
					return
				}
				var have []string
				for _, rr := range got.a.Answer {
					if x, ok := rr.(*dns.AAAA); ok {
						have = append(have, fmt.Sprintf("%s %d AAAA %s", strings.ToLower(x.Hdr.Name), x.Hdr.Ttl, x.AAAA))
						continue
					}
					have = append(have, vt.RRStrings([]dns.RR{rr})...)
				}
				bad := ""
				switch {
				case strings.Join(have, "\n") != strings.Join(want, "\n"):
					bad = "records"
				case got.a.Rcode != 0 || !got.a.Response || got.a.Opcode != 0 || len(got.a.Question) != 1 || got.a.Question[0] != s.q.Question[0]:
					bad = "header"
				case got.a.AuthenticatedData:
					bad = "made-up records marked as authenticated"
				case got.a.Truncated != second.a.Truncated:
					bad = "truncation"
				case strings.Join(vt.RRStrings(got.a.Ns), "\n") != strings.Join(vt.RRStrings(second.a.Ns), "\n"):
					bad = "authority"
				}
				if bad != "" {
					r.Violation("synthesis", fmt.Sprintf("%s: query %s\nA answer %s\nwant %v\ngot %s", bad, vt.CanonID(s.q), want2, want, got), label)
					return
				}
				if _, err := got.a.Pack(); err != nil {
					r.Violation("synthesis", fmt.Sprintf("the answer cannot be packed: %v", err), label)
				}
				r.Observe("synthesised", 1)
				n, _ := prefixes[0].Mask.Size()
				r.Eval(fmt.Sprintf("%d/%d chain%d rrs%d tc%v", len(prefixes), n, chain, len(want), second.a.Truncated))
			}
			steps = append(steps, s)
		}
		e.drive(r, el, label, steps)
	}
	for _, bad := range []string{"64:ff9b::/95", "1.2.3.0/24", "64:ff9b::", "2001:db8::/128", "2001:db8::/0", "x"} {
		if _, err := rdns.NewDNS64("d", newElement(), rdns.DNS64Options{Prefixes: []string{bad}}); err == nil {
			r.Violation("prefix", fmt.Sprintf("prefix %q was accepted", bad), bad)
		}
		r.Eval("")
	}
	r.Exit()
}

func has(a *dns.Msg, t uint16) bool {
	for _, rr := range a.Answer {
		if rr.Header().Rrtype == t {
			return true
		}
	}
	return false
}
