package dnssecmon

import (
	"fmt"
	"strings"

	"github.com/miekg/dns"

	"verif/harness/vt"
)

type status int

const (
	insecure status = iota
	optout          // nothing can be said about it: an unsigned delegation may be there
	owned           // by the attacker, who can say anything
	secure
)

// status of the truth about a name and type.
func (w *world) status(name string, qtype uint16) status {
	z := w.zoneOf(name, qtype)
	switch {
	case !z.secure:
		return insecure
	case z.evil:
		return owned
	case z.optout && z.match(name) == nil:
		return optout
	}
	return secure
}

// rdata lists what records say, regardless of name and time to live.
func rdata(rrs []dns.RR) []string {
	var l []string
	seen := map[string]bool{}
	for _, rr := range rrs {
		rr = dns.Copy(rr)
		rr.Header().Name, rr.Header().Ttl = ".", 0
		s := strings.ToLower(rr.String())
		if !seen[s] {
			seen[s] = true
			l = append(l, s)
		}
	}
	return l
}

type verdict struct {
	key, detail string
}

// judge says what is untrue about an accepted answer. The second result is the
// lowest status of all it says.
func (w *world) judge(q dns.Question, a *dns.Msg) (bad []verdict, low status) {
	low = secure
	type id struct {
		name string
		t    uint16
	}
	sets := map[id][]dns.RR{}
	var order []id
	for _, rr := range a.Answer {
		t := rr.Header().Rrtype
		if t == dns.TypeRRSIG || t == dns.TypeNSEC || t == dns.TypeNSEC3 {
			continue
		}
		k := id{canon(rr.Header().Name), t}
		if sets[k] == nil {
			order = append(order, k)
		}
		sets[k] = append(sets[k], rr)
	}
	for _, k := range order {
		s := w.status(k.name, k.t)
		low = min(low, s)
		if s != secure {
			continue
		}
		t := w.truth(k.name, k.t)
		if len(t.rrs) == 0 || t.rrs[0].Header().Rrtype != k.t || !vt.SameMultiset(rdata(t.rrs), rdata(sets[k])) {
			bad = append(bad, verdict{"forged-data", fmt.Sprintf("%s %s says %q, published is %q", k.name, dns.TypeToString[k.t], rdata(sets[k]), rdata(t.rrs))})
		}
	}
	name := canon(q.Name)
	for i := 0; i < 10; i++ {
		c := sets[id{name, dns.TypeCNAME}]
		if len(c) == 0 || q.Qtype == dns.TypeCNAME || len(sets[id{name, q.Qtype}]) > 0 {
			break
		}
		name = canon(c[0].(*dns.CNAME).Target)
	}
	if len(sets[id{name, q.Qtype}]) > 0 && a.Rcode == dns.RcodeSuccess {
		return
	}
	s := w.status(name, q.Qtype)
	low = min(low, s)
	if s != secure {
		return
	}
	t := w.truth(name, q.Qtype)
	switch {
	case a.Rcode == dns.RcodeNameError && (t.exists || t.wildcard):
		bad = append(bad, verdict{"forged-nxdomain", fmt.Sprintf("%s is said not to exist, but it does (by itself %v, by wildcard %v)", name, t.exists, t.wildcard)})
	case len(sets[id{name, q.Qtype}]) == 0 && len(t.rrs) > 0:
		bad = append(bad, verdict{"forged-nodata", fmt.Sprintf("%s is said to have no %s, but published is %q", name, dns.TypeToString[q.Qtype], rdata(t.rrs))})
	}
	return
}
