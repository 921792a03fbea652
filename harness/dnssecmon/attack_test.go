package dnssecmon

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/miekg/dns"

	"verif/harness/vt"
)

// attacker stands between the validator and the world. It can replay anything
// that was ever published, and holds keys of its own, among them those of the
// evil zones, but no others.
type attacker struct {
	w     *world
	seed  int64
	epoch atomic.Int64
	own   *key // of no zone
	evil  []*zone

	mu   sync.Mutex
	used map[string]int
}

func newAttacker(w *world, rnd *rand.Rand) *attacker {
	a := &attacker{w: w, seed: rnd.Int63(), used: map[string]int{}}
	a.own = newPair(rnd, false).of(".", 257)
	for _, z := range w.zones {
		if strings.HasPrefix(z.name, "evil.") {
			z.evil = true
			a.evil = append(a.evil, z)
		}
	}
	return a
}

func (a *attacker) saw(what string) {
	a.mu.Lock()
	a.used[what]++
	a.mu.Unlock()
}

// rand depends on nothing but the question and the epoch.
func (a *attacker) rand(q dns.Question) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d %d %s %d", a.seed, a.epoch.Load(), canon(q.Name), q.Qtype)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// answer makes the response to a question. The questions of clients and those
// of the validator look the same to it.
func (a *attacker) answer(q *dns.Msg) (*dns.Msg, error) {
	question := q.Question[0]
	rnd := a.rand(question)
	resp := a.w.honest(q)
	// How honest it is about keys in this epoch
	e := rand.New(rand.NewSource(a.seed + a.epoch.Load()))
	keysHonest := vt.Pick(e, 1.0, 1.0, 0.7, 0.2)
	if question.Qtype == dns.TypeDS || question.Qtype == dns.TypeDNSKEY {
		if rnd.Float64() < keysHonest {
			return resp, nil
		}
		switch rnd.Intn(12) {
		case 0:
			a.saw("lookup dropped")
			return nil, nil
		case 1:
			a.saw("lookup failed")
			return nil, errors.New("no answer")
		case 2:
			a.saw("lookup servfail")
			resp.Rcode = dns.RcodeServerFailure
			resp.Answer, resp.Ns = nil, nil
			return resp, nil
		}
	}
	if rnd.Intn(12) == 0 {
		// The truth about something else
		a.saw("other question")
		other := q.Copy()
		other.Question[0].Name = a.w.name(rnd)
		if rnd.Intn(2) == 0 {
			other.Question[0].Qtype = vt.Pick(rnd, asked...)
		}
		resp = a.w.honest(other)
		resp.Id = q.Id
		if rnd.Intn(3) == 0 {
			resp.Question = q.Question
		}
		return resp, nil
	}
	for n := 1 + rnd.Intn(2); n > 0; n-- {
		a.attack(rnd, q, resp)
	}
	if rnd.Intn(3) == 0 {
		resp.AuthenticatedData = true
	}
	if rnd.Intn(4) == 0 {
		rnd.Shuffle(len(resp.Answer), func(i, j int) { resp.Answer[i], resp.Answer[j] = resp.Answer[j], resp.Answer[i] })
	}
	return resp, nil
}

func (a *attacker) attack(rnd *rand.Rand, q, resp *dns.Msg) {
	name, qtype := canon(q.Question[0].Name), q.Question[0].Qtype
	if rnd.Intn(3) == 0 && len(resp.Answer) > 0 { // attack the end of an alias chain
		for _, rr := range resp.Answer {
			if c, ok := rr.(*dns.CNAME); ok {
				name = canon(c.Target)
			}
		}
	}
	kinds := []string{"unsigned", "own key", "own key", "old", "renamed", "elsewhere", "expanded", "deny", "deny", "deny", "cut", "cut", "change", "mixed", "alias", "keys"}
	kind := vt.Pick(rnd, kinds...)
	if (qtype == dns.TypeDNSKEY || qtype == dns.TypeDS) && rnd.Intn(2) == 0 {
		kind = "keys"
		if qtype == dns.TypeDS && rnd.Intn(2) == 0 {
			kind = "deny"
		}
	}
	if e := a.w.zoneOf(name, dns.TypeA); qtype == dns.TypeDS && e.evil && rnd.Intn(3) == 0 {
		// It vouches for itself
		a.saw("DS of its own")
		rrs := a.forged(rnd, name, qtype)
		resp.Rcode = dns.RcodeSuccess
		resp.Answer = append(rrs, sign(e.zsk[0], e.name, rrs, current))
		return
	}
	if e := a.w.zoneOf(name, dns.TypeA); qtype == dns.TypeDS && e.evil && e.name == name && rnd.Intn(3) == 0 {
		// It denies what its parent says about it
		a.saw("denial of its own DS")
		n := &dns.NSEC{Hdr: dns.RR_Header{Name: name, Rrtype: dns.TypeNSEC, Class: 1, Ttl: 300}, NextDomain: "\\000." + name, TypeBitMap: []uint16{dns.TypeNS, dns.TypeRRSIG, dns.TypeNSEC}}
		resp.Rcode = dns.RcodeSuccess
		resp.Answer = nil
		resp.Ns = []dns.RR{n, sign(e.zsk[0], e.name, []dns.RR{n}, current)}
		return
	}
	a.saw(kind)
	switch kind {
	case "unsigned":
		resp.Rcode = dns.RcodeSuccess
		resp.Answer = keepOthers(rnd, resp.Answer, name)
		resp.Answer = append(resp.Answer, a.forged(rnd, name, qtype)...)
	case "own key":
		rrs := a.forged(rnd, name, qtype)
		resp.Rcode = dns.RcodeSuccess
		resp.Answer = append(keepOthers(rnd, resp.Answer, name), rrs...)
		resp.Answer = append(resp.Answer, a.signOwn(rnd, rrs, name))
	case "old":
		// Signed by the zone, but for another time
		z := a.w.zoneOf(name, qtype)
		if !z.signed {
			return
		}
		rrs := a.forged(rnd, name, qtype)
		resp.Rcode = dns.RcodeSuccess
		resp.Answer = append(keepOthers(rnd, resp.Answer, name), rrs...)
		for _, k := range z.spare { // or with a key that got lost since
			if k.rr.Flags == 385 && rnd.Intn(2) == 0 {
				a.saw("revoked key")
				resp.Answer = append(resp.Answer, sign(k, z.name, rrs, current))
				return
			}
		}
		resp.Answer = append(resp.Answer, copies(z.sign(rrs, vt.Pick(rnd, expired, future)))...)
	case "renamed":
		rrs := a.replay(rnd, qtype)
		resp.Rcode = dns.RcodeSuccess
		resp.Answer = append(keepOthers(rnd, resp.Answer, name), expand(rrs, name)...)
	case "elsewhere":
		resp.Rcode = dns.RcodeSuccess
		resp.Answer = append(keepOthers(rnd, resp.Answer, name), a.replay(rnd, qtype)...)
		if rnd.Intn(2) == 0 {
			resp.Ns = nil
		}
	case "expanded":
		// A wildcard above the name, whether it applies or not
		for _, z := range a.w.zones {
			if !under(name, z.name) {
				continue
			}
			for _, s := range sorted(z.names) {
				star := s.name
				if !strings.HasPrefix(star, "*.") || !under(name, star[2:]) || name == star {
					continue
				}
				rrs := s.set[qtype]
				if len(rrs) == 0 || rnd.Intn(4) == 0 {
					t := vt.Pick(rnd, s.set.types()...)
					rrs = s.set[t]
				}
				resp.Rcode = dns.RcodeSuccess
				resp.Answer = append(keepOthers(rnd, resp.Answer, name), expand(z.with(rrs), name)...)
				if rnd.Intn(2) == 0 {
					resp.Ns = a.denials(rnd, name)
				}
				a.saw("wildcard")
			}
		}
	case "deny":
		resp.Answer = keepOthers(rnd, resp.Answer, name)
		if rnd.Intn(4) == 0 {
			resp.Answer = nil
		}
		resp.Rcode = vt.Pick(rnd, dns.RcodeSuccess, dns.RcodeNameError)
		if rnd.Intn(4) > 0 {
			resp.Ns = nil
		}
		resp.Ns = append(resp.Ns, a.denials(rnd, name)...)
	case "cut":
		switch rnd.Intn(6) {
		case 0: // no signatures
			resp.Answer = filter(resp.Answer, func(rr dns.RR) bool { return rr.Header().Rrtype != dns.TypeRRSIG })
		case 1: // nothing but signatures
			resp.Answer = filter(resp.Answer, func(rr dns.RR) bool { return rr.Header().Rrtype == dns.TypeRRSIG })
		case 2: // only aliases
			resp.Answer = filter(resp.Answer, func(rr dns.RR) bool {
				sig, ok := rr.(*dns.RRSIG)
				return rr.Header().Rrtype == dns.TypeCNAME || ok && sig.TypeCovered == dns.TypeCNAME
			})
		case 3:
			resp.Ns = nil
		case 4:
			resp.Rcode = dns.RcodeNameError - resp.Rcode
		case 5:
			if len(resp.Answer) > 0 {
				i := rnd.Intn(len(resp.Answer))
				resp.Answer = append(append([]dns.RR{}, resp.Answer[:i]...), resp.Answer[i+1:]...)
			}
		}
	case "change":
		resp.Answer = copies(resp.Answer)
		resp.Ns = copies(resp.Ns)
		all := append(append([]dns.RR{}, resp.Answer...), resp.Ns...)
		if len(all) > 0 {
			change(rnd, vt.Pick(rnd, all...))
		}
	case "mixed":
		// Unsigned records of an unsigned zone along with the forgery
		for _, z := range a.w.zones {
			if !z.signed && rnd.Intn(2) == 0 {
				resp.Answer = append(resp.Answer, vt.RR("%s 300 IN A 192.0.2.9", z.child("x")))
			}
		}
		rrs := a.forged(rnd, name, qtype)
		resp.Rcode = dns.RcodeSuccess
		if rnd.Intn(3) > 0 {
			resp.Answer = append(resp.Answer, rrs...)
		}
		rnd.Shuffle(len(resp.Answer), func(i, j int) { resp.Answer[i], resp.Answer[j] = resp.Answer[j], resp.Answer[i] })
	case "alias":
		e := vt.Pick(rnd, a.evil...)
		target := e.child("a")
		c := &dns.CNAME{Hdr: dns.RR_Header{Name: name, Rrtype: dns.TypeCNAME, Class: 1, Ttl: 300}, Target: target}
		resp.Rcode = dns.RcodeSuccess
		resp.Answer = append(keepOthers(rnd, resp.Answer, name), c)
		if rnd.Intn(2) == 0 {
			resp.Answer = append(resp.Answer, a.signOwn(rnd, []dns.RR{c}, name))
		}
		if rnd.Intn(2) == 0 {
			resp.Answer = append(resp.Answer, e.with(a.forged(rnd, target, dns.TypeA))...)
		}
	case "keys":
		a.keys(rnd, name, qtype, resp)
	}
}

// keys forges what the validator asks for.
func (a *attacker) keys(rnd *rand.Rand, name string, qtype uint16, resp *dns.Msg) {
	own := dns.Copy(a.own.rr).(*dns.DNSKEY)
	own.Hdr.Name = name
	k := &key{own, a.own.priv}
	e := vt.Pick(rnd, a.evil...)
	resp.Rcode = dns.RcodeSuccess
	if qtype == dns.TypeDS {
		switch rnd.Intn(4) {
		case 0:
			resp.Answer = []dns.RR{own.ToDS(dns.SHA256)}
		case 1: // signed by someone else
			rrs := []dns.RR{own.ToDS(dns.SHA256)}
			resp.Answer = append(rrs, a.signOwn(rnd, rrs, parentOf(name)))
		case 2: // somebody else's
			resp.Answer = e.parent.with(e.parent.names[e.name][dns.TypeDS])
		case 3:
			resp.Answer = expand(e.parent.with(e.parent.names[e.name][dns.TypeDS]), name)
		}
		return
	}
	genuine := filter(resp.Answer, func(rr dns.RR) bool { return rr.Header().Rrtype == dns.TypeDNSKEY && canon(rr.Header().Name) == name })
	switch rnd.Intn(4) {
	case 0:
		resp.Answer = []dns.RR{own, sign(k, name, []dns.RR{own}, current)}
	case 1: // slipped in among the others
		all := append(append([]dns.RR{}, genuine...), own)
		resp.Answer = append(all, sign(k, name, all, current))
		if z := a.w.zoneOf(name, qtype); z.signed && name == z.name {
			resp.Answer = append(resp.Answer, z.sign(z.names[name][dns.TypeDNSKEY], current)...)
		}
	case 2:
		resp.Answer = e.with(e.names[e.name][dns.TypeDNSKEY])
	case 3:
		resp.Answer = expand(e.with(e.names[e.name][dns.TypeDNSKEY]), name)
	}
}

// signOwn signs with a key the attacker has, in the name of a zone that might
// be believed.
func (a *attacker) signOwn(rnd *rand.Rand, rrs []dns.RR, name string) dns.RR {
	k := a.own
	signer := vt.Pick(rnd, name, parentOf(name), a.w.zoneOf(name, dns.TypeA).name, ".")
	if rnd.Intn(2) == 0 {
		e := vt.Pick(rnd, a.evil...)
		k = e.zsk[0]
		if rnd.Intn(2) == 0 {
			signer = e.name
		}
	}
	sig := sign(k, signer, rrs, current)
	if rnd.Intn(3) == 0 {
		z := a.w.zoneOf(name, dns.TypeA)
		if len(z.zsk) > 0 { // looks like the real one
			sig.KeyTag, sig.Algorithm = z.zsk[0].rr.KeyTag(), z.zsk[0].rr.Algorithm
		}
	}
	return sig
}

// forged makes records nobody published.
func (a *attacker) forged(rnd *rand.Rand, name string, qtype uint16) []dns.RR {
	h := dns.RR_Header{Name: name, Rrtype: qtype, Class: 1, Ttl: 300}
	switch qtype {
	case dns.TypeTXT:
		return []dns.RR{&dns.TXT{Hdr: h, Txt: []string{"forged"}}}
	case dns.TypeMX:
		return []dns.RR{&dns.MX{Hdr: h, Mx: "forged.test."}}
	case dns.TypeTLSA:
		return []dns.RR{&dns.TLSA{Hdr: h, Usage: 3, Selector: 1, MatchingType: 1, Certificate: "666666"}}
	case dns.TypeNS:
		return []dns.RR{&dns.NS{Hdr: h, Ns: "forged.test."}}
	case dns.TypeCNAME:
		return []dns.RR{&dns.CNAME{Hdr: h, Target: "forged.test."}}
	case dns.TypeAAAA:
		return []dns.RR{&dns.AAAA{Hdr: h, AAAA: make([]byte, 16)}}
	case dns.TypeSOA:
		return []dns.RR{&dns.SOA{Hdr: h, Ns: "forged.test.", Mbox: "forged.test."}}
	case dns.TypeDNSKEY:
		k := dns.Copy(a.own.rr).(*dns.DNSKEY)
		k.Hdr = h
		return []dns.RR{k}
	case dns.TypeDS:
		k := dns.Copy(a.own.rr).(*dns.DNSKEY)
		k.Hdr.Name = name
		return []dns.RR{k.ToDS(dns.SHA256)}
	}
	h.Rrtype = dns.TypeA
	return []dns.RR{&dns.A{Hdr: h, A: []byte{203, 0, 113, byte(rnd.Intn(256))}}}
}

// replay picks a genuine set of records of some zone with its signatures.
func (a *attacker) replay(rnd *rand.Rand, qtype uint16) []dns.RR {
	for i := 0; i < 30; i++ {
		z := vt.Pick(rnd, a.w.zones...)
		l := sorted(z.names)
		s := vt.Pick(rnd, l...)
		if z.cuts[s.name] != nil && qtype != dns.TypeDS {
			continue
		}
		t := qtype
		if i > 20 {
			t = vt.Pick(rnd, s.set.types()...)
		}
		if len(s.set[t]) > 0 {
			return copies(z.with(s.set[t]))
		}
	}
	return nil
}

// denials picks genuine denial records with a bearing on a name, of all the
// zones above it, and now and then others.
func (a *attacker) denials(rnd *rand.Rand, name string) []dns.RR {
	var out []dns.RR
	p := vt.Pick(rnd, 0.2, 0.5, 0.9)
	add := func(z *zone, x *proof) {
		if x == nil || rnd.Float64() > p {
			return
		}
		out = append(out, z.with([]dns.RR{x.rr})...)
	}
	if t := a.w.truth(name, dns.TypeA); !t.exists && t.z.signed && rnd.Intn(4) == 0 {
		// All but what is said about wildcards
		a.saw("denial without wildcard")
		p = 1
		if t.z.nsec3 {
			ce := t.ce
			for t.z.match(ce) == nil {
				ce = parentOf(ce)
			}
			add(t.z, t.z.match(ce))
			add(t.z, t.z.cover(nextCloser(name, ce)))
		} else {
			add(t.z, t.z.cover(name))
		}
		return copies(out)
	}
	only := rnd.Intn(3)
	for _, z := range a.w.zones {
		if !z.signed || !under(name, z.name) {
			continue
		}
		if only == 0 && rnd.Intn(2) == 0 {
			continue
		}
		for n := name; ; n = parentOf(n) {
			star := "*." + strings.TrimPrefix(n, ".")
			add(z, z.match(n))
			add(z, z.cover(n))
			add(z, z.match(star))
			add(z, z.cover(star))
			if n == z.name || n == "." {
				break
			}
		}
		// The record of a wildcard, renamed
		for _, x := range z.proofs {
			if n, ok := x.rr.(*dns.NSEC); ok && strings.HasPrefix(n.Hdr.Name, "*.") && under(name, n.Hdr.Name[2:]) && rnd.Intn(2) == 0 {
				to := name
				if rnd.Intn(2) == 0 && parentOf(name) != n.Hdr.Name[2:] {
					to = parentOf(name)
				}
				out = append(out, expand(z.with([]dns.RR{n}), to)...)
				a.saw("renamed wildcard denial")
			}
		}
		if rnd.Intn(6) == 0 && len(z.proofs) > 0 {
			add(z, vt.Pick(rnd, z.proofs...))
		}
	}
	switch rnd.Intn(6) {
	case 0: // from an unrelated zone
		z := vt.Pick(rnd, a.w.zones...)
		if len(z.proofs) > 0 {
			out = append(out, z.with([]dns.RR{vt.Pick(rnd, z.proofs...).rr})...)
		}
	case 1: // made up
		n := &dns.NSEC{Hdr: dns.RR_Header{Name: name, Rrtype: dns.TypeNSEC, Class: 1, Ttl: 300}, NextDomain: "\\000." + strings.TrimPrefix(name, "."), TypeBitMap: []uint16{dns.TypeNS, dns.TypeRRSIG, dns.TypeNSEC}}
		out = append(out, n)
		if rnd.Intn(3) > 0 {
			out = append(out, a.signOwn(rnd, []dns.RR{n}, name))
		}
	case 2: // true once: the name was delegated without keys, or was not there
		z := a.w.zoneOf(name, dns.TypeDS)
		if z.signed && !z.nsec3 {
			n := &dns.NSEC{Hdr: dns.RR_Header{Name: name, Rrtype: dns.TypeNSEC, Class: 1, Ttl: 300}, NextDomain: z.name, TypeBitMap: []uint16{dns.TypeNS, dns.TypeRRSIG, dns.TypeNSEC}}
			out = append(out, n)
			out = append(out, z.sign([]dns.RR{n}, vt.Pick(rnd, expired, future))...)
		}
	}
	return copies(out)
}

// change alters one thing of a record.
func change(rnd *rand.Rand, rr dns.RR) {
	switch r := rr.(type) {
	case *dns.A:
		r.A = []byte{203, 0, 113, 1}
	case *dns.TXT:
		r.Txt = append(r.Txt, "forged")
	case *dns.MX:
		r.Mx = "forged.test."
	case *dns.TLSA:
		r.Certificate = "66"
	case *dns.NS:
		r.Ns = "forged.test."
	case *dns.CNAME:
		r.Target = "a.evil.test."
	case *dns.SOA:
		r.Serial++
	case *dns.DS:
		r.KeyTag++
	case *dns.DNSKEY:
		r.Flags ^= 1
	case *dns.NSEC:
		switch rnd.Intn(2) {
		case 0:
			r.NextDomain = "zzz." + strings.TrimPrefix(r.NextDomain, ".")
		case 1:
			r.TypeBitMap = r.TypeBitMap[:1]
		}
	case *dns.NSEC3:
		switch rnd.Intn(3) {
		case 0:
			r.Flags ^= 1
		case 1:
			r.TypeBitMap = nil
		case 2:
			r.NextDomain = "VVVVVVVVVVVVVVVVVVVVVVVVVVVVVVVV"
		}
	case *dns.RRSIG:
		switch rnd.Intn(6) {
		case 0:
			r.Labels--
		case 1:
			r.SignerName = parentOf(r.SignerName)
		case 2:
			r.TypeCovered = dns.TypeA
		case 3:
			r.KeyTag++
		case 4:
			r.Expiration += 1000
		case 5:
			r.Signature = "AAAA" + r.Signature[4:]
		}
	}
}

type entry struct {
	name string
	set  set
}

func sorted(m map[string]set) []entry {
	var l []entry
	for n, s := range m {
		l = append(l, entry{n, s})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
	return l
}

func copies(rrs []dns.RR) []dns.RR {
	var out []dns.RR
	for _, rr := range rrs {
		out = append(out, dns.Copy(rr))
	}
	return out
}

func filter(rrs []dns.RR, f func(dns.RR) bool) []dns.RR {
	var out []dns.RR
	for _, rr := range rrs {
		if f(rr) {
			out = append(out, rr)
		}
	}
	return out
}

// keepOthers drops what there is at a name, or everything.
func keepOthers(rnd *rand.Rand, rrs []dns.RR, name string) []dns.RR {
	if rnd.Intn(3) == 0 {
		return nil
	}
	return filter(rrs, func(rr dns.RR) bool { return canon(rr.Header().Name) != name })
}
