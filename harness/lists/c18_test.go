package lists

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"testing"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// ipList is a list of addresses with its meaning.
type ipList struct {
	db    rdns.IPBlocklistDB
	match func(net.IP) bool
	desc  string
}

func within(ip net.IP, base net.IP, bits int) bool {
	a, b := ip.To4(), base.To4()
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		a, b = ip.To16(), base.To16()
	}
	for i := 0; i < bits; i++ {
		if (a[i/8]^b[i/8])>>(7-i%8)&1 != 0 {
			return false
		}
	}
	return true
}

func randomIP(rnd *rand.Rand) net.IP {
	if rnd.Intn(2) == 0 {
		return net.IP{byte(vt.Pick(rnd, 10, 192)), byte(rnd.Intn(2)), byte(rnd.Intn(2) * 128), byte(rnd.Intn(4))}
	}
	ip := append(net.IP(nil), net.ParseIP("2001:db8::")...)
	ip[4], ip[7], ip[15] = byte(rnd.Intn(2)*128), byte(rnd.Intn(2)), byte(rnd.Intn(4))
	return ip
}

func cidrList(rnd *rand.Rand, name string) (*ipList, error) {
	type network struct {
		ip   net.IP
		bits int
	}
	var nets []network
	var lines []string
	for i := rnd.Intn(8); i > 0; i-- {
		ip := randomIP(rnd)
		n := network{ip, 128}
		if ip.To4() != nil {
			n.bits = vt.Pick(rnd, 8, 9, 16, 17, 24, 30, 31, 32)
		} else {
			n.bits = vt.Pick(rnd, 32, 33, 64, 126, 127, 128)
		}
		if rnd.Intn(60) == 0 {
			n.bits = 0
		}
		s := fmt.Sprintf("%s/%d", ip, n.bits)
		if rnd.Intn(3) == 0 {
			s = ip.String()
			n.bits = 128
			if ip.To4() != nil {
				n.bits = 32
			}
		}
		if ip4 := ip.To4(); ip4 != nil && rnd.Intn(8) == 0 {
			// the same in the notation of IPv6
			mapped := vt.Pick(rnd, "::ffff:"+ip4.String(), fmt.Sprintf("::ffff:%x:%x", int(ip4[0])<<8|int(ip4[1]), int(ip4[2])<<8|int(ip4[3])))
			if strings.Contains(s, "/") {
				mapped = fmt.Sprintf("%s/%d", mapped, 96+n.bits)
			}
			s = mapped
		}
		nets = append(nets, n)
		lines = append(lines, vt.Pick(rnd, "", " ")+s)
		if rnd.Intn(4) == 0 {
			lines = append(lines, vt.Pick(rnd, "", "# 0.0.0.0/0", "  "))
		}
	}
	db, err := rdns.NewCidrDB(name, rdns.NewStaticLoader(lines))
	return &ipList{db: db, desc: fmt.Sprint("cidr ", lines), match: func(ip net.IP) bool {
		for _, n := range nets {
			if within(ip, n.ip, n.bits) {
				return true
			}
		}
		return false
	}}, err
}

// places of the made-up location database, widest first
var places = []struct {
	ip   string
	bits int
	ids  []uint32 // continent, country, city, subdivisions...
	asn  uint32
}{
	{"10.0.0.0", 8, []uint32{1, 11}, 64500},
	{"10.1.0.0", 16, []uint32{1, 12, 121, 122, 123}, 64501},
	{"192.0.0.0", 16, []uint32{2}, 0},
	{"192.0.128.0", 24, []uint32{2, 21, 211}, 4200000002},
	{"2001:db8::", 33, []uint32{3, 31}, 70003},
	{"2001:db8:0:1::", 64, []uint32{3, 32, 321}, 64504},
}

func locationFiles(dir string) (geo, asn string, err error) {
	g, a := newMMDB(), newMMDB()
	for _, p := range places {
		ip := net.ParseIP(p.ip)
		id := func(n uint32) []byte { return mmMap("geoname_id", mmUint(n)) }
		kv := []any{"continent", id(p.ids[0])}
		if len(p.ids) > 1 {
			kv = append(kv, "country", id(p.ids[1]))
		}
		if len(p.ids) > 2 {
			kv = append(kv, "city", id(p.ids[2]))
		}
		if len(p.ids) > 3 {
			var subs [][]byte
			for _, n := range p.ids[3:] {
				subs = append(subs, id(n))
			}
			kv = append(kv, "subdivisions", mmArray(subs...))
		}
		g.add(ip, p.bits, mmMap(kv...))
		if p.asn != 0 {
			a.add(ip, p.bits, mmMap("autonomous_system_number", mmUint(p.asn), "autonomous_system_organization", mmString("org")))
		}
	}
	geo, asn = filepath.Join(dir, "geo.mmdb"), filepath.Join(dir, "asn.mmdb")
	if err = os.WriteFile(geo, g.bytes("City"), 0o600); err == nil {
		err = os.WriteFile(asn, a.bytes("ASN"), 0o600)
	}
	return
}

func placeList(rnd *rand.Rand, name, file string, asn bool) (*ipList, error) {
	set := map[uint32]bool{}
	var lines []string
	for i := rnd.Intn(4); i > 0; i-- {
		p := places[rnd.Intn(len(places))]
		id := p.ids[rnd.Intn(len(p.ids))]
		if asn {
			id = p.asn
			if id == 0 {
				continue
			}
		}
		set[id] = true
		lines = append(lines, fmt.Sprint(id)+vt.Pick(rnd, "", " ", " # comment", "#x"))
		if rnd.Intn(4) == 0 {
			lines = append(lines, vt.Pick(rnd, "", "# 1", " "))
		}
	}
	l := &ipList{desc: fmt.Sprintf("asn%v %v", asn, lines)}
	var err error
	if asn {
		l.db, err = rdns.NewASNDB(name, rdns.NewStaticLoader(lines), file)
	} else {
		l.db, err = rdns.NewGeoIPDB(name, rdns.NewStaticLoader(lines), file)
	}
	l.match = func(ip net.IP) bool {
		var ids []uint32
		var n uint32
		for _, p := range places { // the most specific one counts
			if within(ip, net.ParseIP(p.ip), p.bits) {
				ids = p.ids
				if p.asn != 0 {
					n = p.asn
				}
			}
		}
		if asn {
			return n != 0 && set[n]
		}
		for _, id := range ids {
			if set[id] {
				return true
			}
		}
		return false
	}
	return l, err
}

// TestC18: lists of addresses and names are applied to responses and clients.
func TestC18(t *testing.T) {
	r := vt.Start(t, "C18", "one query against one response or client blocklist per evaluation; non-trivial when something matched, distinct by (element, options, what happened)")
	r.Need("responses blocked", 2000)
	r.Need("responses filtered", 500)
	r.Need("responses passed", 5000)
	r.Need("responses sent elsewhere", 500)
	r.Need("clients refused", 2000)
	r.Need("clients passed", 2000)
	r.Need("location lists", 500)
	dir := t.TempDir()
	geo, asn, err := locationFiles(dir)
	if err != nil {
		r.Inconclusive("location files: %v", err)
	}
	for c := 0; c < r.N(3000, 80000); c++ {
		rnd := r.Rand("resp", c)
		label := fmt.Sprintf("response blocklist case %d", c)
		r.Case("%s", label)
		switch c % 3 {
		case 0:
			responseName(r, rnd, c, label)
		default:
			var ls []*ipList
			var dbs []rdns.IPBlocklistDB
			for i := vt.Pick(rnd, 0, 0, 1, 1, 2, 3); i >= 0; i-- {
				var l *ipList
				var err error
				switch rnd.Intn(6) {
				case 0:
					l, err = placeList(rnd, "geo", geo, false)
					r.Observe("location lists", 1)
				case 1:
					l, err = placeList(rnd, "asn", asn, true)
					r.Observe("location lists", 1)
				default:
					l, err = cidrList(rnd, "cidr")
				}
				if err != nil {
					r.Violation("rejected", err.Error(), label)
					r.Exit()
				}
				ls, dbs = append(ls, l), append(dbs, l.db)
			}
			db, _ := rdns.NewMultiIPDB(dbs...)
			match := func(ip net.IP) bool {
				for _, l := range ls {
					if l.match(ip) {
						return true
					}
				}
				return false
			}
			desc := ""
			for _, l := range ls {
				desc += l.desc + "; "
			}
			var use rdns.IPBlocklistDB = db
			if len(dbs) == 1 {
				use = dbs[0]
			}
			times := rnd.Intn(3)
			if use, err = reloaded(times, use); err != nil {
				r.Violation("rejected", "on refresh: "+err.Error(), label)
				continue
			}
			if c%3 == 1 {
				responseIP(r, rnd, c, label, use, match, desc)
			} else {
				clientIP(r, rnd, c, label, use, match, desc)
			}
			db.Close()
			if times > 0 {
				use.Close()
			}
		}
	}
	os.RemoveAll(dir)
	r.Exit()
}

type upstream struct {
	answer *dns.Msg
	drop   bool
	fail   bool
	seen   []string
	where  string
}

func (u *upstream) resolver(name string) rdns.Resolver {
	return &vt.Func{Name: name, F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		u.where += name
		u.seen = append(u.seen, vt.CanonID(q)+fmt.Sprintf("%+v", ci))
		if name == "alt" {
			a := new(dns.Msg)
			a.SetReply(q)
			a.Answer = append(a.Answer, vt.RR("alt.test. 60 IN TXT alt"))
			return a, nil
		}
		if u.fail {
			return nil, errors.New("failed")
		}
		if u.drop {
			return nil, nil
		}
		return u.answer.Copy(), nil
	}}
}

func randomSections(rnd *rand.Rand, q *dns.Msg, rr func() dns.RR) *dns.Msg {
	a := new(dns.Msg)
	a.SetReply(q)
	for i := rnd.Intn(4); i > 0; i-- {
		a.Answer = append(a.Answer, rr())
	}
	for i := rnd.Intn(2); i > 0; i-- {
		a.Ns = append(a.Ns, rr())
	}
	for i := rnd.Intn(3); i > 0; i-- {
		a.Extra = append(a.Extra, rr())
	}
	if rnd.Intn(2) == 0 {
		a.SetEdns0(1232, false)
	}
	return a
}

func responseIP(r *vt.R, rnd *rand.Rand, c int, label string, db rdns.IPBlocklistDB, match func(net.IP) bool, desc string) {
	u := &upstream{}
	opt := rdns.ResponseBlocklistIPOptions{BlocklistDB: db, Filter: rnd.Intn(2) == 0, Inverted: rnd.Intn(3) == 0}
	alt := rnd.Intn(3) == 0
	if alt {
		opt.BlocklistResolver = u.resolver("alt")
	}
	ede := rnd.Intn(2) == 0
	if ede {
		opt.EDNS0EDETemplate, _ = rdns.NewEDNS0EDETemplate(17, "{{ .Question }}")
	}
	g, err := rdns.NewResponseBlocklistIP("rip", u.resolver("up"), opt)
	if err != nil {
		r.Violation("rejected", err.Error(), label)
		return
	}
	desc = fmt.Sprintf("%s filter %v inverted %v", desc, opt.Filter, opt.Inverted)
	ipOf := func(rr dns.RR) net.IP {
		switch rr := rr.(type) {
		case *dns.A:
			return rr.A
		case *dns.AAAA:
			return rr.AAAA
		}
		return nil
	}
	bad := func(rr dns.RR) bool {
		ip := ipOf(rr)
		return ip != nil && match(ip) != opt.Inverted
	}
	for i := 0; i < 15; i++ {
		q := vt.Query("q.test.", vt.Pick(rnd, dns.TypeA, dns.TypeAAAA, dns.TypeMX))
		u.answer = randomSections(rnd, q, func() dns.RR {
			if rnd.Intn(4) == 0 {
				return vt.RR("q.test. 60 IN CNAME c.test.")
			}
			ip := randomIP(rnd)
			if ip.To4() != nil {
				return vt.RR("q.test. 60 IN A %s", ip)
			}
			return vt.RR("q.test. 60 IN AAAA %s", ip)
		})
		u.answer.Rcode = vt.Pick(rnd, 0, 0, 0, 0, 2, 3)
		u.answer.Truncated = rnd.Intn(6) == 0
		u.fail, u.drop = rnd.Intn(12) == 0, rnd.Intn(12) == 0
		u.where, u.seen = "", nil
		q0 := vt.CanonID(q)
		ci := rdns.ClientInfo{SourceIP: net.IP{1, 2, 3, 4}, Listener: "l"}
		a, err := g.Resolve(q, ci)
		if !askedAsIs(u, q0, ci) || vt.CanonID(q) != q0 {
			r.Violation("query-changed", fmt.Sprintf("the query %s was passed on as %v", q0, u.seen), label)
			return
		}
		if !judge(r, label, "ip "+desc, u, q, a, err, func() (string, *dns.Msg) {
			var anyBad bool
			for _, s := range [][]dns.RR{u.answer.Answer, u.answer.Ns, u.answer.Extra} {
				for _, rr := range s {
					anyBad = anyBad || bad(rr)
				}
			}
			if u.answer.Rcode != 0 {
				return "same", nil // only successful responses are looked at
			}
			if !opt.Filter {
				if anyBad {
					return "block", nil
				}
				return "same", nil
			}
			w := u.answer.Copy()
			w.Answer, w.Ns, w.Extra = nil, nil, nil
			keep := func(in []dns.RR) (out []dns.RR) {
				for _, rr := range in {
					if !bad(rr) {
						out = append(out, rr)
					}
				}
				return
			}
			w.Answer, w.Ns, w.Extra = keep(u.answer.Answer), keep(u.answer.Ns), keep(u.answer.Extra)
			if len(u.answer.Answer) == 0 {
				return "any", w // nothing to filter: both the answer and a denial do
			}
			if len(w.Answer) == 0 {
				return "block-noede", nil
			}
			return "filter", w
		}, alt, ede, 17, anyFiltered(u, bad)) {
			return
		}
	}
}

func anyFiltered(u *upstream, bad func(dns.RR) bool) bool {
	for _, s := range [][]dns.RR{u.answer.Answer, u.answer.Ns, u.answer.Extra} {
		for _, rr := range s {
			if bad(rr) {
				return true
			}
		}
	}
	return false
}

func askedAsIs(u *upstream, q0 string, ci rdns.ClientInfo) bool {
	for _, s := range u.seen {
		if s != q0+fmt.Sprintf("%+v", ci) {
			return false
		}
	}
	return true
}

// judge compares a result with what was expected of the element.
func judge(r *vt.R, label, desc string, u *upstream, q, a *dns.Msg, err error, want func() (string, *dns.Msg), alt, ede bool, code uint16, some bool) bool {
	fail := func(key, what string) bool {
		r.Violation(key, fmt.Sprintf("%s: upstream gave %s, the result is %s %v (asked %s); %s", what, vt.CanonID(u.answer), vt.CanonID(a), err, u.where, desc), label)
		return false
	}
	if u.fail {
		if err == nil || u.where != "up" {
			return fail("result", "the error was not passed on")
		}
		return true
	}
	if u.drop {
		if a != nil || err != nil || u.where != "up" {
			return fail("result", "the drop was not passed on")
		}
		return true
	}
	kind, w := want()
	if err != nil || a == nil {
		return fail("result", "no answer")
	}
	blocked := func(ede bool) bool {
		if alt {
			return u.where == "upalt" && len(a.Answer) == 1 && a.Answer[0].Header().Name == "alt.test."
		}
		if u.where != "up" || a.Rcode != dns.RcodeNameError || len(a.Answer)+len(a.Ns) != 0 || a.Id != q.Id || !a.Response || len(a.Question) != 1 || a.Question[0] != q.Question[0] {
			return false
		}
		for _, rr := range a.Extra {
			if _, ok := rr.(*dns.OPT); !ok {
				return false
			}
		}
		if ede {
			o := a.IsEdns0()
			if o == nil || len(o.Option) != 1 {
				return false
			}
			e, ok := o.Option[0].(*dns.EDNS0_EDE)
			return ok && e.InfoCode == code && e.ExtraText == q.Question[0].Name
		}
		return true
	}
	same := func(m *dns.Msg) bool { return u.where == "up" && vt.CanonID(a) == vt.CanonID(m) }
	switch kind {
	case "same":
		if !same(u.answer) {
			return fail("not-passed", "nothing in the response is on the list, but it was not passed on as it is")
		}
		r.Observe("responses passed", 1)
		r.Eval("")
	case "filter":
		if !same(w) {
			return fail("filter", "expected "+vt.CanonID(w))
		}
		if some {
			r.Observe("responses filtered", 1)
			r.Eval("filtered " + desc)
		} else {
			r.Observe("responses passed", 1)
			r.Eval("")
		}
	case "any":
		if !same(w) && !blocked(false) {
			return fail("empty", "neither the answer nor a denial")
		}
	default:
		if !blocked(ede && kind == "block") {
			return fail("not-blocked", "the response should have been blocked")
		}
		if alt {
			r.Observe("responses sent elsewhere", 1)
		} else {
			r.Observe("responses blocked", 1)
		}
		r.Eval("blocked " + desc)
	}
	return true
}

// target of a service with its parameters
func target(rr *dns.SVCB) string {
	s := rr.Target
	for _, v := range rr.Value {
		s += fmt.Sprintf(" %s=%s", v.Key(), v)
	}
	return s
}

// nameIn is the text of a record the name lists look at.
func nameIn(rr dns.RR) (string, bool) {
	switch rr := rr.(type) {
	case *dns.CNAME:
		return rr.Target, true
	case *dns.MX:
		return rr.Mx, true
	case *dns.NS:
		return rr.Ns, true
	case *dns.PTR:
		return rr.Ptr, true
	case *dns.SRV:
		return rr.Target, true
	case *dns.SOA:
		return rr.Ns, true
	case *dns.TXT:
		return strings.Join(rr.Txt, " "), true
	case *dns.SVCB:
		return target(rr), true
	case *dns.HTTPS:
		return target(&rr.SVCB), true
	}
	return "", false
}

func responseName(r *vt.R, rnd *rand.Rand, c int, label string) {
	u := &upstream{}
	var ls []*list
	var dbs []rdns.BlocklistDB
	for i := rnd.Intn(2); i >= 0; i-- {
		var l *list
		switch rnd.Intn(3) {
		case 0:
			l = regexpList(rnd, "re", rnd.Intn(5))
		case 1:
			l = hostsList(rnd, "hosts", rnd.Intn(8))
		default:
			l = domainList(rnd, "dom", rnd.Intn(8))
		}
		db, err := newDB(l, rdns.NewStaticLoader(l.lines))
		if err != nil {
			r.Violation("rejected", fmt.Sprintf("%q: %v", l.lines, err), label)
			return
		}
		ls, dbs = append(ls, l), append(dbs, db)
	}
	multi, _ := rdns.NewMultiDB(dbs...)
	db, err := reloaded[rdns.BlocklistDB](rnd.Intn(3), multi)
	if err != nil {
		r.Violation("rejected", "on refresh: "+err.Error(), label)
		return
	}
	opt := rdns.ResponseBlocklistNameOptions{BlocklistDB: db, Inverted: rnd.Intn(4) == 0}
	alt := rnd.Intn(3) == 0
	if alt {
		opt.BlocklistResolver = u.resolver("alt")
	}
	ede := rnd.Intn(2) == 0
	if ede {
		opt.EDNS0EDETemplate, _ = rdns.NewEDNS0EDETemplate(18, "{{ .Question }}")
	}
	g, err := rdns.NewResponseBlocklistName("rname", u.resolver("up"), opt)
	if err != nil {
		r.Violation("rejected", err.Error(), label)
		return
	}
	desc := fmt.Sprintf("inverted %v", opt.Inverted)
	for _, l := range ls {
		desc += fmt.Sprintf("; %s %q", l.format, l.lines)
	}
	bad := func(rr dns.RR) bool {
		s, ok := nameIn(rr)
		if !ok {
			return false
		}
		m := false
		for _, l := range ls {
			_, x := l.match(&dns.Msg{Question: []dns.Question{{Name: s}}})
			m = m || x
		}
		return m != opt.Inverted
	}
	for i := 0; i < 15; i++ {
		q := vt.Query("q.test.", vt.Pick(rnd, dns.TypeA, dns.TypeMX, dns.TypeNS))
		u.answer = randomSections(rnd, q, func() dns.RR {
			n := vt.MixCase(rnd, randomName(rnd))
			if strings.HasPrefix(n, `\`) || n == "." {
				n = "evil.com."
			}
			switch rnd.Intn(10) {
			case 0:
				return vt.RR("q.test. 60 IN SOA %s mail.test. 1 2 3 4 5", n)
			case 1:
				t := []string{n}
				for rnd.Intn(2) == 0 {
					t = append(t, vt.MixCase(rnd, randomName(rnd)))
				}
				rnd.Shuffle(len(t), func(i, j int) { t[i], t[j] = t[j], t[i] })
				return &dns.TXT{Hdr: dns.RR_Header{Name: "q.test.", Rrtype: dns.TypeTXT, Class: 1, Ttl: 60}, Txt: t}
			case 2:
				x := dns.SVCB{Hdr: dns.RR_Header{Name: "q.test.", Rrtype: dns.TypeSVCB, Class: 1, Ttl: 60}, Priority: 1, Target: n}
				if rnd.Intn(2) == 0 {
					x.Value = append(x.Value, &dns.SVCBAlpn{Alpn: []string{"h2", strings.TrimSuffix(randomName(rnd), ".")}})
				}
				if rnd.Intn(2) == 0 {
					return &x
				}
				x.Hdr.Rrtype = dns.TypeHTTPS
				return &dns.HTTPS{SVCB: x}
			}
			return vt.RR("%s", vt.Pick(rnd, "q.test. 60 IN CNAME "+n, "q.test. 60 IN MX 10 "+n, "q.test. 60 IN NS "+n, "q.test. 60 IN PTR "+n, "q.test. 60 IN SRV 1 2 3 "+n,
				n+" 60 IN A 192.0.2.1")) // owners are not looked at
		})
		u.answer.Rcode = vt.Pick(rnd, 0, 0, 3)
		u.answer.Truncated = rnd.Intn(6) == 0
		u.fail, u.drop = rnd.Intn(12) == 0, rnd.Intn(12) == 0
		u.where, u.seen = "", nil
		q0 := vt.CanonID(q)
		ci := rdns.ClientInfo{SourceIP: net.IP{1, 2, 3, 4}, Listener: "l"}
		a, err := g.Resolve(q, ci)
		if !askedAsIs(u, q0, ci) || vt.CanonID(q) != q0 {
			r.Violation("query-changed", fmt.Sprintf("the query %s was passed on as %v", q0, u.seen), label)
			return
		}
		if !judge(r, label, "name "+desc, u, q, a, err, func() (string, *dns.Msg) {
			if anyFiltered(u, bad) {
				return "block", nil
			}
			return "same", nil
		}, alt, ede, 18, false) {
			return
		}
	}
}

func clientIP(r *vt.R, rnd *rand.Rand, c int, label string, db rdns.IPBlocklistDB, match func(net.IP) bool, desc string) {
	u := &upstream{}
	opt := rdns.ClientBlocklistOptions{BlocklistDB: db, UseECS: rnd.Intn(2) == 0}
	alt := rnd.Intn(3) == 0
	if alt {
		opt.BlocklistResolver = u.resolver("alt")
	}
	g, err := rdns.NewClientBlocklist("client", u.resolver("up"), opt)
	if err != nil {
		r.Violation("rejected", err.Error(), label)
		return
	}
	for i := 0; i < 15; i++ {
		q := vt.Query("q.test.", dns.TypeA)
		ci := rdns.ClientInfo{SourceIP: randomIP(rnd)}
		if rnd.Intn(4) == 0 {
			ci.SourceIP = ci.SourceIP.To16()
		}
		if rnd.Intn(20) == 0 {
			ci.SourceIP = nil
		}
		ip := ci.SourceIP
		if rnd.Intn(2) == 0 {
			e := randomIP(rnd)
			vt.AddECS(q, e.String(), 32)
			if opt.UseECS {
				ip = e
			}
		}
		u.answer = randomSections(rnd, q, func() dns.RR { return vt.RR("q.test. 60 IN A %s", vt.Pick(rnd, "10.0.0.1", "192.0.0.1")) })
		u.fail, u.drop = rnd.Intn(12) == 0, rnd.Intn(12) == 0
		u.where, u.seen = "", nil
		q0 := vt.CanonID(q)
		a, err := g.Resolve(q, ci)
		if !askedAsIs(u, q0, ci) || vt.CanonID(q) != q0 {
			r.Violation("query-changed", fmt.Sprintf("the query %s was passed on as %v", q0, u.seen), label)
			return
		}
		ok := true
		if ip != nil && match(ip) {
			r.Observe("clients refused", 1)
			r.Eval(fmt.Sprintf("client %v %v ecs%v", alt, ip, opt.UseECS))
			if alt {
				ok = u.where == "alt" && err == nil && a != nil && len(a.Answer) == 1 && a.Answer[0].Header().Name == "alt.test."
			} else {
				ok = u.where == "" && err == nil && a != nil && a.Rcode == dns.RcodeRefused && a.Id == q.Id && a.Response && len(a.Question) == 1 && len(a.Answer)+len(a.Ns) == 0
			}
		} else {
			r.Observe("clients passed", 1)
			r.Eval("")
			ok = u.where == "up"
			switch {
			case u.fail:
				ok = ok && err != nil
			case u.drop:
				ok = ok && a == nil && err == nil
			default:
				ok = ok && vt.CanonID(a) == vt.CanonID(u.answer)
			}
		}
		if !ok {
			r.Violation("client", fmt.Sprintf("client %v (use-ecs %v, looked up %v): asked %q, result %s %v; %s", ci.SourceIP, opt.UseECS, ip, u.where, vt.CanonID(a), err, desc), label)
			return
		}
	}
}
