package lists

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

func newDB(l *list, loader rdns.BlocklistLoader) (rdns.BlocklistDB, error) {
	switch l.format {
	case "domain":
		return rdns.NewDomainDB(l.name, loader)
	case "domain-subdomain":
		return rdns.NewDomainSubdomainDB(l.name, loader)
	case "regexp":
		return rdns.NewRegexpDB(l.name, loader)
	case "hosts":
		return rdns.NewHostsDB(l.name, loader)
	}
	return rdns.NewMACDB(l.name, loader)
}

// reloaded returns the database after a few refreshes with the same rules.
func reloaded[T interface{ Reload() (T, error) }](n int, db T) (T, error) {
	var err error
	for i := 0; i < n && err == nil; i++ {
		db, err = db.Reload()
	}
	return db, err
}

// TestC17: the query blocklist blocks what its rules say, and nothing else.
func TestC17(t *testing.T) {
	r := vt.Start(t, "C17", "one query against one random set of lists per evaluation; non-trivial when a list matched, distinct by (formats, what happened, rule)")
	r.Need("passed", 10000)
	r.Need("allowed by the allowlist", 2000)
	r.Need("blocked", 3000)
	r.Need("spoofed", 500)
	r.Need("reverse answers", 100)
	r.Need("sent to the blocklist resolver", 2000)
	for c := 0; c < r.N(2500, 80000); c++ {
		queryCase(r, c)
	}
	r.Exit()
}

func queryCase(r *vt.R, c int) {
	rnd := r.Rand("query", c)
	label := fmt.Sprintf("query blocklist case %d", c)
	r.Case("%s", label)
	var went string
	var seen *dns.Msg
	res := func(name string) rdns.Resolver {
		return &vt.Func{Name: name, F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			went += name
			seen = q
			switch ci.DoHPath {
			case "err":
				return nil, errors.New("failed " + name)
			case "drop":
				return nil, nil
			}
			a := new(dns.Msg)
			a.SetReply(q)
			a.Answer = append(a.Answer, vt.RR("t.test. 60 IN TXT %q", name))
			return a, nil
		}}
	}
	mk := func(kind string) ([]*list, rdns.BlocklistDB, error) {
		var ls []*list
		var dbs []rdns.BlocklistDB
		for i := rnd.Intn(3); i >= 0; i-- {
			l := randomList(rnd, fmt.Sprintf("%s%d", kind, i))
			db, err := newDB(l, rdns.NewStaticLoader(l.lines))
			if err != nil {
				return nil, nil, fmt.Errorf("%s list %q: %v", l.format, l.lines, err)
			}
			ls = append(ls, l)
			dbs = append(dbs, db)
		}
		if len(dbs) == 1 && rnd.Intn(2) == 0 {
			db, err := reloaded(rnd.Intn(3), dbs[0])
			return ls, db, err
		}
		m, err := rdns.NewMultiDB(dbs...)
		if err != nil {
			return ls, m, err
		}
		db, err := reloaded[rdns.BlocklistDB](rnd.Intn(3), m)
		return ls, db, err
	}
	var opt rdns.BlocklistOptions
	var block, allow []*list
	var err error
	if block, opt.BlocklistDB, err = mk("block"); err != nil {
		r.Violation("rejected", err.Error(), label)
		return
	}
	if rnd.Intn(2) == 0 {
		if allow, opt.AllowlistDB, err = mk("allow"); err != nil {
			r.Violation("rejected", err.Error(), label)
			return
		}
	}
	if rnd.Intn(4) == 0 {
		opt.BlocklistResolver = res("block")
	}
	if rnd.Intn(2) == 0 {
		opt.AllowListResolver = res("allow")
	}
	ede := rnd.Intn(2) == 0
	if ede {
		opt.EDNS0EDETemplate, err = rdns.NewEDNS0EDETemplate(15, "{{ .Question }}|{{ .BlocklistRule }}|{{ .Blocklist }}|{{ .QuestionType }}|{{ .ID }}")
		if err != nil {
			r.Violation("rejected", err.Error(), label)
			return
		}
	}
	g, err := rdns.NewBlocklist(fmt.Sprintf("blocklist-%d", c%50), res("up"), opt)
	if err != nil {
		r.Violation("rejected", err.Error(), label)
		return
	}
	for i := 0; i < 40; i++ {
		q := vt.Query(vt.MixCase(rnd, randomName(rnd)), vt.Pick(rnd, dns.TypeA, dns.TypeA, dns.TypeAAAA, dns.TypeMX, dns.TypePTR))
		q.Id = uint16(rnd.Intn(65536))
		if l := block[rnd.Intn(len(block))]; len(l.lines) > 0 && rnd.Intn(3) == 0 { // something like a rule
			if f := strings.Fields(l.lines[rnd.Intn(len(l.lines))]); len(f) > 0 {
				s := strings.TrimLeft(f[len(f)-1], "*.")
				if _, ok := dns.IsDomainName(s); ok && s != "" && !strings.ContainsAny(s, `\|$^#:`) {
					q.Question[0].Name = vt.Pick(rnd, "", "", "a.") + dns.Fqdn(s)
				}
			}
		}
		if q.Question[0].Qtype == dns.TypePTR && rnd.Intn(4) > 0 {
			q.Question[0].Name = vt.MixCase(rnd, reverse(parseIP(vt.Pick(rnd, hostIPs[2:]...))))
		}
		if rnd.Intn(2) == 0 {
			q.SetEdns0(1232, false)
			o := q.IsEdns0()
			if rnd.Intn(4) == 0 {
				o.Option = append(o.Option, &dns.EDNS0_LOCAL{Code: vt.Pick[uint16](rnd, 65001, 65002), Data: []byte{2, 0xab, 0, 0, 0}})
			}
			if rnd.Intn(2) == 0 {
				o.Option = append(o.Option, &dns.EDNS0_LOCAL{Code: vt.Pick[uint16](rnd, 65001, 65001, 65001, 65002), Data: randomMAC(rnd)})
			}
		}
		ci := rdns.ClientInfo{DoHPath: vt.Pick(rnd, "", "", "", "", "err", "drop")}
		before := vt.CanonID(q)
		went, seen = "", nil
		a, err := g.Resolve(q, ci)
		if got := vt.CanonID(q); got != before {
			r.Violation("query-changed", fmt.Sprintf("the query is %s after the call, was %s", got, before), label)
			return
		}
		where := func(ls []*list) *list {
			for _, l := range ls {
				if _, ok := l.match(q); ok {
					return l
				}
			}
			return nil
		}
		describe := func() string {
			s := fmt.Sprintf("%s;", before)
			for _, l := range append(append([]*list(nil), allow...), block...) {
				s += fmt.Sprintf(" %s(%s) %q;", l.name, l.format, l.lines)
			}
			return s
		}
		passed := func(to string) bool { // to that resolver, once, unchanged, and its result returned
			if went != to || vt.CanonID(seen) != before {
				return false
			}
			switch ci.DoHPath {
			case "err":
				return a == nil && err != nil && err.Error() == "failed "+to
			case "drop":
				return a == nil && err == nil
			}
			return err == nil && a != nil && len(a.Answer) == 1 && a.Answer[0].(*dns.TXT).Txt[0] == to
		}
		al, bl := where(allow), where(block)
		kind := ""
		ok := true
		switch {
		case al != nil:
			kind = "allowed by the allowlist"
			to := "up"
			if opt.AllowListResolver != nil {
				to = "allow"
			}
			ok = passed(to)
		case bl == nil:
			kind = "passed"
			ok = passed("up")
		case bl.format == "hosts" && q.Question[0].Qtype == dns.TypePTR:
			kind = "reverse answers"
			want := bl.ptr[strings.ToLower(q.Question[0].Name)]
			if len(want) > 10 {
				want = want[:10]
			}
			ok = went == "" && err == nil && a != nil && a.Rcode == 0 && len(a.Answer) == len(want)
			for i := 0; ok && i < len(want); i++ {
				p, is := a.Answer[i].(*dns.PTR)
				ok = is && strings.EqualFold(p.Ptr, want[i]) && p.Hdr.Name == q.Question[0].Name
			}
		case opt.BlocklistResolver != nil:
			kind = "sent to the blocklist resolver"
			ok = passed("block")
		default:
			var want []string
			switch q.Question[0].Qtype {
			case dns.TypeA:
				want = bl.ip4[strings.ToLower(strings.TrimSuffix(q.Question[0].Name, "."))]
			case dns.TypeAAAA:
				want = bl.ip6[strings.ToLower(strings.TrimSuffix(q.Question[0].Name, "."))]
			}
			ok = went == "" && err == nil && a != nil
			if len(want) > 0 {
				kind = "spoofed"
				var got []string
				for _, rr := range answers(a) {
					switch rr := rr.(type) {
					case *dns.A:
						got = append(got, rr.A.String())
					case *dns.AAAA:
						got = append(got, rr.AAAA.String())
					default:
						ok = false
					}
					ok = ok && rr.Header().Name == q.Question[0].Name && rr.Header().Rrtype == q.Question[0].Qtype
				}
				ok = ok && a.Rcode == 0 && vt.SameMultiset(got, want)
			} else {
				kind = "blocked"
				ok = ok && a.Rcode == dns.RcodeNameError && len(a.Answer) == 0
				if ok && ede {
					ok = edeOK(a, q, bl)
				}
			}
		}
		if ok && (kind == "spoofed" || kind == "blocked" || kind == "reverse answers") {
			ok = a.Id == q.Id && a.Response && len(a.Question) == 1 && a.Question[0] == q.Question[0]
		}
		if !ok {
			r.Violation(strings.ReplaceAll(kind, " ", "-"), fmt.Sprintf("expected: %s; went to %q and returned %v %v; %s", kind, went, vt.CanonID(a), err, describe()), label)
			return
		}
		r.Observe(kind, 1)
		if al != nil || bl != nil {
			l := al
			if l == nil {
				l = bl
			}
			rules, _ := l.match(q)
			r.Eval(fmt.Sprintf("%s %s %v", kind, l.format, rules))
		}
	}
}

func answers(a *dns.Msg) []dns.RR {
	if a == nil {
		return nil
	}
	return a.Answer
}

// edeOK: the extended error names the question, the list and a rule of it that
// matches.
func edeOK(a, q *dns.Msg, l *list) bool {
	o := a.IsEdns0()
	if o == nil {
		return false
	}
	for _, e := range o.Option {
		if e, ok := e.(*dns.EDNS0_EDE); ok && e.InfoCode == 15 {
			f := strings.Split(e.ExtraText, "|")
			if len(f) < 5 {
				return false
			}
			n := len(f)
			rule := strings.Join(f[1:n-3], "|") // rules can have a | in them
			if f[0] != q.Question[0].Name || f[n-3] != l.name || f[n-2] != dns.TypeToString[q.Question[0].Qtype] || f[n-1] != fmt.Sprint(q.Id) {
				return false
			}
			rules, _ := l.match(q)
			for _, x := range rules {
				if strings.EqualFold(x, rule) {
					return true
				}
			}
			return false
		}
	}
	return false
}
