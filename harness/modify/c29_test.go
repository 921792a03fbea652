package modify

import (
	"fmt"
	"regexp"
	"strings"
	"testing"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// TestC29: rewritten names come back as they were, shortened answers keep what
// was asked for.
func TestC29(t *testing.T) {
	r := vt.Start(t, "C29", "one query through a replace, collapse or minimise element per evaluation; non-trivial when a name or record had to change, distinct by (element, rules applied, records, response code)")
	r.Need("names replaced", 400)
	r.Need("records mapped back", 400)
	r.Need("names kept", 300)
	r.Need("collapsed", 500)
	r.Need("collapsed to nothing", 300)
	r.Need("minimised", 500)
	for c := 0; c < r.N(120, 3000); c++ {
		replaceCase(r, c)
		collapseCase(r, c)
		minimizeCase(r, c)
	}
	for _, bad := range []string{"(", "[a", "*"} {
		if _, err := rdns.NewReplace("x", newElement(), rdns.ReplaceOperation{From: bad, To: "a."}); err == nil {
			r.Violation("expression", fmt.Sprintf("expression %q was accepted", bad), bad)
		}
	}
	r.Exit()
}

var replacements = []rdns.ReplaceOperation{
	{From: `^(host-\d+\.)$`, To: `${1}internal.test.`},
	{From: `example\.com\.$`, To: `example.org.`},
	{From: `(?i)example\.com\.$`, To: `lab.test.`},
	{From: `^www\.`, To: `web.`},
	{From: `^(?i)www\.`, To: ``},
	{From: `a`, To: `b`},
	{From: `b`, To: `a`},
	{From: `^\.$`, To: `root.test.`},
	{From: `^([a-z]+)\.([a-z]+)\.`, To: `${2}.${1}.`},
	{From: `nothing-matches`, To: `x.`},
	{From: `(?i)^www\.`, To: `wWw.`}, // changes nothing but the case
	{From: `[eE]`, To: `E`},
}

func replaceCase(r *vt.R, c int) {
	rnd := r.Rand("replace", c)
	var ops []rdns.ReplaceOperation
	for i := 1 + rnd.Intn(3); i > 0; i-- {
		ops = append(ops, vt.Pick(rnd, replacements...))
	}
	label := fmt.Sprintf("replace case %d %v", c, ops)
	r.Case("%s", label)
	e := newElement()
	el, err := rdns.NewReplace("x", e, ops...)
	if err != nil {
		r.Violation("construct", err.Error(), label)
		return
	}
	var steps []step
	for i := 0; i < 30; i++ {
		q := query(rnd)
		if rnd.Intn(2) == 0 {
			q.Question[0].Name = strings.ToLower(q.Question[0].Name)
		}
		old := q.Question[0].Name
		name := old
		used := ""
		for k, op := range ops {
			next := regexp.MustCompile(op.From).ReplaceAllString(name, op.To)
			if next != name {
				used += fmt.Sprint(k)
			}
			name = next
		}
		up := q.Copy()
		up.Question[0].Name = name
		res := outcome(rnd, up)
		if res.a != nil && rnd.Intn(5) == 0 { // an alias that is not the only record of its name
			cname := vt.RR("x. 60 IN CNAME target.test.")
			sig := vt.RR("x. 60 IN TXT \"beside the alias\"")
			cname.Header().Name, sig.Header().Name = name, name
			res.a.Answer = append([]dns.RR{cname, sig}, res.a.Answer...)
		}
		if res.a != nil && rnd.Intn(3) == 0 { // an upstream that does not keep the case
			for _, rr := range res.a.Answer {
				rr.Header().Name = strings.ToLower(rr.Header().Name)
			}
			res.a.Question[0].Name = strings.ToLower(res.a.Question[0].Name)
		}
		if res.a != nil && rnd.Intn(20) == 0 {
			res.a.Question = nil
		}
		s := step{q: q, ci: client(rnd), f: func(*dns.Msg) (*dns.Msg, error) { return res.copy() }}
		s.judge = func(got result, seen []sighting) {
			w := s.q.Copy()
			w.Question[0].Name = name
			if !passed(r, label, &s, seen, w) {
				return
			}
			want := res
			mapped := 0
			if res.a != nil {
				want.a = res.a.Copy()
				if name != old {
					if len(want.a.Question) > 0 {
						want.a.Question[0].Name = old
					}
					for _, rr := range want.a.Answer {
						if strings.EqualFold(rr.Header().Name, name) {
							rr.Header().Name = old
							mapped++
						}
					}
				}
			}
			if !same(r, "replace", label, s.q, want, got) {
				return
			}
			if name == old {
				r.Observe("names kept", 1)
				r.Eval("")
				return
			}
			r.Observe("names replaced", 1)
			r.Observe("records mapped back", mapped)
			r.Eval(fmt.Sprintf("replace %v by %s mapped%d", ops, used, mapped))
		}
		steps = append(steps, s)
	}
	e.drive(r, el, label, steps)
}

func collapseCase(r *vt.R, c int) {
	rnd := r.Rand("collapse", c)
	rcode := vt.Pick(rnd, dns.RcodeSuccess, dns.RcodeNameError, dns.RcodeServerFailure)
	label := fmt.Sprintf("collapse case %d rcode %d", c, rcode)
	r.Case("%s", label)
	e := newElement()
	el := rdns.NewResponseCollapse("x", e, rdns.ResponseCollapseOptions{NullRCode: rcode})
	var steps []step
	for i := 0; i < 30; i++ {
		q := query(rnd)
		if rnd.Intn(2) == 0 {
			q.Question[0].Qtype = vt.Pick(rnd, dns.TypeA, dns.TypeAAAA)
		}
		res := outcome(rnd, q)
		s := step{q: q, ci: client(rnd), f: func(*dns.Msg) (*dns.Msg, error) { return res.copy() }}
		s.judge = func(got result, seen []sighting) {
			if !passed(r, label, &s, seen, s.q) {
				return
			}
			if got.a != nil {
				got.a.Id = 0
			}
			want := res
			if res.a == nil || res.a.Rcode != 0 {
				if res.a != nil {
					want.a = res.a.Copy()
					want.a.Id = 0
				}
				same(r, "passthrough", label, s.q, want, got)
				r.Eval("")
				return
			}
			want.a = res.a.Copy()
			want.a.Id = 0
			var keep []dns.RR
			for _, rr := range want.a.Answer {
				if rr.Header().Rrtype == s.q.Question[0].Qtype && rr.Header().Class == s.q.Question[0].Qclass {
					rr.Header().Name = s.q.Question[0].Name
					keep = append(keep, rr)
				}
			}
			if len(keep) == 0 {
				if got.a == nil || got.err != nil || got.a.Rcode != rcode || len(got.a.Answer) != 0 || !got.a.Response || len(got.a.Question) != 1 || got.a.Question[0] != s.q.Question[0] {
					r.Violation("collapse-empty", fmt.Sprintf("query %s\nupstream %s\ngot %s", vt.CanonID(s.q), res, got), label)
				}
				r.Observe("collapsed to nothing", 1)
				r.Eval(fmt.Sprintf("collapse empty %d from %d", rcode, len(res.a.Answer)))
				return
			}
			n := len(want.a.Answer)
			want.a.Answer = keep
			same(r, "collapse", label, s.q, want, got)
			r.Observe("collapsed", 1)
			r.Eval(fmt.Sprintf("collapse %d of %d", len(keep), n))
		}
		steps = append(steps, s)
	}
	e.drive(r, el, label, steps)
}

func minimizeCase(r *vt.R, c int) {
	rnd := r.Rand("minimise", c)
	label := fmt.Sprintf("minimise case %d", c)
	r.Case("%s", label)
	e := newElement()
	el := rdns.NewResponseMinimize("x", e)
	var steps []step
	for i := 0; i < 20; i++ {
		q := query(rnd)
		res := outcome(rnd, q)
		s := step{q: q, ci: client(rnd), f: func(*dns.Msg) (*dns.Msg, error) { return res.copy() }}
		s.judge = func(got result, seen []sighting) {
			if !passed(r, label, &s, seen, s.q) {
				return
			}
			want := res
			if res.a != nil {
				want.a = res.a.Copy()
				want.a.Id = 0
				want.a.Ns, want.a.Extra = nil, nil
				if got.a != nil {
					got.a.Id = 0
					// whether the OPT pseudo-record stays is left open
					var x []dns.RR
					for _, rr := range got.a.Extra {
						if rr.Header().Rrtype != dns.TypeOPT {
							x = append(x, rr)
						}
					}
					got.a.Extra = x
				}
				r.Observe("minimised", 1)
				r.Eval(fmt.Sprintf("minimise rc%d %d %d %d", res.a.Rcode, len(res.a.Answer), len(res.a.Ns), len(res.a.Extra)))
			}
			same(r, "minimise", label, s.q, want, got)
		}
		steps = append(steps, s)
	}
	e.drive(r, el, label, steps)
}
