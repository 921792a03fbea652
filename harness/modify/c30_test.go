package modify

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

var fixed = []string{
	"x. 60 IN A 192.0.2.1",
	"IN A 192.0.2.2",
	"x. IN AAAA 2001:db8::1",
	`x. 0 IN TXT "some text" "more"`,
	"x. 4294967295 IN MX 10 mx.test.",
	"some.other.name. 5 IN CNAME target.test.",
	"x. 30 CH TXT chaos",
	"zone.test. 900 IN SOA ns.test. m.test. 1 2 3 4 5",
	"x. 60 IN HTTPS 1 . alpn=h2",
	"x. 60 IN TYPE65280 \\# 3 010203",
	"",
	"; nothing here",
}

// tpl is a template and what it should expand to.
type tpl struct {
	text string
	f    func(q *dns.Msg) string
}

func qn(q *dns.Msg) string { return q.Question[0].Name }
func qt(q *dns.Msg) string { return dns.TypeToString[q.Question[0].Qtype] }
func qc(q *dns.Msg) string { return dns.ClassToString[q.Question[0].Qclass] }

var templates = []tpl{
	{`{{ .Question }} 60 IN TXT "{{ .QuestionType }} {{ .QuestionClass }} {{ .ID }} {{ .Question }}"`, func(q *dns.Msg) string {
		return fmt.Sprintf(`%s 60 IN TXT "%s %s %d %s"`, qn(q), qt(q), qc(q), q.Id, qn(q))
	}},
	{`{{ if eq .QuestionType "A" }}{{ .Question }} 18000 IN A 192.0.2.1{{ end }}`, func(q *dns.Msg) string {
		if qt(q) == "A" {
			return qn(q) + " 18000 IN A 192.0.2.1"
		}
		return ""
	}},
	{`{{ .Question }} 18000 IN NS {{ if (eq .QuestionType "AAAA") }}ns6{{ else }}ns4{{ end }}.example.com.`, func(q *dns.Msg) string {
		if qt(q) == "AAAA" {
			return qn(q) + " 18000 IN NS ns6.example.com."
		}
		return qn(q) + " 18000 IN NS ns4.example.com."
	}},
	{`{{ .Question }} IN A {{ trimSuffix .Question ".rebind."}}`, func(q *dns.Msg) string {
		return qn(q) + " IN A " + strings.TrimSuffix(qn(q), ".rebind.")
	}},
	{`{{ .Question }} {{ .QuestionClass }} {{ .QuestionType }} {{ replaceAll ( index ( split .Question "." ) 0 ) "-" "." }}`, func(q *dns.Msg) string {
		return fmt.Sprintf("%s %s %s %s", qn(q), qc(q), qt(q), strings.ReplaceAll(strings.Split(qn(q), ".")[0], "-", "."))
	}},
	{`{{ trimPrefix .Question "www." }} 1 IN PTR {{ join (split .Question ".") "-" }}.test.`, func(q *dns.Msg) string {
		return fmt.Sprintf("%s 1 IN PTR %s.test.", strings.TrimPrefix(qn(q), "www."), strings.Join(strings.Split(qn(q), "."), "-"))
	}},
	{`; only a comment`, func(q *dns.Msg) string { return "" }},
}

// expand gives the record for a text, nil if it is not one.
func expand(text string) dns.RR {
	rr, err := dns.NewRR(text)
	if err != nil {
		return nil
	}
	return rr
}

// TestC30: made-up answers are as configured, for every query.
func TestC30(t *testing.T) {
	r := vt.Start(t, "C30", "one query to a static, template or drop element per evaluation, eight at a time, answers scribbled over by their receivers; non-trivial always, distinct by (element, records, rcode, extended error, type)")
	r.Need("static answers", 2000)
	r.Need("template answers", 2000)
	r.Need("template records left out", 500)
	r.Need("extended errors", 500)
	r.Need("drops", 50)
	for c := 0; c < r.N(150, 4000); c++ {
		staticCase(r, c, false)
		staticCase(r, c, true)
	}
	drop := rdns.NewDropResolver("d")
	rnd := r.Rand("drop")
	for i := 0; i < 100; i++ {
		if a, err := drop.Resolve(query(rnd), client(rnd)); a != nil || err != nil {
			r.Violation("drop", fmt.Sprintf("a dropped query got %v, %v", a, err), "drop")
		}
		r.Observe("drops", 1)
		r.Eval("")
	}
	for _, bad := range []string{"x. IN A 1.2.3", "x. IN NOTYPE 1"} {
		for i := 0; i < 3; i++ {
			o := rdns.StaticResolverOptions{}
			*[]*[]string{&o.Answer, &o.NS, &o.Extra}[i] = []string{bad}
			if _, err := rdns.NewStaticResolver("s", o); err == nil {
				r.Violation("accepted", fmt.Sprintf("record %q was accepted", bad), bad)
			}
		}
	}
	if _, err := rdns.NewStaticTemplateResolver("s", rdns.StaticResolverOptions{Answer: []string{"{{ .Question "}}); err == nil {
		r.Violation("accepted", "a broken template was accepted", "template")
	}
	r.Exit()
}

func staticCase(r *vt.R, c int, tmpl bool) {
	rnd := r.Rand("static", c, tmpl)
	opt := rdns.StaticResolverOptions{RCode: vt.Pick(rnd, 0, 0, 3, 2, 5, 9), Truncate: rnd.Intn(4) == 0}
	var make3 [3][]func(q *dns.Msg) dns.RR
	for i, s := range []*[]string{&opt.Answer, &opt.NS, &opt.Extra} {
		for n := rnd.Intn(4); n > 0; n-- {
			if tmpl {
				x := vt.Pick(rnd, templates...)
				*s = append(*s, x.text)
				make3[i] = append(make3[i], func(q *dns.Msg) dns.RR { return expand(x.f(q)) })
				continue
			}
			x := vt.Pick(rnd, fixed...)
			*s = append(*s, x)
			make3[i] = append(make3[i], func(q *dns.Msg) dns.RR {
				rr := expand(x)
				if i == 0 && rr != nil {
					rr.Header().Name = qn(q)
				}
				return rr
			})
		}
	}
	code := uint16(rnd.Intn(30))
	text := vt.Pick(rnd, "", "fixed text", "{{ .Question }} is banned, {{ .QuestionType }} {{ .ID }}")
	if rnd.Intn(2) == 0 {
		code, text = 0, ""
	}
	var err error
	if opt.EDNS0EDETemplate, err = rdns.NewEDNS0EDETemplate(code, text); err != nil {
		panic(err)
	}
	label := fmt.Sprintf("static case %d template %v %+v ede %d %q", c, tmpl, opt, code, text)
	r.Case("%s", label)
	var el rdns.Resolver
	if tmpl {
		el, err = rdns.NewStaticTemplateResolver("s", opt)
	} else {
		el, err = rdns.NewStaticResolver("s", opt)
	}
	if err != nil {
		r.Violation("construct", err.Error(), label)
		return
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		rnd := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 4; i++ {
				q := query(rnd)
				if rnd.Intn(4) == 0 {
					q.Question[0].Name = vt.Pick(rnd, "192.168.1.12.rebind.", "192-168-1-12.rebind.", "::1.rebind.", "x.rebind.")
				}
				before := vt.CanonID(q)
				a, err := el.Resolve(q, client(rnd))
				if after := vt.CanonID(q); after != before {
					r.Violation("query-changed", fmt.Sprintf("the caller's query %s became %s", before, after), label)
				}
				judgeStatic(r, label, q, a, err, opt, make3, code, text, tmpl)
				if a != nil { // whoever receives an answer may change it
					for _, s := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
						for _, rr := range s {
							if rr != nil {
								rr.Header().Name, rr.Header().Ttl = "scribble.", 77
								if x, ok := rr.(*dns.A); ok && len(x.A) > 0 {
									x.A[len(x.A)-1] = 99
								}
								if x, ok := rr.(*dns.TXT); ok && len(x.Txt) > 0 {
									x.Txt[0] = "scribble"
								}
							}
						}
					}
				}
			}
		}()
	}
	wg.Wait()
}

func judgeStatic(r *vt.R, label string, q, a *dns.Msg, err error, opt rdns.StaticResolverOptions, make3 [3][]func(q *dns.Msg) dns.RR, code uint16, text string, tmpl bool) {
	if err != nil || a == nil {
		r.Violation("no-answer", fmt.Sprintf("query %s got %v, %v", vt.CanonID(q), a, err), label)
		return
	}
	bad := func(what string) {
		r.Violation("answer", fmt.Sprintf("%s: query %s got %s", what, vt.CanonID(q), vt.CanonID(a)), label)
	}
	if a.Id != q.Id || !a.Response || a.Opcode != q.Opcode || len(a.Question) != 1 || a.Question[0] != q.Question[0] || a.Rcode != opt.RCode || a.Truncated != opt.Truncate {
		bad("header")
		return
	}
	extra := a.Extra
	if code != 0 || text != "" {
		// the extended error comes in an OPT record of its own
		want := strings.NewReplacer("{{ .Question }}", qn(q), "{{ .QuestionType }}", qt(q), "{{ .ID }}", fmt.Sprint(q.Id)).Replace(text)
		n := 0
		extra = nil
		for _, rr := range a.Extra {
			o, ok := rr.(*dns.OPT)
			if !ok {
				extra = append(extra, rr)
				continue
			}
			for _, x := range o.Option {
				if e, ok := x.(*dns.EDNS0_EDE); ok && e.InfoCode == code && e.ExtraText == want {
					n++
				}
			}
			if len(o.Option) != 1 {
				n = -1
			}
		}
		if n != 1 {
			bad("extended error")
			return
		}
		r.Observe("extended errors", 1)
	}
	left := 0
	for i, s := range [][]dns.RR{a.Answer, a.Ns, extra} {
		var want []dns.RR
		for _, f := range make3[i] {
			if rr := f(q); rr != nil {
				want = append(want, rr)
			} else {
				left++
			}
		}
		if w, g := fmt.Sprint(vt.RRStrings(want)), fmt.Sprint(vt.RRStrings(s)); w != g {
			bad(fmt.Sprintf("section %d should be %s but is %s", i, w, g))
			return
		}
	}
	for _, s := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
		for _, rr := range s {
			if rr == nil {
				bad("nil record")
				return
			}
		}
	}
	if _, err := a.Pack(); err != nil {
		bad("cannot be packed: " + err.Error())
		return
	}
	kind := "static"
	if tmpl {
		kind = "template"
		r.Observe("template records left out", left)
	}
	r.Observe(kind+" answers", 1)
	r.Eval(fmt.Sprintf("%s %d/%d/%d left%d rc%d ede%v type%d", kind, len(a.Answer), len(a.Ns), len(a.Extra), left, a.Rcode, code != 0 || text != "", q.Question[0].Qtype))
}
