// Package groups drives the elements that choose between several resolvers
// with members whose outcome, and the time they take, is scripted per query.
package groups

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"strconv"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

const queryOption = 65401 // EDNS0 option that carries the number of the query

// outcomes a member can have
var outcomes = []string{"ok", "ok", "ok", "err", "err", "servfail", "refused", "notimp", "nxdomain", "empty", "wrongtype", "filtered", "drop"}

// failure says if the outcome counts as failure of the member.
func failure(o string, servfail, empty bool) bool {
	switch o {
	case "err", "refused", "notimp":
		return true
	case "servfail":
		return servfail || empty
	case "nxdomain", "empty", "wrongtype":
		return empty
	}
	return false
}

// try is one query handed to one member.
type try struct {
	member  int
	start   time.Time
	end     time.Time
	outcome string
	token   string
}

type query struct {
	n        int
	q        *dns.Msg
	before   string
	plan     []string // outcome per member
	delay    []time.Duration
	tries    []*try
	start    time.Time
	end      time.Time
	a        *dns.Msg
	err      error
	returned bool
}

// world holds the members and the log of everything they saw.
type world struct {
	r       *vt.R
	label   string
	mu      sync.Mutex
	queries []*query
	tries   []*try
	tokens  int
	sent    map[string]string
	scrawl  bool // members change the query they are given, as scripts may
}

func newWorld(r *vt.R, label string) *world {
	return &world{r: r, label: label, sent: map[string]string{}}
}

func (w *world) members(n int) []rdns.Resolver {
	out := make([]rdns.Resolver, n)
	for i := range out {
		out[i] = &vt.Func{Name: fmt.Sprintf("m%d", i), F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) { return w.serve(i, q, ci) }}
	}
	return out
}

func (w *world) newQuery(rnd *rand.Rand, members int, pick func(member int) string, delay func() time.Duration) *query {
	q := new(dns.Msg)
	q.SetQuestion(fmt.Sprintf("%s.test.", vt.Label(rnd, 2)), vt.Pick(rnd, dns.TypeA, dns.TypeTXT, dns.TypeANY))
	q.Id = uint16(rnd.Intn(65536))
	q.SetEdns0(1232, rnd.Intn(2) == 0)
	w.mu.Lock()
	defer w.mu.Unlock()
	x := &query{n: len(w.queries), q: q}
	q.IsEdns0().Option = append(q.IsEdns0().Option, &dns.EDNS0_LOCAL{Code: queryOption, Data: []byte(strconv.Itoa(x.n))})
	for i := 0; i < members; i++ {
		x.plan = append(x.plan, pick(i))
		x.delay = append(x.delay, delay())
	}
	x.before = vt.CanonID(q)
	w.queries = append(w.queries, x)
	return x
}

func clientOf(n int) rdns.ClientInfo {
	return rdns.ClientInfo{SourceIP: net.IP{192, 0, byte(n >> 8), byte(n)}, Listener: "l" + strconv.Itoa(n), DoHPath: "/p", TLSServerName: "sn", Protocol: "dot", ListenerAddr: ":853"}
}

func (w *world) run(rs rdns.Resolver, x *query) {
	x.start = time.Now()
	a, err := rs.Resolve(x.q, clientOf(x.n))
	w.mu.Lock()
	x.a, x.err, x.end, x.returned = a, err, time.Now(), true
	w.mu.Unlock()
}

// serve is what member i does with a query.
func (w *world) serve(i int, q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
	n := -1
	if o := q.IsEdns0(); o != nil {
		for _, e := range o.Option {
			if l, ok := e.(*dns.EDNS0_LOCAL); ok && l.Code == queryOption {
				n, _ = strconv.Atoi(string(l.Data))
			}
		}
	}
	if n < 0 {
		w.r.Violation("query-changed", "a member got a query without the option it was sent with", w.label)
		return nil, errors.New("unknown query")
	}
	w.mu.Lock()
	x := w.queries[n]
	w.tokens++
	t := &try{member: i, start: time.Now(), outcome: x.plan[i], token: fmt.Sprintf("%d:%d:%d", n, i, w.tokens)}
	x.tries = append(x.tries, t)
	w.tries = append(w.tries, t)
	d := x.delay[i]
	w.mu.Unlock()
	if got := vt.CanonID(q); got != x.before {
		w.r.Violation("query-changed", fmt.Sprintf("member %d got %s instead of %s", i, got, x.before), w.label)
	}
	if want := clientOf(n); fmt.Sprint(ci) != fmt.Sprint(want) {
		w.r.Violation("client-changed", fmt.Sprintf("member %d got client %v instead of %v", i, ci, want), w.label)
	}
	asked := q.Copy()
	if d > 0 {
		time.Sleep(d)
		if got := vt.CanonID(q); got != x.before {
			w.r.Violation("query-changed", fmt.Sprintf("the query of member %d became %s, was %s", i, got, x.before), w.label)
		}
	}
	if w.scrawl {
		q.Question[0].Name = "scrawl.test."
		q.Extra = nil
		w.r.Observe("queries changed by members", 1)
	}
	w.mu.Lock()
	t.end = time.Now()
	w.mu.Unlock()
	w.r.Observe("tries", 1)
	w.r.Observe("outcome "+t.outcome, 1)
	return w.answer(asked, t)
}

func (w *world) answer(q *dns.Msg, t *try) (*dns.Msg, error) {
	a := new(dns.Msg)
	a.SetReply(q)
	a.Extra = append(a.Extra, &dns.TXT{Hdr: dns.RR_Header{Name: "token.", Rrtype: dns.TypeTXT, Class: 1, Ttl: 5}, Txt: []string{t.token}})
	name := q.Question[0].Name
	rec := func() {
		switch q.Question[0].Qtype {
		case dns.TypeA:
			a.Answer = append(a.Answer, vt.RR("%s 60 IN A 192.0.2.%d", name, t.member))
		default:
			a.Answer = append(a.Answer, vt.RR("%s 60 IN TXT %q", name, t.token), vt.RR("%s 60 IN TXT second", name))
		}
	}
	switch t.outcome {
	case "ok":
		if q.Question[0].Qtype == dns.TypeANY && len(t.token)%2 == 0 {
			a.Answer = append(a.Answer, vt.RR("%s 60 IN HINFO a b", name))
		}
		rec()
	case "err":
		return nil, errors.New("member failed " + t.token)
	case "drop":
		return nil, nil
	case "servfail":
		a.Rcode = dns.RcodeServerFailure
	case "refused":
		a.Rcode = dns.RcodeRefused
	case "notimp":
		a.Rcode = dns.RcodeNotImplemented
	case "nxdomain":
		a.Rcode = dns.RcodeNameError
		a.Ns = append(a.Ns, vt.RR("test. 60 IN SOA ns. mail. 1 2 3 4 5"))
	case "empty":
	case "wrongtype":
		if q.Question[0].Qtype == dns.TypeANY {
			a.Answer = append(a.Answer, vt.RR("%s 60 IN HINFO RFC8482 \"\"", name))
		} else {
			a.Answer = append(a.Answer, vt.RR("%s 60 IN CNAME other.test.", name))
		}
	case "filtered":
		o := &dns.OPT{Hdr: dns.RR_Header{Name: ".", Rrtype: dns.TypeOPT}}
		o.Option = append(o.Option, &dns.EDNS0_EDE{InfoCode: dns.ExtendedErrorCodeFiltered})
		a.Extra = append(a.Extra, o)
	}
	w.mu.Lock()
	w.sent[t.token] = vt.CanonID(a)
	w.mu.Unlock()
	return a, nil
}

// tokenOf finds the token of an answer or error.
func tokenOf(a *dns.Msg, err error) string {
	if err != nil {
		s := err.Error()
		const p = "member failed "
		for i := 0; i+len(p) <= len(s); i++ {
			if s[i:i+len(p)] == p {
				return s[i+len(p):]
			}
		}
		return ""
	}
	if a == nil {
		return ""
	}
	for _, rr := range a.Extra {
		if t, ok := rr.(*dns.TXT); ok && rr.Header().Name == "token." {
			return t.Txt[0]
		}
	}
	return ""
}

// source is the try that produced the query's result, nil if none did.
func (w *world) source(x *query) *try {
	tok := tokenOf(x.a, x.err)
	if x.a == nil && x.err == nil {
		for _, t := range x.tries {
			if t.outcome == "drop" {
				return t
			}
		}
		return nil
	}
	if tok == "" {
		return nil
	}
	for _, t := range x.tries {
		if t.token == tok {
			if x.err == nil && w.sent[tok] != vt.CanonID(x.a) {
				w.r.Violation("answer-changed", fmt.Sprintf("member %d answered %s, the caller got %s", t.member, w.sent[tok], vt.CanonID(x.a)), w.label)
			}
			return t
		}
	}
	w.r.Violation("foreign-answer", fmt.Sprintf("query %d got the answer %s, which was not given for it", x.n, tok), w.label)
	return nil
}

func (x *query) String() string {
	s := fmt.Sprintf("query %d", x.n)
	for _, t := range x.tries {
		s += fmt.Sprintf(" m%d:%s", t.member, t.outcome)
	}
	return s + fmt.Sprintf(" plan %v -> err=%v", x.plan, x.err)
}
