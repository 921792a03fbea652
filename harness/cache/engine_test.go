package cache

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// What the upstream handed out, and when.
type produced struct {
	seq     int
	token   string // the client operation that caused the upstream query
	at      time.Time
	msg     *dns.Msg
	minTTL  uint32
	hasTTL  bool
	store   bool          // may be stored at all
	life    time.Duration // longest it may be served
	replace bool
}

// world is the upstream plus the reference model of what may be served.
type world struct {
	mu      sync.Mutex
	rnd     *rand.Rand
	opt     rdns.CacheOptions
	seq     int
	byKey   map[string][]*produced
	calls   map[string]int // upstream queries per client operation
	delay   bool
	ttls    []uint32
	noID    bool
	errRate int
	slack   time.Duration // how much older than it is the store may take an answer to be
}

func newWorld(rnd *rand.Rand, opt rdns.CacheOptions) *world {
	return &world{rnd: rnd, opt: opt, byKey: map[string][]*produced{}, calls: map[string]int{}, errRate: 8,
		ttls: []uint32{0, 1, 2, 5, 30, 60, 61, 299, 300, 600, 3600, 86400, 604800}}
}

// keyOf is everything that has to agree for an answer to be reusable.
func keyOf(q *dns.Msg) string {
	var b strings.Builder
	fmt.Fprintf(&b, "op%d cd%v n%d", q.Opcode, q.CheckingDisabled, len(q.Question))
	for _, x := range q.Question {
		fmt.Fprintf(&b, " %s/%d/%d", strings.ToLower(x.Name), x.Qtype, x.Qclass)
	}
	if o := q.IsEdns0(); o != nil {
		fmt.Fprintf(&b, " do%v", o.Do())
		for _, e := range o.Option {
			if s, ok := e.(*dns.EDNS0_SUBNET); ok {
				fmt.Fprintf(&b, " ecs%d/%s/%d", s.Family, s.Address, s.SourceNetmask)
			}
		}
	} else {
		b.WriteString(" dofalse")
	}
	return b.String()
}

func (w *world) negTTL() uint32 {
	if w.opt.NegativeTTL == 0 {
		return 60
	}
	return w.opt.NegativeTTL
}

// Resolve is the upstream.
func (w *world) Resolve(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
	w.mu.Lock()
	w.calls[ci.DoHPath]++
	rnd := w.rnd
	var d time.Duration
	if w.delay {
		d = time.Duration(rnd.Intn(4)) * 700 * time.Millisecond
	}
	kind := rnd.Intn(100)
	a, err := w.make(q, rnd, kind)
	w.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
	if err != nil || a == nil {
		return nil, err
	}
	w.mu.Lock()
	p := w.describe(q, a, ci.DoHPath)
	w.byKey[keyOf(q)] = append(w.byKey[keyOf(q)], p)
	w.mu.Unlock()
	// The cache works on after the upstream is done with the query, so it hands
	// the upstream a copy of what it caches by: scribble over it.
	if q.Opcode != dns.OpcodeQuery || len(q.Question) != 1 {
		return a, nil
	}
	q.Id ^= 0x5555
	other := names[1]
	if strings.EqualFold(q.Question[0].Name, other) {
		other = names[0]
	}
	q.Question = []dns.Question{{Name: other, Qtype: q.Question[0].Qtype, Qclass: q.Question[0].Qclass}}
	return a, nil
}

func (w *world) String() string { return "world" }

func (w *world) ttl() uint32 { return w.ttls[w.rnd.Intn(len(w.ttls))] }

func (w *world) make(q *dns.Msg, rnd *rand.Rand, kind int) (*dns.Msg, error) {
	if kind < w.errRate {
		if kind%2 == 0 {
			return nil, errors.New("upstream failed")
		}
		return nil, nil
	}
	w.seq++
	a := new(dns.Msg)
	a.SetReply(q)
	a.RecursionAvailable = rnd.Intn(2) == 0
	a.AuthenticatedData = rnd.Intn(3) == 0
	a.Authoritative = rnd.Intn(3) == 0
	name := "."
	qt := uint16(dns.TypeA)
	class := "IN"
	if len(q.Question) > 0 {
		name = q.Question[0].Name
		qt = q.Question[0].Qtype
		if q.Question[0].Qclass == dns.ClassCHAOS {
			class = "CH"
		}
	}
	rec := func(owner string, n int) dns.RR {
		switch qt {
		case dns.TypeAAAA:
			return vt.RR("%s %d %s AAAA 2001:db8::%x:%x", owner, w.ttl(), class, w.seq, n)
		case dns.TypeTXT:
			return vt.RR("%s %d %s TXT \"v%d-%d\"", owner, w.ttl(), class, w.seq, n)
		case dns.TypeMX:
			return vt.RR("%s %d %s MX %d m%d-%d.example.", owner, w.ttl(), class, n, w.seq, n)
		}
		return vt.RR("%s %d %s A 10.%d.%d.%d", owner, w.ttl(), class, w.seq>>8&255, w.seq&255, n)
	}
	switch {
	case kind < 60: // positive
		owner := name
		if rnd.Intn(3) == 0 {
			tgt := fmt.Sprintf("c%d.example.", w.seq)
			a.Answer = append(a.Answer, vt.RR("%s %d %s CNAME %s", owner, w.ttl(), class, tgt))
			owner = tgt
		}
		n := 1 + rnd.Intn(4)
		for i := 0; i < n; i++ {
			a.Answer = append(a.Answer, rec(owner, i))
		}
		if rnd.Intn(3) == 0 {
			a.Ns = append(a.Ns, vt.RR("example. %d IN NS ns%d.example.", w.ttl(), w.seq))
		}
		if rnd.Intn(3) == 0 {
			a.Extra = append(a.Extra, vt.RR("ns%d.example. %d IN A 192.0.2.%d", w.seq, w.ttl(), w.seq&255))
		}
	case kind < 70: // negative with SOA
		if rnd.Intn(2) == 0 {
			a.Rcode = dns.RcodeNameError
		}
		a.Ns = append(a.Ns, vt.RR("example. %d IN SOA ns. h. %d 1 1 1 60", w.ttl(), w.seq))
	case kind < 80: // negative without SOA
		a.Rcode = vt.Pick(rnd, dns.RcodeNameError, dns.RcodeSuccess)
	case kind < 92:
		a.Rcode = vt.Pick(rnd, dns.RcodeServerFailure, dns.RcodeServerFailure, dns.RcodeRefused, dns.RcodeNotImplemented, dns.RcodeFormatError, dns.RcodeYXDomain, dns.RcodeNotAuth, dns.RcodeNotZone)
		if rnd.Intn(3) == 0 {
			a.Ns = append(a.Ns, vt.RR("example. %d IN SOA ns. h. %d 1 1 1 60", w.ttl(), w.seq))
		}
	default:
		a.Answer = append(a.Answer, rec(name, 0))
		a.Truncated = true
	}
	// An EDNS0 record that identifies this answer even if it has no records.
	if !w.noID && rnd.Intn(6) != 0 {
		o := &dns.OPT{Hdr: dns.RR_Header{Name: ".", Rrtype: dns.TypeOPT}}
		o.SetUDPSize(1232)
		if q.IsEdns0() != nil && q.IsEdns0().Do() {
			o.SetDo()
		}
		o.Option = append(o.Option, &dns.EDNS0_LOCAL{Code: 65280, Data: []byte(fmt.Sprintf("seq%d", w.seq))})
		at := len(a.Extra)
		if at > 0 && rnd.Intn(2) == 0 {
			a.Extra = append([]dns.RR{o}, a.Extra...)
		} else {
			a.Extra = append(a.Extra, o)
		}
	}
	return a, nil
}

func (w *world) describe(q, a *dns.Msg, token string) *produced {
	p := &produced{seq: w.seq, token: token, at: time.Now(), msg: a.Copy()}
	for _, s := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
		for _, rr := range s {
			if rr.Header().Rrtype == dns.TypeOPT {
				continue
			}
			if !p.hasTTL || rr.Header().Ttl < p.minTTL {
				p.minTTL = rr.Header().Ttl
				p.hasTTL = true
			}
		}
	}
	sec := func(n uint32) time.Duration { return time.Duration(n) * time.Second }
	switch a.Rcode {
	case dns.RcodeSuccess, dns.RcodeNameError, dns.RcodeRefused, dns.RcodeNotImplemented, dns.RcodeFormatError:
		p.store = true
		if p.hasTTL {
			p.life = sec(p.minTTL)
		} else {
			p.life = sec(w.negTTL())
		}
	case dns.RcodeServerFailure:
		p.store = true
		p.life = sec(min(w.negTTL(), 300))
		if p.hasTTL {
			p.life = min(p.life, sec(p.minTTL))
		}
	}
	if lim, ok := w.opt.CacheRcodeMaxTTL[a.Rcode]; ok {
		p.life = min(p.life, sec(lim))
	}
	if a.Truncated || q.Opcode != dns.OpcodeQuery || len(q.Question) != 1 {
		p.store = false
	}
	return p
}

// explain says why p cannot be the source of answer a given to (q, token) at
// time now; "" if it can.
func (w *world) explain(p *produced, a, q *dns.Msg, token string, now time.Time) string {
	if p.token == token {
		now = p.at // handed on as it came
	}
	e := w.explainAt(p, a, q, token, now, 0)
	if e != "" && w.slack > 0 && p.token != token {
		if w.explainAt(p, a, q, token, now, w.slack) == "" {
			return ""
		}
	}
	return e
}

func (w *world) explainAt(p *produced, a, q *dns.Msg, token string, now time.Time, slack time.Duration) string {
	age := now.Sub(p.at)
	own := p.token == token
	if !own || age > 0 {
		if !p.store && !own {
			return "must not be reused"
		}
		if age > p.life && p.store {
			return fmt.Sprintf("served %v after it was fetched, limit %v", age, p.life)
		}
	}
	secs := uint32((age + slack) / time.Second)
	m := p.msg
	if m.Rcode != a.Rcode || m.Truncated != a.Truncated || m.AuthenticatedData != a.AuthenticatedData || m.Authoritative != a.Authoritative ||
		m.RecursionAvailable != a.RecursionAvailable || m.CheckingDisabled != a.CheckingDisabled || m.Opcode != a.Opcode || a.Response != m.Response {
		return "header differs"
	}
	secsOf := [][2][]dns.RR{{m.Answer, a.Answer}, {m.Ns, a.Ns}, {m.Extra, a.Extra}}
	for i, pr := range secsOf {
		if len(pr[0]) != len(pr[1]) {
			return "different number of records"
		}
		var want, got []string
		for j := range pr[0] {
			x, y := pr[0][j], pr[1][j]
			wt := x.Header().Ttl
			if x.Header().Rrtype != dns.TypeOPT {
				if secs > 0 && secs >= wt {
					return fmt.Sprintf("record with TTL %d served after %d s", wt, secs)
				}
				wt -= secs
			} else {
				wt = 0
			}
			gt := y.Header().Ttl
			if y.Header().Rrtype == dns.TypeOPT {
				gt = 0
			}
			want = append(want, fmt.Sprintf("%d %s", wt, vt.RRString(x)))
			got = append(got, fmt.Sprintf("%d %s", gt, vt.RRString(y)))
		}
		if i == 0 && w.opt.ShuffleAnswerFunc != nil {
			if !vt.SameMultiset(want, got) {
				return fmt.Sprintf("records differ: want %v got %v", want, got)
			}
			// records other than addresses keep their place
			for j := range pr[0] {
				ty := pr[0][j].Header().Rrtype
				if ty != dns.TypeA && ty != dns.TypeAAAA && want[j] != got[j] {
					return fmt.Sprintf("non-address record moved: want %v got %v", want, got)
				}
			}
			continue
		}
		for j := range want {
			if want[j] != got[j] {
				return fmt.Sprintf("records differ: want %v got %v", want, got)
			}
		}
	}
	return ""
}

// judge decides one answered operation.
func (w *world) judge(r *vt.R, q0 *dns.Msg, token string, res vt.Result, now time.Time, label string) {
	if res.Err != nil || res.A == nil {
		// nothing was served from the cache; only legitimate if upstream said so
		w.mu.Lock()
		n := w.calls[token]
		w.mu.Unlock()
		if n == 0 {
			r.Violation("no-answer", fmt.Sprintf("%s: got (%v, %v) without asking the upstream", keyOf(q0), vt.Canon(res.A), res.Err), label)
		}
		r.Eval("")
		return
	}
	a := res.A
	if a.Id != q0.Id {
		r.Violation("id", fmt.Sprintf("answer to %d has ID %d", q0.Id, a.Id), label)
	}
	if len(q0.Question) != 1 {
		// passed through: the question section is the upstream's business
	} else if len(a.Question) != len(q0.Question) {
		r.Violation("question", "answer has a different question section: "+vt.Canon(a), label)
	} else {
		for i := range a.Question {
			if a.Question[i] != q0.Question[i] {
				r.Violation("question", fmt.Sprintf("answer to %v carries question %v", q0.Question[i], a.Question[i]), label)
			}
		}
	}
	w.mu.Lock()
	cands := append([]*produced(nil), w.byKey[keyOf(q0)]...)
	w.mu.Unlock()
	var why []string
	ok := false
	var src *produced
	for i := len(cands) - 1; i >= 0; i-- {
		e := w.explain(cands[i], a, q0, token, now)
		if e == "" {
			ok = true
			src = cands[i]
			break
		}
		why = append(why, fmt.Sprintf("#%d: %s", cands[i].seq, e))
	}
	if !ok {
		// Was it somebody else's answer?
		key := "not-from-upstream"
		w.mu.Lock()
		for k, ps := range w.byKey {
			for _, p := range ps {
				if k != keyOf(q0) && w.explain(p, a, q0, p.token, p.at) == "" {
					key = "wrong-key"
					why = append([]string{"it is the answer given for " + k}, why...)
				}
			}
		}
		w.mu.Unlock()
		if key == "not-from-upstream" && len(why) > 0 {
			switch {
			case strings.Contains(strings.Join(why, " "), "limit"), strings.Contains(strings.Join(why, " "), "served after"):
				key = "stale"
			case strings.Contains(strings.Join(why, " "), "must not be reused"):
				key = "not-reusable"
			}
		}
		if len(why) > 5 {
			why = why[:5]
		}
		r.Violation(key, fmt.Sprintf("query %s got %s; %s", keyOf(q0), vt.Canon(a), strings.Join(why, "; ")), label)
		r.Eval("")
		return
	}
	age := now.Sub(src.at)
	kind := "fresh"
	if src.token != token {
		kind = "hit"
		r.Observe("answers from cache", 1)
		if age > 0 {
			r.Observe("aged answers", 1)
		}
	} else {
		r.Observe("answers from upstream", 1)
	}
	r.Eval(fmt.Sprintf("%s|%s|rc%d|%d|%v", kind, keyOf(q0), a.Rcode, len(a.Answer), age/time.Second))
	r.State("served (key, rcode, source)", fmt.Sprintf("%s|%d|%s", keyOf(q0), a.Rcode, kind))
}

// scribble destroys a message its owner is free to change.
func scribble(m *dns.Msg) {
	if m == nil {
		return
	}
	m.Id ^= 0xffff
	m.Rcode = dns.RcodeBadSig
	for i := range m.Question {
		m.Question[i].Name = "scribbled.client."
		m.Question[i].Qtype = dns.TypeLOC
	}
	for _, s := range [][]dns.RR{m.Answer, m.Ns, m.Extra} {
		for i, rr := range s {
			rr.Header().Ttl = 4242
			rr.Header().Name = "scribbled.client."
			switch x := rr.(type) {
			case *dns.A:
				for j := range x.A {
					x.A[j] = 66
				}
			case *dns.AAAA:
				for j := range x.AAAA {
					x.AAAA[j] = 66
				}
			case *dns.TXT:
				for j := range x.Txt {
					x.Txt[j] = "scribbled"
				}
			case *dns.OPT:
				for _, o := range x.Option {
					if l, ok := o.(*dns.EDNS0_LOCAL); ok {
						for j := range l.Data {
							l.Data[j] = 'x'
						}
					}
				}
				x.Option = nil
			}
			s[i] = nil
		}
	}
}

var names = []string{"a.example.", "b.example.", "a.b.example.", "example.", "x\\.y.example.", "z\\000\\255.example.", "www.a-rather-long-label-used-to-make-the-name-longer-than-usual00.example."}

// randQuery draws from a small space so that near-identical queries meet.
func randQuery(rnd *rand.Rand, exotic bool) *dns.Msg {
	q := new(dns.Msg)
	q.Id = uint16(rnd.Intn(65536))
	q.RecursionDesired = rnd.Intn(6) != 0
	q.AuthenticatedData = rnd.Intn(6) == 0
	name := names[0]
	if rnd.Intn(2) == 0 {
		name = names[rnd.Intn(len(names))]
	}
	if rnd.Intn(3) == 0 {
		name = vt.MixCase(rnd, name)
	}
	qt := vt.Pick(rnd, dns.TypeA, dns.TypeA, dns.TypeAAAA, dns.TypeTXT, dns.TypeMX, dns.TypeANY)
	qc := uint16(dns.ClassINET)
	if rnd.Intn(8) == 0 {
		qc = dns.ClassCHAOS
	}
	q.Question = []dns.Question{{Name: name, Qtype: qt, Qclass: qc}}
	q.CheckingDisabled = rnd.Intn(5) == 0
	switch rnd.Intn(6) {
	case 0:
		q.SetEdns0(4096, true)
	case 1:
		q.SetEdns0(1232, false)
	case 2:
		q.SetEdns0(1232, rnd.Intn(3) == 0)
		switch rnd.Intn(7) {
		case 0:
			vt.AddECS(q, "192.0.2.0", 24)
		case 1:
			vt.AddECS(q, "192.0.2.0", 25)
		case 2:
			vt.AddECS(q, "198.51.100.0", 24)
		case 3:
			vt.AddECS(q, "2001:db8::", 56)
		case 4:
			vt.AddECS(q, "2001:db8:0:100::", 56)
		case 5:
			vt.AddECS(q, "0.0.0.0", 0)
		case 6:
			vt.AddECS(q, "::", 0)
		}
	}
	if exotic && rnd.Intn(8) == 0 {
		switch rnd.Intn(3) {
		case 0:
			q.Opcode = dns.OpcodeNotify
		case 1:
			q.Opcode = dns.OpcodeUpdate
		case 2:
			q.Question = append(q.Question, dns.Question{Name: names[rnd.Intn(2)], Qtype: dns.TypeA, Qclass: dns.ClassINET})
		}
	}
	return q
}

func randOptions(rnd *rand.Rand) rdns.CacheOptions {
	opt := rdns.CacheOptions{}
	switch rnd.Intn(4) {
	case 0:
		opt.NegativeTTL = uint32(1 + rnd.Intn(120))
	case 1:
		opt.NegativeTTL = vt.Pick(rnd, uint32(299), 300, 301, 900, 7200)
	}
	if rnd.Intn(3) == 0 {
		opt.CacheRcodeMaxTTL = map[int]uint32{}
		for _, rc := range []int{0, 1, 2, 3, 4, 5} {
			if rnd.Intn(3) == 0 {
				opt.CacheRcodeMaxTTL[rc] = vt.Pick(rnd, uint32(0), 1, 10, 45, 400)
			}
		}
	}
	switch rnd.Intn(5) {
	case 0:
		opt.ShuffleAnswerFunc = rdns.AnswerShuffleRandom
	case 1:
		opt.ShuffleAnswerFunc = rdns.AnswerShuffleRoundRobin
	}
	return opt
}

var _ = testing.Short
var _ = synctest.Wait
