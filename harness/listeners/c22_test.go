package listeners

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// TestC22: every query gets exactly the answer it should, once.
func TestC22(t *testing.T) {
	r := vt.Start(t, "C22", "one query per evaluation, many overlapping per connection; non-trivial always, distinct by (listener, result of the resolver, opcode, EDNS0, rcode, pipelined or not)")
	for _, k := range kinds {
		r.Need("answers "+k, 100)
		r.Need("failures "+k, 10)
		r.Need("drops "+k, 5)
	}
	r.Need("answers out of order", 50)
	for k, n := range largest {
		if n > 512 {
			r.Need("large queries "+k, 5)
		}
	}
	r.Need("answers after seconds", int64(len(kinds)))
	r.Need("queries that overtook others", int64(len(kinds)-3))
	r.Need("queries in pieces", int64(len(kinds)-2))
	for c := 0; c < r.N(1, 4); c++ {
		var wg sync.WaitGroup
		for _, k := range kinds {
			wg.Add(1)
			go func() { defer wg.Done(); slowCase(r, k, c) }()
		}
		wg.Wait()
	}
	for c := 0; c < r.N(8, 150); c++ {
		for _, k := range kinds {
			replyCase(r, k, c)
		}
	}
	r.Exit()
}

// randAnswer makes an answer with all the sections and flags there are.
func randAnswer(rnd *rand.Rand, q *dns.Msg, n int) *dns.Msg {
	a := new(dns.Msg)
	a.SetReply(q)
	a.Rcode = vt.Pick(rnd, 0, 0, 0, 2, 3, 5, 9, 4)
	a.Authoritative, a.RecursionAvailable, a.AuthenticatedData, a.CheckingDisabled = rnd.Intn(2) == 0, rnd.Intn(2) == 0, rnd.Intn(2) == 0, rnd.Intn(2) == 0
	rr := func() dns.RR {
		name := vt.Pick(rnd, q.Question[0].Name, "x."+q.Question[0].Name, strings.ToLower(vt.Label(rnd, 8))+".other.test.")
		return vt.Pick(rnd,
			vt.RR("%s %d IN A 192.0.2.%d", name, rnd.Intn(100000), rnd.Intn(256)),
			vt.RR("%s %d IN AAAA 2001:db8::%x", name, rnd.Intn(100000), rnd.Intn(65536)),
			vt.RR("%s %d IN TXT %q", name, rnd.Intn(100000), strings.Repeat(vt.Label(rnd, 5), 1+rnd.Intn(20))),
			vt.RR("%s %d IN CNAME %s.cname.test.", name, rnd.Intn(100000), vt.Label(rnd, 5)),
			vt.RR("%s %d IN SOA ns.test. host.test. %d 2 3 4 5", name, rnd.Intn(100000), rnd.Intn(1000)),
			vt.RR("%s %d IN SVCB 1 . alpn=h2", name, rnd.Intn(100000)),
			vt.RR("%s %d IN TYPE65400 \\# 3 010203", name, rnd.Intn(100000)))
	}
	for i := rnd.Intn(n + 1); i > 0; i-- {
		a.Answer = append(a.Answer, rr())
	}
	for i := rnd.Intn(3); i > 0; i-- {
		a.Ns = append(a.Ns, rr())
	}
	for i := rnd.Intn(3); i > 0; i-- {
		a.Extra = append(a.Extra, rr())
	}
	if q.IsEdns0() != nil && rnd.Intn(3) > 0 {
		a.SetEdns0(uint16(512+rnd.Intn(4000)), rnd.Intn(2) == 0)
		o := a.IsEdns0()
		if rnd.Intn(2) == 0 {
			o.Option = append(o.Option, &dns.EDNS0_EDE{InfoCode: 15, ExtraText: vt.Label(rnd, 6)})
		}
		if rnd.Intn(3) == 0 {
			o.Option = append(o.Option, &dns.EDNS0_PADDING{Padding: make([]byte, rnd.Intn(300))})
		}
	}
	return a
}

// sansPadding is the canonical form without padding, and without an OPT
// record when it holds nothing else and the model has none.
func sansPadding(m *dns.Msg, dropOPT bool) string {
	m = m.Copy()
	var extra []dns.RR
	for _, rr := range m.Extra {
		if o, ok := rr.(*dns.OPT); ok {
			var opts []dns.EDNS0
			for _, e := range o.Option {
				if e.Option() != dns.EDNS0PADDING {
					opts = append(opts, e)
				}
			}
			o.Option = opts
			if dropOPT && len(opts) == 0 {
				continue
			}
		}
		extra = append(extra, rr)
	}
	m.Extra = extra
	return vt.CanonID(m)
}

// slowCase: answers that take their time, and queries that arrive bit by bit.
func slowCase(r *vt.R, kind string, c int) {
	rnd := r.Rand("slow", kind, c)
	label := fmt.Sprintf("slow %s %d", kind, c)
	b := newBackend()
	s := start(r, kind, fmt.Sprintf("slow-%s-%d", kind, c), config{odohMode: "target"}, b)
	if s == nil {
		return
	}
	defer s.stop()
	try := func(what string, n int, delay time.Duration, pieces int) {
		var last outcome
		for i := 0; i < n; i++ { // some may fail if the machine is slow
			cl, err := dial(s, loopIP(rnd), "a.test", func(w string) { r.Violation("stray", kind+": "+w, label) })
			if err != nil {
				r.Violation("no-connection", fmt.Sprintf("%s: %v", kind, err), label)
				return
			}
			tok := fmt.Sprintf("%s-%d-%s", what, i, strings.ToLower(vt.Label(rnd, 6)))
			b.set(tok, func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
				time.Sleep(delay)
				return answerFor(tok)(q, ci)
			})
			q := vt.Query(tok+".slow.test.", dns.TypeA)
			raw, _ := q.Pack()
			last = cl.ask(request{raw: raw, get: pieces == 0 && kind != "odoh" && rnd.Intn(2) == 0, pieces: pieces})
			cl.close()
			r.Eval(fmt.Sprintf("%s %s", kind, what))
			if hasAnswer(last.msg(), tok) {
				r.Observe(map[bool]string{true: "queries in pieces", false: "answers after seconds"}[pieces > 0], 1)
				return
			}
		}
		r.Violation("not-answered", fmt.Sprintf("%s, %s: %s", kind, what, last), label)
	}
	try("late", 3, 2500*time.Millisecond, 0)
	if kind != "udp" && kind != "dtls" {
		try("pieces", 6, 0, 4)
	}
	if kind == "tcp" || kind == "dot" || kind == "dtls" { // these take one query at a time
		return
	}
	// queries of one connection do not wait for each other
	cl, err := dial(s, loopIP(rnd), "a.test", func(w string) { r.Violation("stray", kind+": "+w, label) })
	if err != nil {
		r.Violation("no-connection", fmt.Sprintf("%s: %v", kind, err), label)
		return
	}
	defer cl.close()
	gate := make(chan struct{})
	const held = 12
	var wg sync.WaitGroup
	var waiting atomic.Int64
	for i := 0; i <= held; i++ {
		tok := fmt.Sprintf("held%d-%s", i, strings.ToLower(vt.Label(rnd, 6)))
		b.set(tok, func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			if i < held {
				waiting.Add(1)
				<-gate
			}
			return answerFor(tok)(q, ci)
		})
		q := vt.Query(tok+".slow.test.", dns.TypeA)
		q.Id = uint16(5000 + i)
		raw, _ := q.Pack()
		if i == held {
			for k := 0; k < 500 && waiting.Load() < held; k++ {
				time.Sleep(2 * time.Millisecond)
			}
			o := cl.ask(request{raw: raw})
			if !hasAnswer(o.msg(), tok) {
				r.Violation("blocked", fmt.Sprintf("%s: with %d queries of the same connection waiting for the resolver another one got %s", kind, held, o), label)
			} else {
				r.Observe("queries that overtook others", 1)
			}
			break
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			if o := cl.ask(request{raw: raw}); !hasAnswer(o.msg(), tok) {
				r.Violation("not-answered", fmt.Sprintf("%s, held: %s", kind, o), label)
			}
		}()
	}
	close(gate)
	wg.Wait()
}

// how large an option a query can carry
var largest = map[string]int{"udp": 350, "dtls": 3500, "odoh": 3500, "tcp": 64000, "dot": 64000, "doh": 64000, "doh-plain": 64000, "doh3": 64000, "doq": 64000}

func replyCase(r *vt.R, kind string, c int) {
	rnd := r.Rand("reply", kind, c)
	label := fmt.Sprintf("reply %s %d", kind, c)
	r.Case("%s", label)
	b := newBackend()
	s := start(r, kind, "reply-"+kind, config{odohMode: "target"}, b)
	if s == nil {
		return
	}
	defer s.stop()
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		seed := rnd.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rnd := rand.New(rand.NewSource(seed))
			var clMu sync.Mutex
			open := func() *client {
				cl, err := dial(s, loopIP(rnd), vt.Pick(rnd, "a.test", "b.test"), func(w string) { r.Violation("stray", kind+": "+w, label) })
				if err != nil {
					r.Violation("no-connection", fmt.Sprintf("%s: %v", kind, err), label)
					return nil
				}
				return cl
			}
			cl := open()
			if cl == nil {
				return
			}
			defer func() { cl.close() }()
			var order []int
			var owg sync.WaitGroup
			id := uint16(rnd.Intn(60000))
			for i := 0; i < 8; i++ {
				tok := fmt.Sprintf("w%d-%d-%s", w, i, strings.ToLower(vt.Label(rnd, 6)))
				name := vt.MixCase(rnd, tok+".reply.test.")
				q := vt.Query(name, vt.Pick(rnd, dns.TypeA, dns.TypeTXT, dns.TypeHTTPS, uint16(65400)))
				id += uint16(1 + rnd.Intn(50))
				q.Id = id
				q.RecursionDesired, q.CheckingDisabled, q.AuthenticatedData = rnd.Intn(4) > 0, rnd.Intn(4) == 0, rnd.Intn(4) == 0
				if rnd.Intn(8) == 0 {
					q.Question[0].Qclass = dns.ClassCHAOS
				}
				if rnd.Intn(2) == 0 {
					q.SetEdns0(4096, rnd.Intn(2) == 0)
					if rnd.Intn(3) == 0 {
						q.IsEdns0().Option = append(q.IsEdns0().Option, &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "0102030405060708"})
					}
					if rnd.Intn(4) == 0 {
						size := rnd.Intn(vt.Pick(rnd, 400, 3500, largest[kind]))
						size = min(size, largest[kind])
						data := make([]byte, size)
						rnd.Read(data)
						q.IsEdns0().Option = append(q.IsEdns0().Option, &dns.EDNS0_LOCAL{Code: 65001, Data: data})
						if size > 512 {
							r.Observe("large queries "+kind, 1)
						}
					}
				}
				switch kind {
				case "doh", "doh-plain", "doh3", "doq", "odoh":
					if rnd.Intn(6) == 0 {
						q.Opcode = vt.Pick(rnd, dns.OpcodeNotify, dns.OpcodeUpdate, dns.OpcodeStatus)
					}
				default:
					if rnd.Intn(6) == 0 {
						q.Opcode = dns.OpcodeNotify
					}
				}
				raw, err := q.Pack()
				if err != nil {
					r.Inconclusive("query: %v", err)
					return
				}
				sent := new(dns.Msg)
				sent.Unpack(raw)
				what := vt.Pick(rnd, "answer", "answer", "answer", "answer", "fail", "drop")
				delay := time.Duration(rnd.Intn(12)) * time.Millisecond
				n := 5
				if kind == "udp" || kind == "dtls" {
					n = 1 // keep within the size limit
				}
				plan := randAnswer(rnd, sent, n)
				if (kind == "udp" || kind == "dtls") && plan.Len() > 480 {
					plan.Answer, plan.Ns = nil, nil
					if plan.Len() > 480 {
						plan.Extra = nil
					}
				}
				// what arrives is what was packed
				wire, err := plan.Pack()
				if err != nil {
					r.Inconclusive("answer: %v", err)
					return
				}
				plan = new(dns.Msg)
				plan.Unpack(wire)
				b.set(tok, func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
					time.Sleep(delay)
					switch what {
					case "fail":
						return nil, errors.New("failed")
					case "drop":
						return nil, nil
					}
					a := new(dns.Msg)
					return a, a.Unpack(wire)
				})
				req := request{raw: raw, get: kind != "odoh" && rnd.Intn(2) == 0}
				one := func(cl *client, idx int) {
					o := cl.ask(req)
					if what != "drop" {
						clMu.Lock()
						order = append(order, idx)
						clMu.Unlock()
					}
					judgeReply(r, kind, what, label, sent, plan, o, b.saw(tok))
				}
				if what == "drop" {
					// a drop may end the connection
					dcl := open()
					if dcl == nil {
						return
					}
					begin := time.Now()
					req.patience = func() bool {
						return len(b.saw(tok)) > 0 && time.Since(begin) > 100*time.Millisecond || time.Since(begin) > vt.HangLimit
					}
					one(dcl, i)
					dcl.close()
					continue
				}
				if rnd.Intn(4) == 0 {
					owg.Wait()
					one(cl, i)
					continue
				}
				owg.Add(1)
				go func() { defer owg.Done(); one(cl, i) }()
			}
			owg.Wait()
			for i := 1; i < len(order); i++ {
				if order[i] < order[i-1] {
					r.Observe("answers out of order", 1)
				}
			}
		}()
	}
	wg.Wait()
	// anything that answers twice has had the time to by now
	time.Sleep(5 * time.Millisecond)
}

func judgeReply(r *vt.R, kind, what, label string, sent, plan *dns.Msg, o outcome, saw []seen) {
	edns := sent.IsEdns0() != nil
	r.Eval(fmt.Sprintf("%s %s %d %v %d", kind, what, sent.Opcode, edns, plan.Rcode))
	desc := fmt.Sprintf("%s, %s:\nquery %s\ngot %s", kind, what, vt.CanonID(sent), o)
	if len(saw) == 0 || len(saw) > 1 && kind != "udp" {
		r.Violation("deliveries", fmt.Sprintf("the query reached the resolver %d times; %s", len(saw), desc), label)
		return
	}
	if got := saw[0].q; got != vt.CanonID(sent) {
		r.Violation("query-changed", fmt.Sprintf("the resolver got %s; %s", got, desc), label)
		return
	}
	a := o.msg()
	switch what {
	case "drop":
		r.Observe("drops "+kind, 1)
		if o.raw != nil {
			r.Violation("drop-answered", desc, label)
		} else if strings.HasPrefix(kind, "doh") || kind == "odoh" {
			if o.status == 200 || o.status == 0 {
				r.Violation("drop-status", desc, label)
			}
		}
		return
	case "fail":
		r.Observe("failures "+kind, 1)
		if a == nil || a.Rcode != dns.RcodeServerFailure || !a.Response || a.Id != sent.Id || a.Opcode != sent.Opcode || len(a.Question) != 1 || a.Question[0] != sent.Question[0] || len(a.Answer) > 0 {
			r.Violation("no-servfail", desc, label)
		}
		return
	}
	r.Observe("answers "+kind, 1)
	if a == nil {
		r.Violation("not-answered", desc+"\nexpected "+vt.CanonID(plan), label)
		return
	}
	if strings.HasPrefix(kind, "doh") && o.ctype != "application/dns-message" || kind == "odoh" && o.ctype != "application/oblivious-dns-message" {
		r.Violation("content-type", fmt.Sprintf("%s: %q", kind, o.ctype), label)
	}
	drop := plan.IsEdns0() == nil
	if sansPadding(a, drop) != sansPadding(plan, drop) {
		r.Violation("answer-changed", desc+"\nexpected "+vt.CanonID(plan), label)
	}
}
