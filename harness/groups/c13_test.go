package groups

import (
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// sharable is the part of a query that two queries must agree on to get the
// same answer, as the documentation has it. "" for queries never shared.
func sharable(q *dns.Msg) string {
	if q.Opcode != dns.OpcodeQuery || len(q.Question) != 1 {
		return ""
	}
	x := q.Question[0]
	k := fmt.Sprintf("%s %d %d cd%v", strings.ToLower(x.Name), x.Qtype, x.Qclass, q.CheckingDisabled)
	if o := q.IsEdns0(); o != nil {
		k += fmt.Sprintf(" do%v", o.Do())
		for _, e := range o.Option {
			if s, ok := e.(*dns.EDNS0_SUBNET); ok {
				k += fmt.Sprintf(" ecs%d/%s/%d", s.Family, s.Address, s.SourceNetmask)
			}
		}
	} else {
		k += " dofalse"
	}
	return k
}

type upQuery struct {
	key        string
	start, end time.Time
	token      string
	fails      bool
}

type caller struct {
	q          *dns.Msg
	key        string
	start, end time.Time
	token      string
}

// TestC13: identical queries in flight together are sent upstream once.
func TestC13(t *testing.T) {
	r := vt.Start(t, "C13", "one query per evaluation among overlapping identical and nearly identical ones; non-trivial when it shared somebody else's answer, distinct by (kind of difference, timing)")
	r.Need("shared answers", 3000)
	r.Need("own answers", 3000)
	r.Need("shared errors", 300)
	r.Need("shared drops", 100)
	vt.Virtual(t, r, func(t *testing.T) {
		for c := 0; c < r.N(800, 20000); c++ {
			dedupCase(r, c)
		}
	})
}

func variant(rnd *rand.Rand) *dns.Msg {
	q := vt.Query(vt.MixCase(rnd, vt.Pick(rnd, "a.test.", "b.test.", "a\\.test.", "ab.test.")), vt.Pick(rnd, dns.TypeA, dns.TypeA, dns.TypeAAAA, dns.TypeTXT))
	q.Id = uint16(rnd.Intn(65536))
	q.CheckingDisabled = rnd.Intn(6) == 0
	if rnd.Intn(8) == 0 {
		q.Question[0].Qclass = dns.ClassCHAOS
	}
	if rnd.Intn(15) == 0 {
		q.Opcode = vt.Pick(rnd, dns.OpcodeNotify, dns.OpcodeUpdate)
	}
	if rnd.Intn(20) == 0 {
		q.Question = append(q.Question, dns.Question{Name: "second.test.", Qtype: dns.TypeA, Qclass: 1})
	}
	if rnd.Intn(2) == 0 {
		q.SetEdns0(1232, rnd.Intn(4) == 0)
		if rnd.Intn(2) == 0 {
			switch rnd.Intn(5) {
			case 3:
				vt.AddECS(q, vt.Pick(rnd, "192.0.2.1", "192.0.2.2", "192.0.130.1"), 32)
			case 4:
				vt.AddECS(q, vt.Pick(rnd, "2001:db8::1", "2001:db8::2", "2001:db8:0:1::1"), 128)
			case 0:
				vt.AddECS(q, vt.Pick(rnd, "192.0.2.0", "192.0.3.0", "0.0.0.0"), vt.Pick[uint8](rnd, 24, 23, 0))
			case 1:
				vt.AddECS(q, vt.Pick(rnd, "2001:db8::", "2001:db8:0:0:1::", "2001:db8:1::", "::"), vt.Pick[uint8](rnd, 56, 48, 0))
			case 2: // looks like the other family
				vt.AddECS(q, "::c000:200", 128)
			}
		}
	}
	return q
}

// near returns a query that differs from q in one thing, or not at all.
func near(rnd *rand.Rand, q *dns.Msg) *dns.Msg {
	q = q.Copy()
	q.Id = uint16(rnd.Intn(65536))
	x := &q.Question[0]
	x.Name = vt.MixCase(rnd, x.Name)
	var ecs *dns.EDNS0_SUBNET
	if o := q.IsEdns0(); o != nil {
		for _, e := range o.Option {
			if s, ok := e.(*dns.EDNS0_SUBNET); ok {
				ecs = s
			}
		}
	}
	if ecs != nil && rnd.Intn(2) == 0 {
		bits := 8 * len(ecs.Address)
		if n := rnd.Intn(bits); n < int(ecs.SourceNetmask) && rnd.Intn(2) == 0 {
			ecs.Address = append([]byte(nil), ecs.Address...) // copies of messages share it
			ecs.Address[n/8] ^= 0x80 >> (n % 8)
		} else if int(ecs.SourceNetmask) < bits {
			ecs.SourceNetmask += uint8(1 + rnd.Intn(bits-int(ecs.SourceNetmask)))
		}
		return q
	}
	switch rnd.Intn(8) {
	case 0:
		x.Qtype ^= 1
	case 1:
		x.Qclass ^= 2
	case 2:
		q.CheckingDisabled = !q.CheckingDisabled
	case 3:
		if o := q.IsEdns0(); o != nil {
			o.SetDo(!o.Do())
		}
	case 4:
		q.Extra = nil
	case 5:
		x.Name = "a" + x.Name
	}
	return q
}

func dedupCase(r *vt.R, c int) {
	rnd := r.Rand("dedup", c)
	label := fmt.Sprintf("dedup case %d", c)
	r.Case("%s", label)
	var mu sync.Mutex
	var ups []*upQuery
	byTok := map[string]*upQuery{}
	sent := map[string]string{}
	delays := r.Rand("dedup-delay", c)
	body := func(m *dns.Msg) string { m = m.Copy(); m.Question = nil; m.Id = 0; return vt.CanonID(m) }
	up := &vt.Func{Name: "up", F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		mu.Lock()
		u := &upQuery{key: sharable(q), start: time.Now(), token: strconv.Itoa(len(ups))}
		for _, o := range ups {
			if u.key != "" && o.key == u.key && o.end.IsZero() {
				r.Violation("sent-twice", "the same query is in flight twice: "+u.key, label)
			}
		}
		ups = append(ups, u)
		byTok[u.token] = u
		d := time.Duration(2*delays.Intn(50)) * time.Millisecond
		kind := delays.Intn(10)
		mu.Unlock()
		time.Sleep(d)
		mu.Lock()
		defer mu.Unlock()
		u.end = time.Now()
		switch kind {
		case 0:
			return nil, errors.New("failed " + u.token)
		case 1:
			u.token = "drop"
			return nil, nil
		}
		a := new(dns.Msg)
		a.SetReply(q)
		a.Question = append([]dns.Question(nil), q.Question...)
		a.Answer = append(a.Answer, vt.RR("%s 60 IN TXT %q", q.Question[0].Name, u.token))
		a.Extra = append(a.Extra, vt.RR("x.test. 60 IN A 192.0.2.1"))
		if q.IsEdns0() != nil {
			a.SetEdns0(1232, false)
			a.IsEdns0().Option = append(a.IsEdns0().Option, &dns.EDNS0_EDE{InfoCode: 5, ExtraText: u.token})
		}
		sent[u.token] = body(a)
		return a, nil
	}}
	g := rdns.NewRequestDedup(fmt.Sprintf("dedup-%d", c), up)
	var wg sync.WaitGroup
	var callers []*caller
	for i := 0; i < 60; i++ {
		x := &caller{q: variant(rnd)}
		switch n := len(callers); {
		case rnd.Intn(3) == 0:
			x.q = vt.Query(vt.MixCase(rnd, "a.test."), dns.TypeA)
			x.q.Id = uint16(rnd.Intn(65536))
		case n > 0 && rnd.Intn(3) > 0:
			x.q = near(rnd, callers[n-1-rnd.Intn(min(n, 5))].q)
		}
		x.key = sharable(x.q)
		callers = append(callers, x)
		scribble := rnd.Intn(2) == 0
		wg.Add(1)
		go func() {
			defer wg.Done()
			before := vt.CanonID(x.q)
			x.start = time.Now()
			a, err := g.Resolve(x.q, rdns.ClientInfo{})
			x.end = time.Now()
			mu.Lock()
			defer mu.Unlock()
			if got := vt.CanonID(x.q); got != before {
				r.Violation("query-changed", fmt.Sprintf("the caller's query is %s after the call, was %s", got, before), label)
			}
			switch {
			case err != nil:
				x.token = strings.TrimPrefix(err.Error(), "failed ")
			case a == nil:
				x.token = "drop"
			default:
				x.token = a.Answer[0].(*dns.TXT).Txt[0]
				if a.Id != x.q.Id {
					r.Violation("id", fmt.Sprintf("answer with ID %d to a query with %d", a.Id, x.q.Id), label)
				}
				if fmt.Sprint(a.Question) != fmt.Sprint(x.q.Question) {
					r.Violation("question", fmt.Sprintf("answer with question %v to %v", a.Question, x.q.Question), label)
				}
				if got := body(a); got != sent[x.token] {
					r.Violation("answer-changed", fmt.Sprintf("upstream answered %s, the caller got %s", sent[x.token], got), label)
				}
				if scribble { // what callers do with their answers is their business
					a.Rcode = 9
					a.Answer[0].(*dns.TXT).Txt[0] = "scribbled"
					a.Answer[0].Header().Name = "scribbled."
					a.Extra[0].Header().Ttl = 1
					if o := a.IsEdns0(); o != nil {
						o.Option[0].(*dns.EDNS0_EDE).ExtraText = "scribbled"
					}
					a.Extra = nil
					a.Question = nil
				}
			}
		}()
		time.Sleep(time.Duration(2*rnd.Intn(vt.Pick(rnd, 1, 2, 30))) * time.Millisecond)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(time.Hour):
		r.Violation("hang", "queries did not return although every upstream query was answered", label)
		return
	}
	mu.Lock()
	defer mu.Unlock()
	used := map[*upQuery]int{}
	for _, x := range callers {
		var u *upQuery
		if x.token == "drop" {
			for _, o := range ups {
				if o.token == "drop" && o.key == x.key && !o.start.After(x.end) && o.end.Equal(x.end) {
					u = o
				}
			}
		} else {
			u = byTok[x.token]
		}
		if u == nil {
			r.Violation("foreign-answer", fmt.Sprintf("the result %q was not given by upstream", x.token), label)
			return
		}
		if u.key != x.key {
			r.Violation("wrong-answer", fmt.Sprintf("the query %q got the answer to %q", x.key, u.key), label)
			return
		}
		if u.end.Before(x.start) {
			r.Violation("stale", fmt.Sprintf("a query got the answer to one that had ended %v before it started", x.start.Sub(u.end)), label)
			return
		}
		if x.end.After(u.end) {
			r.Violation("waited", fmt.Sprintf("a query returned %v after its answer was there", x.end.Sub(u.end)), label)
			return
		}
		used[u]++
		if x.key == "" && used[u] > 1 && x.token != "drop" {
			r.Violation("shared", "two queries that are not plain single-question ones shared an answer", label)
			return
		}
		if used[u] > 1 {
			r.Observe("shared answers", 1)
			r.Eval(fmt.Sprintf("shared %v", x.key))
			if _, err := strconv.Atoi(x.token); err != nil {
				r.Observe("shared drops", 1)
			} else if sent[x.token] == "" {
				r.Observe("shared errors", 1)
			}
		} else {
			r.Observe("own answers", 1)
		}
	}
}
