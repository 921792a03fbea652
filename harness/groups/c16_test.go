package groups

import (
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

type prefetched struct {
	name     string
	ttl      uint32
	kind     string // of the answers
	asked    []time.Time
	again    []time.Time // queries by the element itself
	queries  map[string]bool
	good     []bool // whether those got a usable answer
	refused  bool   // the last repetition was not a usable answer
	lastKept time.Time
}

// TestC16: the prefetch element repeats popular queries and nothing else.
func TestC16(t *testing.T) {
	r := vt.Start(t, "C16", "one name per evaluation with its whole history of queries; non-trivial when it was repeated in the background, distinct by (threshold, window, TTL, kind of answer)")
	r.Need("client queries", 5000)
	r.Need("repeated queries", 1000)
	r.Need("names repeated", 100)
	r.Need("names never repeated", 200)
	r.Need("disabled elements", 5)
	vt.Virtual(t, r, func(t *testing.T) {
		for c := 0; c < r.N(60, 1500); c++ {
			prefetchCase(r, c)
		}
		for c := 0; c < r.N(2, 20); c++ {
			prefetchMany(r, c)
		}
	})
}

func prefetchCase(r *vt.R, c int) {
	rnd := r.Rand("prefetch", c)
	label := fmt.Sprintf("prefetch case %d", c)
	r.Case("%s", label)
	opt := rdns.PrefetchOptions{
		PrefetchWindow:    vt.Pick(rnd, 0, time.Minute, 5*time.Minute),
		PrefetchThreshold: vt.Pick[uint64](rnd, 0, 1, 2, 3, 7),
		PrefetchMaxItems:  vt.Pick(rnd, 1000, 1000, 1000, 3, 0),
	}
	window, threshold := opt.PrefetchWindow, int(opt.PrefetchThreshold)
	if window == 0 {
		window = time.Hour
	}
	if threshold == 0 {
		threshold = 5
	}
	const slack = 10*time.Second + 10*time.Millisecond // expiry is noticed every 10 s
	var mu sync.Mutex
	names := map[string]*prefetched{}
	var order []*prefetched
	batch := map[string]bool{}
	var batchAt time.Time
	up := &vt.Func{Name: "up", F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		mu.Lock()
		defer mu.Unlock()
		p := names[q.Question[0].Name]
		if p == nil {
			r.Violation("unknown", "upstream was asked for "+q.Question[0].Name, label)
			return nil, nil
		}
		kind := p.kind
		if ci.Listener == "prefetch" {
			p.again = append(p.again, time.Now())
			r.Observe("repeated queries", 1)
			x := q.Copy()
			x.Id = 0
			if !p.queries[vt.CanonID(x)] {
				r.Violation("other-query", fmt.Sprintf("prefetch sent %s, which no client sent", vt.CanonID(x)), label)
			}
			if time.Since(batchAt) > time.Second {
				batch, batchAt = map[string]bool{}, time.Now()
			}
			batch[p.name] = true
			if opt.PrefetchMaxItems > 0 && len(batch) > opt.PrefetchMaxItems {
				r.Violation("too-many", fmt.Sprintf("%d names are prefetched, the limit is %d", len(batch), opt.PrefetchMaxItems), label)
			}
			if kind == "later-bad" {
				kind = vt.Pick(rnd2(r, c, len(p.again)), "err", "drop", "nx", "tc", "short")
			}
			p.refused = kind != "ok"
			p.good = append(p.good, kind == "ok")
		}
		a := new(dns.Msg)
		a.SetReply(q)
		a.Answer = append(a.Answer, vt.RR("%s %d IN A 192.0.2.1", p.name, p.ttl+5), vt.RR("%s %d IN A 192.0.2.2", p.name, p.ttl))
		switch kind {
		case "err":
			return nil, errors.New("failed")
		case "drop":
			return nil, nil
		case "nx":
			a.Rcode = dns.RcodeNameError
		case "tc":
			a.Truncated = true
		case "short":
			a.Answer[0].Header().Ttl = 1
		}
		return a, nil
	}}
	g := rdns.NewPrefetch(fmt.Sprintf("prefetch-%d", c), up, opt)
	time.Sleep(time.Duration(1+2*rnd.Intn(5000)) * time.Millisecond)
	for i := 0; i < 16; i++ {
		p := &prefetched{
			name:    fmt.Sprintf("n%d.test.", i),
			ttl:     vt.Pick[uint32](rnd, 2, 9, 30, 100),
			kind:    vt.Pick(rnd, "ok", "ok", "ok", "later-bad", "err", "drop", "nx", "tc", "short"),
			queries: map[string]bool{},
		}
		names[p.name] = p
		order = append(order, p)
	}
	// usable answers, which are those that count
	counts := func(p *prefetched) bool { return p.kind == "ok" || p.kind == "later-bad" }
	// chain of the client queries that led to t
	chain := func(p *prefetched, t time.Time, gap time.Duration) (n int, last time.Time) {
		for i := len(p.asked) - 1; i >= 0; i-- {
			if p.asked[i].After(t) {
				continue
			}
			if n > 0 && last.Sub(p.asked[i]) > gap {
				break
			}
			if n > 0 {
				last = p.asked[i]
			} else {
				last = p.asked[i]
			}
			n++
		}
		for i := len(p.asked) - 1; i >= 0; i-- {
			if !p.asked[i].After(t) {
				return n, p.asked[i]
			}
		}
		return 0, time.Time{}
	}
	for step := 0; step < 150; step++ {
		p := order[rnd.Intn(1+rnd.Intn(len(order)))]
		q := vt.Query(p.name, dns.TypeA)
		q.Id = uint16(rnd.Intn(65536))
		q.SetEdns0(1232, false)
		x := q.Copy()
		x.Id = 0
		mu.Lock()
		p.queries[vt.CanonID(x)] = true
		p.asked = append(p.asked, time.Now())
		p.refused = false
		mu.Unlock()
		a, err := g.Resolve(q, rdns.ClientInfo{Listener: "l"})
		r.Observe("client queries", 1)
		ok := false
		switch p.kind {
		case "err":
			ok = err != nil
		case "drop":
			ok = err == nil && a == nil
		default:
			ok = err == nil && a != nil && a.Id == q.Id && len(a.Answer) == 2 && a.Answer[1].Header().Ttl == p.ttl &&
				(a.Rcode != 0) == (p.kind == "nx") && a.Truncated == (p.kind == "tc")
		}
		if !ok {
			r.Violation("result", fmt.Sprintf("a client got %v %v through prefetch, upstream's answer was %q", a, err, p.kind), label)
			return
		}
		// query and answer are the client's from here on
		q.Id++
		q.Question[0].Name, q.Question[0].Qtype = "elsewhere.test.", dns.TypeMX
		q.Extra[0].Header().Class = 77
		q.Extra = nil
		if a != nil {
			a.Rcode = dns.RcodeRefused
			for _, rr := range a.Answer {
				rr.Header().Ttl, rr.Header().Name = 0, "elsewhere.test."
			}
		}
		d := time.Duration(2*rnd.Intn(2000)) * time.Millisecond
		if rnd.Intn(12) == 0 {
			d = time.Duration(2*rnd.Intn(120000)) * time.Millisecond
		}
		if rnd.Intn(40) == 0 {
			d = window + 2*slack
		}
		time.Sleep(d)
		// whoever must be repeated by now
		mu.Lock()
		now := time.Now()
		for _, p := range order {
			if !counts(p) || len(p.asked) == 0 || p.refused || opt.PrefetchMaxItems < 1000 {
				continue
			}
			n, last := chain(p, now, window-time.Millisecond)
			if n < threshold || now.Sub(last) >= window {
				continue
			}
			if len(p.again) > 0 && p.again[len(p.again)-1].After(last) {
				last = p.again[len(p.again)-1]
			}
			if due := time.Duration(p.ttl)*time.Second + slack; now.Sub(last) > due {
				r.Violation("not-repeated", fmt.Sprintf("%s was asked %d times (threshold %d, window %v) and not repeated for %v with a TTL of %d s", p.name, n, threshold, window, now.Sub(last), p.ttl), label)
				mu.Unlock()
				return
			}
		}
		mu.Unlock()
	}
	time.Sleep(window + 5*time.Minute)
	mu.Lock()
	defer mu.Unlock()
	if opt.PrefetchMaxItems == 0 {
		r.Observe("disabled elements", 1)
	}
	for _, p := range order {
		if len(p.asked) == 0 {
			continue
		}
		if len(p.again) == 0 {
			r.Observe("names never repeated", 1)
			continue
		}
		if opt.PrefetchMaxItems == 0 {
			r.Violation("disabled", "prefetch sent queries although it is disabled (prefetch-max-items is not set)", label)
			return
		}
		r.Observe("names repeated", 1)
		r.Eval(fmt.Sprintf("thr%d win%v ttl%d %s max%d", threshold, window, p.ttl, p.kind, opt.PrefetchMaxItems))
		if !counts(p) {
			r.Violation("unusable", fmt.Sprintf("%s was repeated though its answers are %q", p.name, p.kind), label)
			return
		}
		for i, at := range p.again {
			n, last := chain(p, at, window+slack)
			if n < threshold {
				r.Violation("unpopular", fmt.Sprintf("%s was repeated after only %d queries (threshold %d)", p.name, n, threshold), label)
				return
			}
			if at.Sub(last) > window+slack {
				r.Violation("forgotten", fmt.Sprintf("%s was repeated %v after the last client query, the window is %v", p.name, at.Sub(last), window), label)
				return
			}
			prev := last
			if i > 0 && !p.good[i-1] && p.again[i-1].After(last) {
				r.Violation("unusable", fmt.Sprintf("%s was repeated although the previous repetition got an unusable answer and nobody asked since", p.name), label)
				return
			}
			if i > 0 && p.again[i-1].After(last) {
				prev = p.again[i-1]
			}
			if d := at.Sub(prev); d < time.Duration(p.ttl)*time.Second {
				r.Violation("early", fmt.Sprintf("%s was repeated %v after its last answer with TTL %d", p.name, d, p.ttl), label)
				return
			}
		}
	}
}

// prefetchMany: very many popular names, of which none is forgotten as long as
// they are well below the configured number.
func prefetchMany(r *vt.R, c int) {
	rnd := r.Rand("many", c)
	label := fmt.Sprintf("prefetch of many names %d", c)
	r.Case("%s", label)
	const items = 3000
	names := items * 4 / 10
	threshold := 2 + c%3
	var mu sync.Mutex
	again := map[string]int{}
	up := &vt.Func{Name: "up", F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		if ci.Listener == "prefetch" {
			mu.Lock()
			again[q.Question[0].Name]++
			mu.Unlock()
		}
		a := new(dns.Msg)
		a.SetReply(q)
		a.Answer = append(a.Answer, vt.RR("%s 60 IN A 192.0.2.1", q.Question[0].Name))
		return a, nil
	}}
	g := rdns.NewPrefetch(fmt.Sprintf("prefetch-many-%d", c), up, rdns.PrefetchOptions{
		PrefetchWindow: 10 * time.Minute, PrefetchThreshold: uint64(threshold), PrefetchMaxItems: items})
	for i := 0; i < threshold; i++ {
		for _, n := range rnd.Perm(names) {
			g.Resolve(vt.Query(fmt.Sprintf("n%d.test.", n), dns.TypeA), rdns.ClientInfo{Listener: "l"})
		}
		time.Sleep(2 * time.Second)
	}
	time.Sleep(80 * time.Second)
	mu.Lock()
	r.Observe("popular names at once", names)
	r.Eval(fmt.Sprintf("many thr%d", threshold))
	if len(again) != names {
		r.Violation("forgotten", fmt.Sprintf("only %d of %d popular names were repeated, the limit is %d", len(again), names, items), label)
	}
	mu.Unlock()
	time.Sleep(20 * time.Minute)
}

func rnd2(r *vt.R, a, b int) *rand.Rand { return r.Rand("prefetch-bad", a, b) }
