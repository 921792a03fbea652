package cache

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// TestC03: bounded size, least-recently-used eviction, flush.
func TestC03(t *testing.T) {
	r := vt.Start(t, "C03", "histories of queries over more names than the capacity against a reference LRU list; non-trivial when the expected outcome is a hit or an eviction, distinct by (capacity, position in the list, outcome)")
	r.Need("hits required", 3000)
	r.Need("evictions", 3000)
	r.Need("flushes", 50)
	r.Need("size samples", 1000)
	r.Need("entries collected", 100)
	r.Need("entries stored again", 200)
	vt.Virtual(t, r, func(t *testing.T) {
		lruSequential(r, r.N(80, 1500))
		lruOverlap(r, r.N(100, 3000))
		lruConcurrent(r, r.N(25, 400))
		collected(r, r.N(20, 200))
	})
}

// stamp answers every query with a unique address and a long TTL.
type stamp struct {
	mu    sync.Mutex
	n     int
	ttl   uint32
	delay func() time.Duration
	made  map[string]int // answer -> sequence number
}

func (s *stamp) Resolve(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
	s.mu.Lock()
	s.n++
	n := s.n
	s.mu.Unlock()
	if s.delay != nil {
		time.Sleep(s.delay())
	}
	a := new(dns.Msg)
	a.SetReply(q)
	a.Answer = append(a.Answer, vt.RR("%s %d IN TXT \"%d\"", q.Question[0].Name, s.ttl, n))
	return a, nil
}
func (s *stamp) String() string { return "stamp" }
func (s *stamp) count() int     { s.mu.Lock(); defer s.mu.Unlock(); return s.n }

func stampOf(a *dns.Msg) string {
	if a == nil || len(a.Answer) != 1 {
		return ""
	}
	return a.Answer[0].(*dns.TXT).Txt[0]
}

func lruSequential(r *vt.R, cases int) {
	for c := 0; c < cases; c++ {
		rnd := r.Rand("lru", c)
		capacity := 1 + rnd.Intn(12)
		if c%10 == 9 {
			capacity = 0 // unlimited
		}
		names := max(capacity, 4) + rnd.Intn(max(capacity, 4)+2)
		up := &stamp{ttl: 1000000}
		backend := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Capacity: capacity})
		cache := rdns.NewCache(fmt.Sprintf("lru%d", c), up, rdns.CacheOptions{Backend: backend, FlushQuery: "flush.cache."})
		var list []string // most recent first
		val := map[string]string{}
		for i := 0; i < 400; i++ {
			label := fmt.Sprintf("lru case %d op %d capacity %d", c, i, capacity)
			r.Case("%s", label)
			if rnd.Intn(5) == 0 {
				time.Sleep(time.Duration(rnd.Intn(90)) * time.Second) // lets the collector run
			}
			if rnd.Intn(120) == 0 {
				a, err := cache.Resolve(vt.Query("flush.cache.", dns.TypeA), rdns.ClientInfo{})
				if err != nil || a == nil || a.Rcode != dns.RcodeSuccess {
					r.Violation("flush-reply", fmt.Sprintf("flush query got %s, %v", vt.Canon(a), err), label)
				}
				if backend.Size() != 0 {
					r.Violation("flush", fmt.Sprintf("%d entries left after a flush", backend.Size()), label)
				}
				list, val = nil, map[string]string{}
				r.Observe("flushes", 1)
				continue
			}
			k := fmt.Sprintf("n%d.example.", rnd.Intn(names))
			pos := -1
			for j, x := range list {
				if x == k {
					pos = j
				}
			}
			before := up.count()
			name := k
			if rnd.Intn(3) == 0 {
				name = strings.ToUpper(k)
			}
			a, err := cache.Resolve(vt.Query(name, dns.TypeTXT), rdns.ClientInfo{})
			if err != nil || a == nil {
				r.Violation("no-answer", fmt.Sprintf("%v %v", a, err), label)
				continue
			}
			asked := up.count() - before
			if pos >= 0 {
				r.Observe("hits required", 1)
				if asked != 0 {
					r.Violation("evicted-early", fmt.Sprintf("%s was the %d. most recently used of %d with room for %d, but is gone", k, pos+1, len(list), capacity), label)
				} else if stampOf(a) != val[k] {
					r.Violation("wrong-entry", fmt.Sprintf("%s got %s, stored was %s", k, stampOf(a), val[k]), label)
				}
				list = append(list[:pos], list[pos+1:]...)
			} else if asked != 1 {
				r.Violation("kept-too-long", fmt.Sprintf("%s should have been evicted or never stored, but %d upstream queries were made (capacity %d)", k, asked, capacity), label)
			}
			val[k] = stampOf(a)
			list = append([]string{k}, list...)
			if capacity > 0 && len(list) > capacity {
				delete(val, list[len(list)-1])
				list = list[:len(list)-1]
				r.Observe("evictions", 1)
			}
			if n := backend.Size(); n != len(list) {
				r.Violation("size", fmt.Sprintf("cache holds %d entries, expected %d (capacity %d)", n, len(list), capacity), label)
				return
			}
			r.Observe("size samples", 1)
			r.Eval(fmt.Sprintf("cap%d pos%d n%d", capacity, pos, names))
			r.State("recency orders", strings.Join(list, ","))
		}
	}
}

// lruConcurrent: the bound holds and a flush takes effect under concurrency.
func lruConcurrent(r *vt.R, cases int) {
	type ev struct {
		start, end time.Time
		name, val  string
		asked      bool
	}
	for c := 0; c < cases; c++ {
		rnd := r.Rand("lruc", c)
		capacity := 1 + rnd.Intn(20)
		drnd := rand.New(rand.NewSource(rnd.Int63()))
		var dmu sync.Mutex
		up := &stamp{ttl: 100000, delay: func() time.Duration {
			dmu.Lock()
			defer dmu.Unlock()
			return time.Duration(drnd.Intn(3)) * 10 * time.Millisecond
		}}
		backend := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Capacity: capacity, GCPeriod: 50 * time.Millisecond})
		cache := rdns.NewCache(fmt.Sprintf("lruc%d", c), up, rdns.CacheOptions{Backend: backend, FlushQuery: "flush.cache."})
		var mu sync.Mutex
		var evs []ev
		var flushes [][2]time.Time
		var wg sync.WaitGroup
		label := fmt.Sprintf("lru concurrent case %d capacity %d", c, capacity)
		r.Case("%s", label)
		for g := 0; g < 8; g++ {
			grnd := rand.New(rand.NewSource(rnd.Int63()))
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 80; i++ {
					if grnd.Intn(2) == 0 {
						time.Sleep(time.Duration(grnd.Intn(20)) * time.Millisecond)
					}
					if g == 0 && grnd.Intn(8) == 0 {
						s := time.Now()
						cache.Resolve(vt.Query("flush.cache.", dns.TypeA), rdns.ClientInfo{})
						mu.Lock()
						flushes = append(flushes, [2]time.Time{s, time.Now()})
						mu.Unlock()
						r.Observe("flushes", 1)
						time.Sleep(time.Millisecond)
						continue
					}
					k := fmt.Sprintf("n%d.example.", grnd.Intn(capacity+4))
					s := time.Now()
					a, _ := cache.Resolve(vt.Query(k, dns.TypeTXT), rdns.ClientInfo{})
					e := ev{s, time.Now(), k, stampOf(a), false}
					if a == nil || len(a.Answer) != 1 || a.Answer[0].Header().Name != k {
						r.Violation("wrong-entry", fmt.Sprintf("%s got %s", k, vt.Canon(a)), label)
					}
					mu.Lock()
					evs = append(evs, e)
					mu.Unlock()
					if n := backend.Size(); n > capacity {
						r.Violation("size", fmt.Sprintf("%d entries in a cache with capacity %d", n, capacity), label)
					}
					r.Observe("size samples", 1)
				}
			}(g)
		}
		wg.Wait()
		// An answer whose fetch was complete before a flush began must not be
		// served to a query that began after the flush. The fetch is complete
		// when the first query served with it returned.
		firstEnd := map[string]time.Time{}
		for _, e := range evs {
			k := e.name + "=" + e.val
			if t, ok := firstEnd[k]; !ok || e.end.Before(t) {
				firstEnd[k] = e.end
			}
		}
		for _, e := range evs {
			fe := firstEnd[e.name+"="+e.val]
			for _, f := range flushes {
				if fe.Before(f[0]) && e.start.After(f[1]) {
					r.Violation("flush", fmt.Sprintf("%s=%s was complete at %v, flushed at %v, and served again at %v", e.name, e.val, fe, f[0], e.start), label)
				}
			}
		}
		r.Eval(fmt.Sprintf("conc cap%d flushes%d", capacity, len(flushes)))
	}
}

// collected: expired entries do not stay for ever.
func collected(r *vt.R, cases int) {
	for c := 0; c < cases; c++ {
		rnd := r.Rand("gc", c)
		period := time.Duration(1+rnd.Intn(120)) * time.Second
		up := &stamp{}
		backend := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{GCPeriod: period})
		cache := rdns.NewCache(fmt.Sprintf("gc%d", c), up, rdns.CacheOptions{Backend: backend})
		type ent struct {
			name string
			exp  time.Time
		}
		var all []ent
		count, pause := 40, 3000
		if c%8 == 3 {
			count, pause = 2500, 10
		}
		for i := 0; i < count; i++ {
			time.Sleep(time.Duration(rnd.Intn(pause)) * time.Millisecond)
			up.ttl = uint32(1 + rnd.Intn(200))
			n := fmt.Sprintf("g%d.example.", i)
			cache.Resolve(vt.Query(n, dns.TypeTXT), rdns.ClientInfo{})
			all = append(all, ent{n, time.Now().Add(time.Duration(up.ttl) * time.Second)})
		}
		time.Sleep(time.Duration(rnd.Intn(250)) * time.Second)
		synctest.Wait()
		label := fmt.Sprintf("collector case %d period %v", c, period)
		r.Case("%s", label)
		// everything that expired more than one period ago is gone, everything
		// still valid is there
		var lo, hi int
		now := time.Now()
		for _, e := range all {
			if e.exp.After(now) {
				lo++
			}
			if e.exp.Add(period).Add(time.Second).After(now) {
				hi++
			}
		}
		n := backend.Size()
		if n < lo || n > hi {
			r.Violation("collector", fmt.Sprintf("%d entries in the cache, %d still valid and at most %d not due for collection", n, lo, hi), label)
		}
		r.Observe("entries collected", len(all)-n)
		r.Eval(fmt.Sprintf("gc %d %d %d", n, lo, hi))
	}
}

// TestC04: synthesised NXDOMAIN only below a cached NXDOMAIN.
func TestC04(t *testing.T) {
	r := vt.Start(t, "C04", "histories over a tree of names, some with escaped dots, where the upstream says NXDOMAIN at random; non-trivial when an answer was given without an upstream query, distinct by (name, deciding ancestor, type)")
	r.Need("synthesised NXDOMAIN", 1000)
	r.Need("required synthesis", 500)
	r.Need("not below", 1000)
	vt.Virtual(t, r, func(t *testing.T) {
		for c := 0; c < r.N(150, 3000); c++ {
			hardenCase(r, c)
		}
	})
}

// labels in wire terms: an escaped dot is part of a label.
var treeLabels = []string{"a", "b", "a\\.b", "c", "a\\\\", "b\\046c", "\\000", "ab"}

func hardenCase(r *vt.R, c int) {
	rnd := r.Rand("harden", c)
	on := c%6 != 0
	opt := rdns.CacheOptions{HardenBelowNXDOMAIN: on}
	w := newWorld(rnd, opt)
	w.errRate = 2
	cache := rdns.NewCache(fmt.Sprintf("hard%d", c), w, opt)
	stored := map[string]*produced{}
	for i := 0; i < 200; i++ {
		if rnd.Intn(4) == 0 {
			time.Sleep(steps[rnd.Intn(len(steps))])
		}
		depth := rnd.Intn(4)
		parts := []string{vt.Pick(rnd, "example", "com")}
		for d := 0; d < depth; d++ {
			parts = append([]string{treeLabels[rnd.Intn(len(treeLabels))]}, parts...)
		}
		plain := make([]string, len(parts))
		copy(plain, parts)
		name := strings.Join(parts, ".") + "."
		if rnd.Intn(40) == 0 {
			name, parts = ".", nil
		}
		q := vt.Query(name, vt.Pick(rnd, dns.TypeA, dns.TypeA, dns.TypeAAAA))
		if rnd.Intn(4) == 0 {
			q.Question[0].Name = vt.MixCase(rnd, name)
		}
		if rnd.Intn(6) == 0 {
			q.SetEdns0(1232, true)
		}
		q.CheckingDisabled = rnd.Intn(8) == 0
		q0 := q.Copy()
		k := keyOf(q0)
		tok := nextToken()
		label := fmt.Sprintf("harden case %d op %d %s", c, i, k)
		r.Case("%s", label)
		now := time.Now()
		res, ok := vt.ResolveVirtual(cache, q, rdns.ClientInfo{DoHPath: tok}, time.Hour)
		if !ok {
			r.Violation("hang", "the query never completes", label)
			return
		}
		w.mu.Lock()
		asked := w.calls[tok]
		w.mu.Unlock()
		ancestor := func(n int, typ uint16) string {
			x := q0.Copy()
			x.Question[0].Name = strings.Join(parts[n:], ".") + "."
			x.Question[0].Qtype = typ
			return keyOf(x)
		}
		live := func(key string) *produced {
			p := stored[key]
			if p != nil && now.Sub(p.at) < p.life {
				return p
			}
			return nil
		}
		if own := live(k); own != nil || asked > 0 || !on {
			w.judge(r, q0, tok, res, now, label)
		} else {
			// answered without upstream and without an entry of its own
			just := ""
			for n := 1; n < len(parts); n++ {
				for _, ty := range []uint16{dns.TypeA, dns.TypeAAAA} {
					// within its last instant an entry may or may not serve
					p := stored[ancestor(n, ty)]
					if p != nil && p.msg.Rcode == dns.RcodeNameError && now.Sub(p.at) <= p.life {
						just = ancestor(n, ty)
					}
				}
			}
			a := res.A
			switch {
			case a == nil || res.Err != nil:
				r.Violation("no-answer", fmt.Sprintf("%v %v", a, res.Err), label)
			case own == nil && a.Rcode == dns.RcodeNameError && just != "" && len(a.Answer) == 0:
				if a.Id != q0.Id || len(a.Question) != 1 || a.Question[0] != q0.Question[0] || !a.Response {
					r.Violation("reply", "synthesised answer does not match the query: "+vt.CanonID(a)+" for "+vt.CanonID(q0), label)
				}
				r.Observe("synthesised NXDOMAIN", 1)
				r.Eval("syn " + k + " by " + just)
			case stored[k] != nil && now.Sub(stored[k].at) <= stored[k].life:
				w.judge(r, q0, tok, res, now, label)
			default:
				r.Violation("unjustified", fmt.Sprintf("%s got %s with no upstream query although no NXDOMAIN is cached above it", k, vt.Canon(a)), label)
			}
		}
		// The closest cached name above decides.
		if on && live(k) == nil && stored[k] == nil {
			need := ""
			for n := 1; n < len(parts); n++ {
				p := stored[ancestor(n, q0.Question[0].Qtype)]
				if p == nil {
					continue
				}
				if now.Sub(p.at) < p.life && p.msg.Rcode == dns.RcodeNameError {
					need = ancestor(n, q0.Question[0].Qtype)
				}
				break
			}
			if need != "" {
				r.Observe("required synthesis", 1)
				if asked > 0 {
					r.Violation("not-hardened", fmt.Sprintf("%s was sent upstream although NXDOMAIN is cached for %s", k, need), label)
				}
			} else {
				r.Observe("not below", 1)
			}
		}
		if !on {
			r.Observe("option off", 1)
		}
		if asked > 0 {
			w.mu.Lock()
			ps := w.byKey[k]
			if len(ps) > 0 && ps[len(ps)-1].token == tok && ps[len(ps)-1].store {
				stored[k] = ps[len(ps)-1]
			}
			w.mu.Unlock()
		}
	}
}
