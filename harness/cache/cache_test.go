package cache

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

var opID int

func nextToken() string {
	opID++
	return fmt.Sprintf("op%d", opID)
}

var steps = []time.Duration{0, 0, 0, 100 * time.Millisecond, 900 * time.Millisecond, time.Second, time.Second, 1500 * time.Millisecond, 4 * time.Second,
	29 * time.Second, 59 * time.Second, time.Minute, 61 * time.Second, 299 * time.Second, 301 * time.Second}

// TestC01: whatever is served was fetched for this very question, under
// sequential and concurrent histories.
func TestC01(t *testing.T) {
	r := vt.Start(t, "C01", "random histories of queries from a small space of near-identical questions against a cache whose upstream makes every answer unique; a case is non-trivial when an answer was produced, and distinct by (source, question key, rcode, age)")
	r.Need("answers from cache", 2000)
	r.Need("answers from upstream", 2000)
	r.Need("concurrent histories", 20)
	vt.Virtual(t, r, func(t *testing.T) {
		sequential(r, r.N(60, 900), r.N(350, 600), false)
		concurrent(r, r.N(60, 900))
	})
}

// TestC02: ageing, expiry and reuse while valid, on virtual time.
func TestC02(t *testing.T) {
	r := vt.Start(t, "C02", "random sequential histories with time steps around the TTL boundaries; non-trivial when an answer was produced, distinct by (source, question key, rcode, age)")
	r.Need("aged answers", 1000)
	r.Need("required hits", 1000)
	r.Need("expired entries asked again", 300)
	r.Need("prefetches", 100)
	r.Need("hits on refreshed entries", 100)
	vt.Virtual(t, r, func(t *testing.T) {
		sequential(r, r.N(120, 1500), r.N(300, 600), true)
		prefetch(r, r.N(60, 600))
	})
}

func sequential(r *vt.R, cases, ops int, aging bool) {
	for c := 0; c < cases; c++ {
		rnd := r.Rand("seq", aging, c)
		opt := randOptions(rnd)
		w := newWorld(rnd, opt)
		cache := rdns.NewCache(fmt.Sprintf("seq%v%d", aging, c), w, opt)
		stored := map[string]*produced{}
		var trace []string
		for i := 0; i < ops; i++ {
			if rnd.Intn(3) == 0 || aging && rnd.Intn(2) == 0 {
				time.Sleep(steps[rnd.Intn(len(steps))])
			}
			q := randQuery(rnd, true)
			if aging && rnd.Intn(4) != 0 { // revisit few keys often
				q = randQuery(rand.New(rand.NewSource(int64(c*100+rnd.Intn(6)))), true)
				q.Id = uint16(rnd.Intn(65536))
			}
			q0 := q.Copy()
			k := keyOf(q0)
			tok := nextToken()
			label := fmt.Sprintf("sequential case %d op %d %s", c, i, k)
			r.Case("%s", label)
			now := time.Now()
			res, ok := vt.ResolveVirtual(cache, q, rdns.ClientInfo{DoHPath: tok}, time.Hour)
			if !ok {
				r.Violation("hang", "the query never completes", label)
				return
			}
			if e := vt.CanonID(q); e != vt.CanonID(q0) && q0.Opcode == dns.OpcodeQuery && len(q0.Question) == 1 {
				r.Violation("query-changed", fmt.Sprintf("the caller's query was changed from %s to %s", vt.CanonID(q0), e), label)
			}
			w.judge(r, q0, tok, res, now, label)
			w.mu.Lock()
			asked := w.calls[tok]
			w.mu.Unlock()
			if asked > 1 {
				r.Violation("asked-twice", fmt.Sprintf("one query caused %d upstream queries", asked), label)
			}
			// An entry that is still valid spares the upstream query.
			if p := stored[k]; p != nil {
				valid := now.Sub(p.at) < p.life
				if valid && asked > 0 {
					r.Violation("not-reused", fmt.Sprintf("%s: an answer fetched %v ago with %v to live was not reused", k, now.Sub(p.at), p.life), label)
				}
				if valid {
					r.Observe("required hits", 1)
				} else if asked > 0 {
					r.Observe("expired entries asked again", 1)
				}
			}
			if asked > 0 {
				w.mu.Lock()
				ps := w.byKey[k]
				if len(ps) > 0 && ps[len(ps)-1].token == tok && ps[len(ps)-1].store {
					stored[k] = ps[len(ps)-1]
				}
				w.mu.Unlock()
			}
			if len(trace) < 12 {
				trace = append(trace, fmt.Sprintf("t=%v %s -> upstream=%v %s", now.Format("15:04:05.0"), k, asked > 0, vt.Canon(res.A)))
			}
			scribble(res.A)
			scribble(q)
		}
		if c < 2 {
			r.Sample(map[string]any{"options": fmt.Sprintf("neg=%d rcode=%v shuffle=%v", opt.NegativeTTL, opt.CacheRcodeMaxTTL, opt.ShuffleAnswerFunc != nil), "history": trace})
		}
	}
}

func concurrent(r *vt.R, cases int) {
	for c := 0; c < cases; c++ {
		rnd := r.Rand("conc", c)
		opt := randOptions(rnd)
		if rnd.Intn(3) == 0 {
			opt.PrefetchTrigger = uint32(rnd.Intn(60))
			opt.PrefetchEligible = uint32(rnd.Intn(10))
		}
		if rnd.Intn(3) == 0 {
			opt.Capacity = 1 + rnd.Intn(6)
		}
		w := newWorld(rand.New(rand.NewSource(rnd.Int63())), opt)
		w.delay = true
		cache := rdns.NewCache(fmt.Sprintf("conc%d", c), w, opt)
		var wg sync.WaitGroup
		label := fmt.Sprintf("concurrent case %d", c)
		r.Case("%s", label)
		for g := 0; g < 8; g++ {
			grnd := rand.New(rand.NewSource(rnd.Int63()))
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 60; i++ {
					if grnd.Intn(2) == 0 {
						time.Sleep(steps[grnd.Intn(10)])
					}
					q := randQuery(grnd, true)
					if grnd.Intn(3) != 0 {
						q = randQuery(rand.New(rand.NewSource(int64(c*100+grnd.Intn(3)))), true)
						q.Id = uint16(grnd.Intn(65536))
					}
					q0 := q.Copy()
					tok := fmt.Sprintf("c%dg%di%d", c, g, i)
					a, err := cache.Resolve(q, rdns.ClientInfo{DoHPath: tok})
					w.judge(r, q0, tok, vt.Result{A: a, Err: err}, time.Now(), label)
					scribble(a)
					scribble(q)
				}
			}(g)
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		tm := time.NewTimer(24 * time.Hour)
		select {
		case <-done:
			tm.Stop()
		case <-tm.C:
			r.Violation("hang", "concurrent queries never complete", label)
			return
		}
		synctest.Wait()
		r.Observe("concurrent histories", 1)
	}
}

// prefetch: a hit on an entry about to expire refreshes it once, and only then,
// and from then on the fresher answer is served.
func prefetch(r *vt.R, cases int) {
	for c := 0; c < cases; c++ {
		rnd := r.Rand("prefetch", c)
		trigger := uint32(5 + rnd.Intn(40))
		eligible := uint32(rnd.Intn(60))
		opt := rdns.CacheOptions{PrefetchTrigger: trigger, PrefetchEligible: eligible}
		if rnd.Intn(3) == 0 {
			opt.CacheRcodeMaxTTL = map[int]uint32{0: uint32(1 + rnd.Intn(60)), 3: uint32(1 + rnd.Intn(60))}
		}
		w := newWorld(rnd, opt)
		w.errRate = 0
		if rnd.Intn(4) == 0 {
			w.errRate = 20
		}
		w.ttls = []uint32{uint32(3 + rnd.Intn(100))}
		if rnd.Intn(2) == 0 {
			w.ttls = append(w.ttls, uint32(3+rnd.Intn(100)))
		}
		cache := rdns.NewCache(fmt.Sprintf("pre%d", c), w, opt)
		q := vt.Query("a.example.", dns.TypeA)
		k := keyOf(q)
		var cur *produced // what the cache holds, nil if not known
		for i := 0; i < 60; i++ {
			time.Sleep(time.Duration(rnd.Intn(30))*time.Second + time.Millisecond)
			tok := nextToken()
			label := fmt.Sprintf("prefetch case %d op %d trigger %d eligible %d ttls %v", c, i, trigger, eligible, w.ttls)
			r.Case("%s", label)
			w.mu.Lock()
			before := len(w.byKey[k])
			w.mu.Unlock()
			now := time.Now()
			res, ok := vt.ResolveVirtual(cache, q.Copy(), rdns.ClientInfo{DoHPath: tok}, time.Hour)
			if !ok {
				r.Violation("hang", "the query never completes", label)
				return
			}
			synctest.Wait()
			w.judge(r, q, tok, res, now, label)
			w.mu.Lock()
			calls := w.calls[tok]
			ps := w.byKey[k]
			w.mu.Unlock()
			var fresh *produced
			if len(ps) > before {
				fresh = ps[len(ps)-1]
			}
			if calls > 1 {
				r.Violation("asked-twice", fmt.Sprintf("one query caused %d upstream queries", calls), label)
			}
			if cur != nil && now.Sub(cur.at) < cur.life {
				// served from the entry
				if res.A == nil || w.explain(cur, res.A, q, tok, now) != "" {
					r.Violation("not-reused", fmt.Sprintf("an answer fetched %v ago with %v to live was not served, but %s", now.Sub(cur.at), cur.life, vt.Canon(res.A)), label)
					return
				}
				r.Observe("required hits", 1)
				if cur.token != tok && refreshed(cur, ps) {
					r.Observe("hits on refreshed entries", 1)
				}
				left, has := minLeft(res.A)
				due := has && left < trigger && cur.minTTL > eligible && cur.msg.Rcode == dns.RcodeSuccess
				never := !has || left >= trigger || cur.minTTL < eligible
				if due && calls == 0 {
					r.Violation("no-prefetch", fmt.Sprintf("hit with %d s left (trigger %d, stored with %d, eligible above %d) was not refreshed", left, trigger, cur.minTTL, eligible), label)
				}
				if never && calls > 0 {
					r.Violation("needless-prefetch", fmt.Sprintf("hit with %d s left (trigger %d, stored with %d, eligible %d) caused an upstream query", left, trigger, cur.minTTL, eligible), label)
				}
				if calls > 0 {
					r.Observe("prefetches", 1)
				}
				switch {
				case fresh == nil || !fresh.store: // failed, dropped, truncated
				case fresh.msg.Rcode != dns.RcodeSuccess && fresh.msg.Rcode != dns.RcodeNameError || !fresh.hasTTL:
					cur = nil // either may be kept
				case fresh.minTTL >= left:
					cur = fresh
				}
				continue
			}
			if cur != nil && calls == 0 {
				r.Violation("stale", fmt.Sprintf("an answer fetched %v ago with %v to live was served", now.Sub(cur.at), cur.life), label)
				return
			}
			cur = nil
			if fresh != nil && fresh.store && res.A != nil && w.explain(fresh, res.A, q, tok, now) == "" && len(ps) == before+1 {
				// a miss, unless the answer was another one still in the cache
				if source(w, ps[:before], res.A, q, tok, now) == nil {
					cur = fresh
				}
			}
		}
	}
}

// refreshed: p is not the answer its first client got, but came in the background.
func refreshed(p *produced, ps []*produced) bool {
	for _, x := range ps {
		if x != p && x.at.Before(p.at) && p.at.Sub(x.at) < x.life {
			return true
		}
	}
	return false
}

func minLeft(a *dns.Msg) (uint32, bool) {
	var m uint32
	has := false
	for _, s := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
		for _, rr := range s {
			if rr.Header().Rrtype != dns.TypeOPT && (!has || rr.Header().Ttl < m) {
				m, has = rr.Header().Ttl, true
			}
		}
	}
	return m, has
}

// source finds the single earlier answer that a was served from.
func source(w *world, ps []*produced, a, q *dns.Msg, tok string, now time.Time) *produced {
	var found *produced
	for _, p := range ps {
		if p.token != tok && w.explain(p, a, q, tok, now) == "" {
			if found != nil {
				return nil
			}
			found = p
		}
	}
	return found
}
