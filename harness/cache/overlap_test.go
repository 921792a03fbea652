package cache

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// lruOverlap: queries with the same name overlap, so that an entry is stored
// again while it is present. All starts and ends lie on distinct virtual
// instants, which makes the reference list exact.
func lruOverlap(r *vt.R, cases int) {
	type op struct {
		at, done int // ms
		name     string
	}
	for c := 0; c < cases; c++ {
		rnd := r.Rand("overlap", c)
		capacity := 1 + rnd.Intn(6)
		names := capacity + 1 + rnd.Intn(4)
		var ops []op
		for i, t := 0, 0; i < 120; i++ {
			t += 2 * (1 + rnd.Intn(6))
			d := 2*((t/2)+1+rnd.Intn(20)) + 1
			for used := true; used; {
				used = false
				for _, o := range ops {
					if o.done == d {
						used = true
						d += 2
						break
					}
				}
			}
			ops = append(ops, op{t, d, fmt.Sprintf("n%d.example.", rnd.Intn(names))})
		}
		// the reference
		type ev struct {
			at, op int
			store  bool
		}
		var evs []ev
		for i, o := range ops {
			evs = append(evs, ev{o.at, i, false}, ev{o.done, i, true})
		}
		sort.Slice(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
		var list []string
		pos := func(n string) int {
			for i, x := range list {
				if x == n {
					return i
				}
			}
			return -1
		}
		miss := make([]bool, len(ops))
		again := 0
		for _, e := range evs {
			n := ops[e.op].name
			p := pos(n)
			if !e.store {
				if p < 0 {
					miss[e.op] = true
				} else {
					list = append([]string{n}, append(append([]string{}, list[:p]...), list[p+1:]...)...)
				}
				continue
			}
			if !miss[e.op] {
				continue
			}
			if p >= 0 {
				list = append(append([]string{}, list[:p]...), list[p+1:]...)
				again++
			}
			list = append([]string{n}, list...)
			if len(list) > capacity {
				list = list[:capacity]
				r.Observe("evictions", 1)
			}
		}
		// the real thing
		var mu sync.Mutex
		asked := make([]int, len(ops))
		start := time.Now()
		up := &vt.Func{Name: "up", F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			i := int(q.Id)
			mu.Lock()
			asked[i]++
			mu.Unlock()
			time.Sleep(time.Until(start.Add(time.Duration(ops[i].done) * time.Millisecond)))
			a := new(dns.Msg)
			a.SetReply(q)
			a.Answer = append(a.Answer, vt.RR("%s 100000 IN TXT \"%d\"", q.Question[0].Name, i))
			return a, nil
		}}
		backend := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Capacity: capacity})
		cache := rdns.NewCache(fmt.Sprintf("ovl%d", c), up, rdns.CacheOptions{Backend: backend})
		label := fmt.Sprintf("overlap case %d capacity %d", c, capacity)
		r.Case("%s", label)
		var wg sync.WaitGroup
		for i, o := range ops {
			time.Sleep(time.Until(start.Add(time.Duration(o.at) * time.Millisecond)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				q := vt.Query(o.name, dns.TypeTXT)
				q.Id = uint16(i)
				cache.Resolve(q, rdns.ClientInfo{})
			}()
		}
		wg.Wait()
		for i, o := range ops {
			if miss[i] != (asked[i] > 0) {
				key := "evicted-early"
				if miss[i] {
					key = "kept-too-long"
				}
				r.Violation(key, fmt.Sprintf("overlapping queries: query %d for %s at %d ms, lookup upstream expected %v, got %v; ops %v", i, o.name, o.at, miss[i], asked[i] > 0, ops[:i+1]), label)
				break
			}
			if !miss[i] {
				r.Observe("hits required", 1)
			}
		}
		if n := backend.Size(); n != len(list) {
			r.Violation("size", fmt.Sprintf("cache holds %d entries, expected %d (capacity %d)", n, len(list), capacity), label)
		}
		r.Observe("entries stored again", again)
		r.Eval(fmt.Sprintf("overlap cap%d again%d", capacity, again))
		r.State("recency orders", strings.Join(list, ","))
	}
}
