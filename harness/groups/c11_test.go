package groups

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// TestC11: which member is preferred, and when a failed one is used again.
func TestC11(t *testing.T) {
	r := vt.Start(t, "C11", "one query of a history against a group whose members fail and recover, compared with a model of who is preferred; non-trivial when the preferred member is not the first, distinct by (group, preferred, tried, phase)")
	r.Need("queries while failed over", 3000)
	r.Need("returns to the first member", 300)
	r.Need("members kept out", 1000)
	r.Need("members let in again", 300)
	r.Need("concurrent round-robin queries", 5000)
	r.Need("failures of a member that was no longer preferred", 500)
	r.Need("switches with queries under way", 1000)
	for c := 0; c < r.N(3, 20); c++ {
		roundRobinStress(r, c)
	}
	vt.Virtual(t, r, func(t *testing.T) {
		for c := 0; c < r.N(120, 3000); c++ {
			stickyCase(r, "fail-rotate", c)
			stickyCase(r, "fail-back", c)
			stickyCase(r, "fail-back-0", c)
			overlapCase(r, "fail-rotate", c)
			overlapCase(r, "fail-back", c)
			randomCase(r, c)
			roundRobinCase(r, c)
		}
		for c := 0; c < r.N(6, 60); c++ {
			loadBalanceCase(r, c)
		}
	})
}

func stickyCase(r *vt.R, kind string, c int) {
	rnd := r.Rand("sticky", kind, c)
	label := fmt.Sprintf("%s case %d", kind, c)
	r.Case("%s", label)
	w := newWorld(r, label)
	n := 2 + rnd.Intn(4)
	o := groupOpt{servfail: rnd.Intn(2) == 0, reset: time.Duration(5001+2*rnd.Intn(60000)) * time.Millisecond}
	k := kind
	if kind == "fail-back-0" {
		k, o.reset = "fail-back", 0
	}
	g := build(k, fmt.Sprintf("c11-%s-%d", kind, c), o, w.members(n))
	health := make([]string, n)
	for i := range health {
		health[i] = "ok"
	}
	active := 0
	var resetAt time.Time
	for step := 0; step < 60; step++ {
		if rnd.Intn(4) == 0 {
			health[rnd.Intn(n)] = vt.Pick(rnd, "ok", "ok", "err", "refused", "servfail", "nxdomain")
		}
		switch rnd.Intn(6) {
		case 0: // around the reset
			d := 2 * time.Millisecond * time.Duration(rnd.Intn(4)-2)
			if s := time.Until(resetAt) + d; s > 0 && !resetAt.IsZero() {
				time.Sleep(s / 2 / time.Millisecond * 2 * time.Millisecond)
			}
		case 1:
			time.Sleep(time.Duration(2*rnd.Intn(60000)) * time.Millisecond)
		default:
			time.Sleep(time.Duration(2*rnd.Intn(100)) * time.Millisecond)
		}
		// model
		if k == "fail-back" && !resetAt.IsZero() && !time.Now().Before(resetAt) {
			if active != 0 {
				r.Observe("returns to the first member", 1)
			}
			active, resetAt = 0, time.Time{}
		}
		first := active
		if kind == "fail-back-0" {
			first = 0
		}
		x := w.newQuery(rnd, n, func(i int) string { return health[i] }, func() time.Duration { return 0 })
		w.run(g, x)
		var want, got []int
		for i := 0; i < n; i++ {
			m := (first + i) % n
			want = append(want, m)
			if !failure(health[m], o.servfail, false) {
				break
			}
			if kind != "fail-back-0" && m == active {
				active = (active + 1) % n
				if k == "fail-back" {
					resetAt = time.Now().Add(o.reset)
				}
			}
		}
		for _, t := range x.tries {
			got = append(got, t.member)
		}
		if fmt.Sprint(want) != fmt.Sprint(got) {
			r.Violation("order", fmt.Sprintf("%s asked members %v, expected %v (health %v, reset after %v)", kind, got, want, health, o.reset), label)
			return
		}
		if first != 0 {
			r.Observe("queries while failed over", 1)
			r.Eval(fmt.Sprintf("%s first%d %v", kind, first, got))
		}
	}
}

// overlapCase: many queries at once. Of the failures that come in, only those
// of the preferred member move the group on.
func overlapCase(r *vt.R, kind string, c int) {
	rnd := r.Rand("overlap", kind, c)
	label := fmt.Sprintf("%s overlap case %d", kind, c)
	r.Case("%s", label)
	w := newWorld(r, label)
	n := 2 + rnd.Intn(4)
	o := groupOpt{servfail: rnd.Intn(2) == 0, reset: time.Duration(50+rnd.Intn(vt.Pick(rnd, 200, 3000)))*time.Millisecond + time.Duration(rnd.Intn(1e6))}
	g := build(kind, fmt.Sprintf("c11-overlap-%s-%d", kind, c), o, w.members(n))
	// No two events happen at the same time.
	used := map[time.Duration]bool{}
	moment := func(limit time.Duration) time.Duration {
		for {
			d := 1 + time.Duration(rnd.Int63n(int64(limit)))
			if !used[d] {
				used[d] = true
				return d
			}
		}
	}
	slow := vt.Pick(rnd, 2, 20, 200, 1000)
	failing := vt.Pick(rnd, 2, 4, 10)
	var wg sync.WaitGroup
	for i := 0; i < 60; i++ {
		x := w.newQuery(rnd, n, func(int) string {
			if rnd.Intn(failing) == 0 {
				return vt.Pick(rnd, "err", "refused", "servfail")
			}
			return "ok"
		}, func() time.Duration { return moment(time.Duration(slow) * time.Millisecond) })
		at := moment(2 * time.Second)
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(at)
			w.run(g, x)
		}()
	}
	wg.Wait()
	type event struct {
		at     time.Time
		member int // that failed, or -1 for a query that starts
		x      *query
	}
	var events []event
	for _, x := range w.queries {
		events = append(events, event{x.start, -1, x})
		for i, t := range x.tries {
			if i > 0 && t.member != (x.tries[i-1].member+1)%n {
				r.Violation("order", fmt.Sprintf("%s: a query went from member %d to %d of %d", kind, x.tries[i-1].member, t.member, n), label)
				return
			}
			if failure(t.outcome, o.servfail, false) {
				events = append(events, event{t.end, t.member, x})
			}
		}
	}
	sort.Slice(events, func(i, j int) bool { return events[i].at.Before(events[j].at) })
	for i := 1; i < len(events); i++ {
		if events[i].at.Equal(events[i-1].at) {
			return // nothing follows about their order
		}
	}
	active, late, switches := 0, 0, 0
	var resetAt time.Time
	for _, e := range events {
		if kind == "fail-back" && !resetAt.IsZero() {
			if e.at.Equal(resetAt) {
				return
			}
			if e.at.After(resetAt) {
				active, resetAt = 0, time.Time{}
				r.Observe("returns to the first member", 1)
			}
		}
		switch {
		case e.member == active:
			active = (active + 1) % n
			resetAt = e.at.Add(o.reset)
			switches++
		case e.member >= 0:
			late++
		case len(e.x.tries) == 0 || e.x.tries[0].member != active:
			got := -1
			if len(e.x.tries) > 0 {
				got = e.x.tries[0].member
			}
			r.Violation("overlap", fmt.Sprintf("%s of %d members: a query that started when member %d was preferred went to %d, after %d switches and %d failures of members that were no longer preferred", kind, n, active, got, switches, late), label)
			return
		}
	}
	r.Observe("failures of a member that was no longer preferred", late)
	r.Observe("switches with queries under way", switches)
	r.Eval(fmt.Sprintf("overlap %s %d members, %d/%d", kind, n, switches/4, late/4))
}

// roundRobinStress: turns are taken by queries that run in parallel.
func roundRobinStress(r *vt.R, c int) {
	label := fmt.Sprintf("round-robin stress %d", c)
	r.Case("%s", label)
	const workers, each = 8, 6000 // a multiple of the members
	cnt := make([]atomic.Int64, 2+c%3)
	var ms []rdns.Resolver
	for i := range cnt {
		ms = append(ms, &vt.Func{Name: fmt.Sprintf("rr%d", i), F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			cnt[i].Add(1)
			return nil, nil
		}})
	}
	g := rdns.NewRoundRobin(fmt.Sprintf("c11-rr-stress-%d", c), ms...)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			q := vt.Query("rr.test.", dns.TypeA)
			for i := 0; i < each; i++ {
				g.Resolve(q, rdns.ClientInfo{})
			}
		}()
	}
	wg.Wait()
	var got []int64
	for i := range cnt {
		got = append(got, cnt[i].Load())
	}
	r.Observe("parallel round-robin queries", workers*each)
	for _, v := range got {
		if v != int64(workers*each/len(cnt)) {
			r.Violation("share", fmt.Sprintf("round-robin: %d queries in parallel were spread as %v", workers*each, got), label)
			return
		}
	}
}

// randomCase: a failed member is kept out for the reset time and then let in.
func randomCase(r *vt.R, c int) {
	rnd := r.Rand("random", c)
	label := fmt.Sprintf("random case %d", c)
	r.Case("%s", label)
	w := newWorld(r, label)
	n := 2 + rnd.Intn(4)
	o := groupOpt{servfail: rnd.Intn(2) == 0, reset: time.Duration(2001+2*rnd.Intn(5000)) * time.Millisecond}
	g := build("random", fmt.Sprintf("c11-random-%d", c), o, w.members(n))
	health := make([]string, n)
	for i := range health {
		health[i] = "ok"
	}
	out := make([]time.Time, n) // kept out until
	for step := 0; step < 80; step++ {
		if rnd.Intn(6) == 0 {
			health[rnd.Intn(n)] = vt.Pick(rnd, "ok", "err", "refused", "servfail")
		}
		time.Sleep(time.Duration(2*rnd.Intn(vt.Pick(rnd, 10, 1000))) * time.Millisecond)
		x := w.newQuery(rnd, n, func(i int) string { return health[i] }, func() time.Duration { return 0 })
		w.run(g, x)
		now := time.Now()
		for _, t := range x.tries {
			if now.Before(out[t.member]) {
				r.Violation("kept-out", fmt.Sprintf("random asked member %d although it failed %v ago (reset after %v)", t.member, o.reset-out[t.member].Sub(now), o.reset), label)
				return
			}
			if !out[t.member].IsZero() {
				r.Observe("members let in again", 1)
			}
			out[t.member] = time.Time{}
			if failure(t.outcome, o.servfail, false) {
				out[t.member] = now.Add(o.reset)
			}
		}
		for _, u := range out {
			if now.Before(u) {
				r.Observe("members kept out", 1)
			}
		}
		if x.err != nil {
			// only if nobody is left
			for m, u := range out {
				if !now.Before(u) {
					r.Violation("gave-up", fmt.Sprintf("random failed the query although member %d is in the group: %s", m, x), label)
					return
				}
			}
		}
		r.Eval(fmt.Sprintf("random %v", len(x.tries)))
	}
	// everybody recovers and gets a share of the traffic
	for i := range health {
		health[i] = "ok"
	}
	time.Sleep(o.reset + 2*time.Millisecond)
	seen := map[int]int{}
	for i := 0; i < 150*n; i++ {
		x := w.newQuery(rnd, n, func(i int) string { return "ok" }, func() time.Duration { return 0 })
		w.run(g, x)
		for _, t := range x.tries {
			seen[t.member]++
		}
	}
	for m := 0; m < n; m++ {
		// a fair share is 150, below 50 has a probability under 1e-20
		if seen[m] < 50 || seen[m] > 400 {
			r.Violation("share", fmt.Sprintf("random: shares %v of %d queries after everybody recovered", seen, 150*n), label)
			return
		}
	}
}

// roundRobinCase: every member gets its turn.
func roundRobinCase(r *vt.R, c int) {
	rnd := r.Rand("rr", c)
	label := fmt.Sprintf("round-robin case %d", c)
	r.Case("%s", label)
	w := newWorld(r, label)
	n := 1 + rnd.Intn(5)
	g := build("round-robin", fmt.Sprintf("c11-rr-%d", c), groupOpt{}, w.members(n))
	total := 60 + rnd.Intn(10)
	var wg sync.WaitGroup
	for i := 0; i < total; i++ {
		x := w.newQuery(rnd, n, func(int) string { return vt.Pick(rnd, outcomes...) }, func() time.Duration { return time.Duration(rnd.Intn(5)) * time.Millisecond })
		wg.Add(1)
		go func() { defer wg.Done(); w.run(g, x) }()
		if c%3 == 0 {
			wg.Wait()
			if x.tries[0].member != i%n {
				r.Violation("turn", fmt.Sprintf("round-robin: query %d went to member %d of %d", i, x.tries[0].member, n), label)
				return
			}
		}
	}
	wg.Wait()
	cnt := make([]int, n)
	for _, t := range w.tries {
		cnt[t.member]++
	}
	lo, hi := total, 0
	for _, v := range cnt {
		lo, hi = min(lo, v), max(hi, v)
	}
	r.Observe("concurrent round-robin queries", total)
	r.Eval(fmt.Sprintf("rr %d %v", n, cnt))
	if hi-lo > 1 || len(w.tries) != total {
		r.Violation("share", fmt.Sprintf("round-robin: %d queries were spread as %v", total, cnt), label)
	}
}

// loadBalanceCase: faster members get more, failing ones little, none starves.
func loadBalanceCase(r *vt.R, c int) {
	label := fmt.Sprintf("load-balance case %d", c)
	r.Case("%s", label)
	rtt := []time.Duration{10 * time.Millisecond, 40 * time.Millisecond, 160 * time.Millisecond}
	bad := -1
	if c%2 == 1 {
		bad = 0
	}
	var mu sync.Mutex
	cnt := make([]int, len(rtt))
	var ms []rdns.Resolver
	for i := range rtt {
		ms = append(ms, &vt.Func{Name: fmt.Sprintf("lb%d", i), F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			mu.Lock()
			cnt[i]++
			b := i == bad
			mu.Unlock()
			if b {
				return nil, fmt.Errorf("down")
			}
			time.Sleep(rtt[i])
			a := new(dns.Msg)
			a.SetReply(q)
			return a, nil
		}})
	}
	g := rdns.NewLoadBalance(fmt.Sprintf("c11-lb-%d", c), rdns.LoadBalanceOptions{FailurePenalty: time.Duration(c%4/2) * time.Second}, ms...)
	phase := func(n int) []int {
		mu.Lock()
		for i := range cnt {
			cnt[i] = 0
		}
		mu.Unlock()
		for i := 0; i < n; i++ {
			if _, err := g.Resolve(vt.Query("lb.test.", dns.TypeA), rdns.ClientInfo{}); err != nil {
				r.Violation("result", "load-balance failed although members work: "+err.Error(), label)
			}
		}
		mu.Lock()
		defer mu.Unlock()
		return append([]int(nil), cnt...)
	}
	phase(200) // settle
	const total = 3000
	got := phase(total)
	r.State("load-balance shares", fmt.Sprint(got[0]/100, got[1]/100, got[2]/100))
	r.Eval(fmt.Sprintf("lb bad%d", bad))
	// The expected shares are 1/rtt plus the exploration of 5%. The bounds are
	// many standard deviations away from them.
	for m, v := range got {
		if v < 10 {
			r.Violation("starved", fmt.Sprintf("load-balance: member %d got %d of %d queries", m, v, total), label)
		}
	}
	if bad < 0 {
		if !(got[0] > got[1] && got[1] > got[2]) || got[0] < total/2 {
			r.Violation("preference", fmt.Sprintf("load-balance: members with %v got %v of %d queries", rtt, got, total), label)
		}
		return
	}
	if got[1] < got[2] {
		r.Violation("preference", fmt.Sprintf("load-balance: members with %v got %v of %d queries", rtt, got, total), label)
	}
	if c%4/2 == 1 && got[0] > total/4 { // with a penalty
		r.Violation("penalty", fmt.Sprintf("load-balance: a member that always fails got %d of %d queries despite the penalty (%v)", got[0], total, got), label)
	}
	// recovery
	mu.Lock()
	bad = -1
	mu.Unlock()
	phase(400)
	got = phase(total)
	if got[0] < total/2 {
		r.Violation("recovery", fmt.Sprintf("load-balance: the fastest member recovered but got %d of %d queries (%v)", got[0], total, got), label)
	}
}
