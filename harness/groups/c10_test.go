package groups

import (
	"fmt"
	"sync"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"

	"verif/harness/vt"
)

type groupOpt struct {
	servfail, empty bool
	reset           time.Duration
}

func build(kind, id string, o groupOpt, ms []rdns.Resolver) rdns.Resolver {
	switch kind {
	case "fail-rotate":
		return rdns.NewFailRotate(id, rdns.FailRotateOptions{ServfailError: o.servfail, EmptyError: o.empty}, ms...)
	case "fail-back":
		return rdns.NewFailBack(id, rdns.FailBackOptions{ResetAfter: o.reset, ServfailError: o.servfail, EmptyError: o.empty}, ms...)
	case "random":
		return rdns.NewRandom(id, rdns.RandomOptions{ResetAfter: o.reset, ServfailError: o.servfail, EmptyError: o.empty}, ms...)
	case "load-balance":
		return rdns.NewLoadBalance(id, rdns.LoadBalanceOptions{FailurePenalty: o.reset, ServfailError: o.servfail, EmptyError: o.empty}, ms...)
	case "fastest":
		return rdns.NewFastest(id, ms...)
	case "round-robin":
		return rdns.NewRoundRobin(id, ms...)
	}
	panic(kind)
}

// TestC10: a query is answered if a member of its group answers it, and no
// member is bothered twice with it.
func TestC10(t *testing.T) {
	r := vt.Start(t, "C10", "one query per evaluation against a group with scripted members, overlapping other queries; non-trivial when at least one member failed, distinct by (group, options, tried members with outcomes)")
	r.Need("queries saved by failover", 3000)
	r.Need("queries no member could answer", 500)
	r.Need("overlapping queries", 5000)
	r.Need("queries changed by members", 5000)
	vt.Virtual(t, r, func(t *testing.T) {
		for c := 0; c < r.N(150, 4000); c++ {
			for _, kind := range []string{"fail-rotate", "fail-back", "fail-back-0", "random", "load-balance", "fastest", "round-robin"} {
				failoverCase(r, kind, c)
			}
		}
	})
}

func failoverCase(r *vt.R, kind string, c int) {
	rnd := r.Rand("c10", kind, c)
	label := fmt.Sprintf("%s case %d", kind, c)
	r.Case("%s", label)
	w := newWorld(r, label)
	w.scrawl = kind != "round-robin" && rnd.Intn(2) == 0
	n := vt.Pick(rnd, 1, 2, 3, 3, 4, 5, 9)
	o := groupOpt{servfail: rnd.Intn(2) == 0, empty: rnd.Intn(3) == 0, reset: time.Duration(1001+2*rnd.Intn(5000)) * time.Millisecond}
	k := kind
	if kind == "fail-back-0" {
		k, o.reset = "fail-back", 0
	}
	if kind == "fastest" {
		o.servfail, o.empty = true, false
	}
	g := build(k, fmt.Sprintf("c10-%s-%d", kind, c), o, w.members(n))
	perQuery := rnd.Intn(2) == 0
	health := make([]string, n)
	for i := range health {
		health[i] = vt.Pick(rnd, outcomes...)
	}
	slow := rnd.Intn(2) == 0
	delay := func() time.Duration {
		if slow {
			return time.Duration(2*rnd.Intn(1500)) * time.Millisecond
		}
		return time.Duration(2*rnd.Intn(10)) * time.Millisecond
	}
	pick := func(i int) string {
		if perQuery || rnd.Intn(20) == 0 {
			return vt.Pick(rnd, outcomes...)
		}
		return health[i]
	}
	var wg sync.WaitGroup
	total := 16
	for i := 0; i < total; i++ {
		x := w.newQuery(rnd, n, pick, delay)
		wg.Add(1)
		go func() { defer wg.Done(); w.run(g, x) }()
		time.Sleep(time.Duration(2*rnd.Intn(vt.Pick(rnd, 1, 20, 1000))) * time.Millisecond)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Minute):
		r.Violation("hang", "queries did not return although every member answered", label)
		return
	}
	time.Sleep(3 * time.Second) // members a fastest group did not wait for
	w.mu.Lock()
	defer w.mu.Unlock()
	for i, x := range w.queries {
		judgeFailover(r, w, kind, o, n, x, label)
		if i > 0 && x.start.Before(w.queries[i-1].end) {
			r.Observe("overlapping queries", 1)
		}
	}
}

func judgeFailover(r *vt.R, w *world, kind string, o groupOpt, n int, x *query, label string) {
	fail := func(out string) bool {
		if kind == "fastest" {
			return out == "err" || out == "servfail"
		}
		if kind == "round-robin" {
			return false
		}
		return failure(out, o.servfail, o.empty)
	}
	if got := vt.CanonID(x.q); got != x.before && !w.scrawl {
		r.Violation("query-changed", fmt.Sprintf("the caller's query is %s after the call, was %s", got, x.before), label)
	}
	seen := map[int]bool{}
	failed := 0
	for _, t := range x.tries {
		if seen[t.member] {
			r.Violation("asked-twice", fmt.Sprintf("%s asked member %d twice for one query: %s", kind, t.member, x), label)
		}
		seen[t.member] = true
		if fail(t.outcome) {
			failed++
		}
	}
	src := w.source(x)
	key := fmt.Sprintf("%s %v", kind, o.servfail)
	for _, t := range x.tries {
		key += " " + t.outcome
	}
	if failed > 0 {
		r.Eval(key)
	}
	r.State("runs of outcomes", key)
	good := src != nil && !fail(src.outcome)
	if len(x.tries) == 0 && kind != "random" {
		r.Violation("not-asked", fmt.Sprintf("%s: no member was asked: %s", kind, x), label)
		return
	}
	switch kind {
	case "round-robin":
		if len(x.tries) != 1 || src != x.tries[0] {
			r.Violation("result", fmt.Sprintf("%s: the result is not that of the one member asked: %s", kind, x), label)
		}
		return
	case "fastest":
		if len(x.tries) != n {
			r.Violation("not-asked", fmt.Sprintf("fastest asked %d of %d members: %s", len(x.tries), n, x), label)
		}
		var best *try
		var last time.Duration
		for _, t := range x.tries {
			d := t.end.Sub(x.start)
			last = max(last, d)
			if !fail(t.outcome) && (best == nil || t.end.Before(best.end)) {
				best = t
			}
		}
		took := x.end.Sub(x.start)
		if best != nil {
			if src == nil || fail(src.outcome) || src.end.After(best.end) && src.outcome != "drop" {
				r.Violation("not-fastest", fmt.Sprintf("fastest did not return the first good answer (m%d): %s", best.member, x), label)
			}
			if d := best.end.Sub(x.start); took > d {
				r.Violation("waited", fmt.Sprintf("fastest returned after %v, the first good answer was there after %v: %s", took, d, x), label)
			}
			if failed > 0 {
				r.Observe("queries saved by failover", 1)
			}
		} else {
			r.Observe("queries no member could answer", 1)
			if took > last {
				r.Violation("waited", fmt.Sprintf("fastest returned after %v, the last failure was there after %v: %s", took, last, x), label)
			}
			if x.err == nil && src == nil {
				r.Violation("result", fmt.Sprintf("fastest: all members failed and the result is none of theirs: %s", x), label)
			}
		}
		return
	}
	// one after the other
	for i, t := range x.tries {
		if !fail(t.outcome) && i != len(x.tries)-1 {
			r.Violation("asked-on", fmt.Sprintf("%s asked on after a good answer: %s", kind, x), label)
		}
		if i > 0 && t.start.Before(x.tries[i-1].end) {
			r.Violation("asked-early", fmt.Sprintf("%s asked the next member before the previous one failed: %s", kind, x), label)
		}
	}
	if len(x.tries) > 0 {
		if l := x.tries[len(x.tries)-1]; !fail(l.outcome) {
			if src != l {
				r.Violation("result", fmt.Sprintf("%s: member %d answered but the caller got something else: %s", kind, l.member, x), label)
			} else if failed > 0 {
				r.Observe("queries saved by failover", 1)
			}
			return
		}
	}
	if good {
		r.Violation("result", fmt.Sprintf("%s: good answer from nowhere: %s", kind, x), label)
	}
	// everybody asked failed
	r.Observe("queries no member could answer", 1)
	if x.err == nil && (x.a == nil || src == nil) {
		r.Violation("result", fmt.Sprintf("%s: all members failed and the result is neither an error nor one of their answers: %s", kind, x), label)
	}
	for m := 0; m < n; m++ {
		if seen[m] {
			continue
		}
		if kind == "random" {
			// not asked because it failed for somebody else recently
			excused := false
			for _, t := range w.tries {
				if t.member == m && fail(t.outcome) && !t.end.After(x.end) && x.end.Sub(t.end) <= o.reset {
					excused = true
				}
			}
			if excused {
				continue
			}
		}
		r.Violation("gave-up", fmt.Sprintf("%s failed the query without asking member %d (which would have given %q): %s", kind, m, x.plan[m], x), label)
	}
}
