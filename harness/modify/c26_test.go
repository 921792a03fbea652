package modify

import (
	"fmt"
	"math/big"
	"testing"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// ttls lists the TTLs of all records that have one.
func ttls(a *dns.Msg) []*uint32 {
	var l []*uint32
	for _, s := range [][]dns.RR{a.Answer, a.Ns, a.Extra} {
		for _, rr := range s {
			if rr.Header().Rrtype != dns.TypeOPT {
				l = append(l, &rr.Header().Ttl)
			}
		}
	}
	return l
}

// TestC26: TTLs are what the options say, and nothing else changes.
func TestC26(t *testing.T) {
	r := vt.Start(t, "C26", "one answer through a TTL modifier per evaluation; non-trivial when a TTL had to change, distinct by (selection, limits, records, which limit applied)")
	sel := map[string]rdns.TTLSelectFunc{"": nil, "lowest": rdns.TTLSelectLowest, "highest": rdns.TTLSelectHighest, "average": rdns.TTLSelectAverage, "first": rdns.TTLSelectFirst, "last": rdns.TTLSelectLast, "random": rdns.TTLSelectRandom}
	for n := range sel {
		r.Need("changed by "+n, 300)
	}
	for _, n := range []string{"", "lowest", "highest", "average", "first", "last", "random"} {
		for c := 0; c < r.N(60, 1500); c++ {
			rnd := r.Rand("ttl", n, c)
			opt := rdns.TTLModifierOptions{SelectFunc: sel[n], MinTTL: vt.Pick[uint32](rnd, 0, 0, 1, 30, 60, 300, 1<<31), MaxTTL: vt.Pick[uint32](rnd, 0, 0, 1, 30, 60, 300, 86400, 1<<31, 1<<32-1)}
			if opt.MaxTTL != 0 && opt.MaxTTL < opt.MinTTL {
				opt.MinTTL, opt.MaxTTL = opt.MaxTTL, opt.MinTTL
			}
			label := fmt.Sprintf("ttl %q min %d max %d case %d", n, opt.MinTTL, opt.MaxTTL, c)
			r.Case("%s", label)
			e := newElement()
			el := rdns.NewTTLModifier("ttl", e, opt)
			top := opt.MaxTTL
			if top == 0 {
				top = 1<<32 - 1
			}
			drawn := map[uint32]bool{}
			draws := 0
			var steps []step
			for i := 0; i < 40; i++ {
				q := query(rnd)
				res := outcome(rnd, q)
				s := step{q: q, ci: client(rnd), f: func(*dns.Msg) (*dns.Msg, error) { return res.copy() }}
				if res.a != nil && i == 0 { // so that an average could overflow
					for _, p := range ttls(res.a) {
						*p = 1<<32 - 1 - uint32(rnd.Intn(3))
					}
				}
				s.judge = func(got result, seen []sighting) {
					if !passed(r, label, &s, seen, s.q) {
						return
					}
					want := result{err: res.err}
					if res.a == nil {
						same(r, "not-passed-on", label, s.q, want, got)
						r.Eval("")
						return
					}
					want.a = res.a.Copy()
					want.a.Id = s.q.Id
					l := ttls(want.a)
					var v *uint32
					switch n {
					case "lowest", "highest":
						for _, p := range l {
							if v == nil || (*p < *v) == (n == "lowest") {
								v = p
							}
						}
					case "first":
						if len(l) > 0 {
							v = l[0]
						}
					case "last":
						if len(l) > 0 {
							v = l[len(l)-1]
						}
					case "average":
						sum := new(big.Int)
						for _, p := range l {
							sum.Add(sum, big.NewInt(int64(*p)))
						}
						if len(l) > 0 {
							avg := uint32(sum.Div(sum, big.NewInt(int64(len(l)))).Uint64())
							v = &avg
						}
					case "random":
						if got.a != nil && len(ttls(got.a)) > 0 {
							x := *ttls(got.a)[0]
							v = &x
							drawn[x] = true
							draws++
						}
					}
					changed := false
					lim := ""
					var sel uint32
					if v != nil {
						sel = *v
					}
					for _, p := range l {
						was := *p
						if v != nil {
							*p = sel
						}
						if *p < opt.MinTTL {
							*p = opt.MinTTL
							lim = "min"
						}
						if *p > top {
							*p = top
							lim = "max"
						}
						changed = changed || *p != was
					}
					if got.a != nil {
						got.a.Id = s.q.Id
					}
					if !same(r, "ttl", label, s.q, want, got) {
						return
					}
					if changed {
						r.Observe("changed by "+n, 1)
						r.Eval(fmt.Sprintf("%s %d %d n%d %s", n, opt.MinTTL, opt.MaxTTL, len(l), lim))
					} else {
						r.Eval("")
					}
				}
				steps = append(steps, s)
			}
			e.drive(r, el, label, steps)
			if n == "random" && top-opt.MinTTL >= 200 && draws > 10 && len(drawn) < 2 {
				r.Violation("not-random", fmt.Sprintf("%d answers all got the TTL %v", draws, drawn), label)
			}
		}
	}
	r.Exit()
}
