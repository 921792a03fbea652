package dnssecmon

import (
	"fmt"
	"sync"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// TestC33 lets an attacker answer a validator and judges what it lets through.
func TestC33(t *testing.T) {
	r := vt.Start(t, "C33", "answers a validator passes on, and what it marks as authentic, agree with what the signed zones publish")
	vt.Virtual(t, r, func(t *testing.T) {
		for i := 0; i < r.N(120, 2000); i++ {
			c := fmt.Sprintf("attacked %d", i)
			r.Case("%s", c)
			rnd := r.Rand("attacked", i)
			w := newWorld(rnd)
			a := newAttacker(w, rnd)
			logOnly := rnd.Intn(8) == 0
			v, err := rdns.NewDNSSECValidator(c, &vt.Func{Name: "up", F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
				return a.answer(q)
			}}, rdns.DNSSECValidatorOptions{TrustAnchors: w.anchors(), LogOnly: logOnly})
			if err != nil {
				r.Violation("construct", err.Error(), c)
				return
			}
			for round := 0; round < 4; round++ {
				for k := 0; k < 10; k++ {
					a.epoch.Add(1)
					var wg sync.WaitGroup
					for cl := 0; cl < 3; cl++ {
						name, qtype := w.ask(rnd)
						q := vt.Query(name, qtype)
						if rnd.Intn(2) == 0 {
							q.SetEdns0(1232, rnd.Intn(2) == 0)
						}
						q.CheckingDisabled = rnd.Intn(4) == 0
						wg.Go(func() { attacked(r, w, v, q, logOnly, c) })
					}
					wg.Wait()
				}
				time.Sleep(time.Duration(rnd.Intn(3)) * time.Hour)
			}
			for k, n := range a.used {
				r.Observe("attack "+k, n)
			}
			for _, z := range w.zones {
				r.State("zone", fmt.Sprint(z.name, z.signed, z.secure, z.nsec3, z.optout, len(z.ksk), len(z.zsk), len(z.proofs)))
			}
		}
		r.Need("accepted secure", 300)
		r.Need("accepted insecure", 100)
		r.Need("refused", 2000)
		r.Need("attack deny", 500)
		r.Need("attack wildcard", 5)
		r.Need("attack renamed wildcard denial", 5)
		r.Need("attack keys", 200)
		r.Need("attack other question", 200)
		r.Need("attack DS of its own", 5)
		r.Need("attack denial of its own DS", 5)
		r.Need("attack revoked key", 5)
	})
}

func attacked(r *vt.R, w *world, v rdns.Resolver, q *dns.Msg, logOnly bool, c string) {
	question := q.Question[0]
	a, err := v.Resolve(q.Copy(), rdns.ClientInfo{})
	r.Eval(fmt.Sprint(c, question.Name, question.Qtype))
	if err != nil || a == nil || a.Rcode != dns.RcodeSuccess && a.Rcode != dns.RcodeNameError {
		r.Observe("refused", 1)
		if a != nil && a.AuthenticatedData {
			r.Violation("ad-on-failure", "an answer that was not validated is marked authentic: "+a.String(), c)
		}
		return
	}
	bad, low := w.judge(question, a)
	switch {
	case low >= owned && a.AuthenticatedData:
		r.Observe("accepted secure", 1)
	case low >= owned:
		r.Observe("accepted secure unmarked", 1)
	case low == insecure:
		r.Observe("accepted insecure", 1)
	default:
		r.Observe("accepted under opt-out", 1)
	}
	r.State("accepted", fmt.Sprint(low, a.AuthenticatedData, a.Rcode, len(a.Answer) > 0, dns.TypeToString[question.Qtype]))
	for _, b := range bad {
		if logOnly && !a.AuthenticatedData {
			r.Observe("passed on log-only", 1)
			continue
		}
		r.Violation(b.key, fmt.Sprintf("%s; accepted in answer to %s %s: %s", b.detail, question.Name, dns.TypeToString[question.Qtype], a), c)
	}
	if a.AuthenticatedData && low == optout {
		r.Violation("ad-on-optout", fmt.Sprintf("an answer nobody vouches for is marked authentic, to %s %s: %s", question.Name, dns.TypeToString[question.Qtype], a), c)
	}
	if a.AuthenticatedData && low == insecure {
		r.Violation("ad-on-insecure", fmt.Sprintf("data of an unsigned zone is marked authentic in answer to %s %s: %s", question.Name, dns.TypeToString[question.Qtype], a), c)
	}
}
