package dnssecmon

import (
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// TestC34 asks a validator about honest zones.
func TestC34(t *testing.T) {
	r := vt.Start(t, "C34", "true answers pass a validator unchanged, marked authentic exactly if all of it is signed")
	fetched(r)
	vt.Virtual(t, r, func(t *testing.T) {
		for i := 0; i < r.N(60, 900); i++ {
			c := fmt.Sprintf("honest %d", i)
			r.Case("%s", c)
			rnd := r.Rand("honest", i)
			w := newWorld(rnd)
			var mu sync.RWMutex
			var failing atomic.Int64 // 1 in n lookups fail
			frnd := rand.New(rand.NewSource(rnd.Int63()))
			var fmu sync.Mutex
			fails := func() int {
				n := failing.Load()
				if n == 0 {
					return -1
				}
				fmu.Lock()
				defer fmu.Unlock()
				if frnd.Int63n(n) != 0 {
					return -1
				}
				return frnd.Intn(3)
			}
			v, err := rdns.NewDNSSECValidator(c, &vt.Func{Name: "up", F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
				if q.IsEdns0() == nil || !q.IsEdns0().Do() {
					r.Violation("no-do", "asked upstream without asking for signatures: "+q.String(), c)
				}
				mu.RLock()
				defer mu.RUnlock()
				a := w.honest(q)
				switch fails() {
				case 0:
					return nil, nil
				case 1:
					return nil, errors.New("no answer")
				case 2:
					a.SetRcode(q, dns.RcodeServerFailure)
					a.Answer, a.Ns = nil, nil
				}
				a.Answer, a.Ns = copies(a.Answer), copies(a.Ns)
				a.AuthenticatedData = len(q.Question[0].Name)%2 == 0
				a.SetEdns0(1232, true)
				return a, nil
			}}, rdns.DNSSECValidatorOptions{TrustAnchors: w.anchors(), LogOnly: rnd.Intn(8) == 0})
			if err != nil {
				r.Violation("construct", err.Error(), c)
				return
			}
			round := func(n int, judged bool) {
				for k := 0; k < n; k++ {
					var wg sync.WaitGroup
					for cl := 0; cl < 3; cl++ {
						name, qtype := w.ask(rnd)
						q := vt.Query(vt.MixCase(rnd, name), qtype)
						if rnd.Intn(2) == 0 {
							q.SetEdns0(1232, rnd.Intn(2) == 0)
						}
						q.CheckingDisabled = rnd.Intn(4) == 0
						wg.Go(func() { honest(r, w, &mu, v, q, judged, c) })
					}
					wg.Wait()
				}
			}
			round(8, true)
			failing.Store(1 + rnd.Int63n(5))
			round(4, false)
			failing.Store(0)
			round(4, true)
			// New keys in some zones
			wait := time.Duration(w.ttl+1) * time.Second
			for _, z := range w.zones {
				if !z.signed || rnd.Intn(3) > 0 || z == w.root || z.secure && z.parent.names[z.name][dns.TypeDS] == nil {
					continue
				}
				roll(w, z, rnd, &mu, wait, func() { round(1, true) })
				r.Observe("rollovers", 1)
			}
			round(4, true)
			// And the keys the validator holds have to be fetched again
			time.Sleep(2 * time.Hour)
			round(4, true)
		}
		r.Need("secure", 1500)
		r.Need("insecure", 300)
		r.Need("aliases", 20)
		r.Need("NODATA secure", 200)
		r.Need("NXDOMAIN secure", 200)
		r.Need("wildcards", 20)
		r.Need("rollovers", 50)
	})
}

// roll replaces a key the way RFC 7583 says.
func roll(w *world, z *zone, rnd *rand.Rand, mu *sync.RWMutex, wait time.Duration, between func()) {
	step := func(f func()) {
		mu.Lock()
		f()
		z.sigs = map[string][]dns.RR{}
		if z.parent != nil {
			z.parent.sigs = map[string][]dns.RR{}
		}
		z.seal()
		if z.parent != nil {
			z.parent.seal()
		}
		mu.Unlock()
		between()
		time.Sleep(wait)
		between()
	}
	publish := func() {
		delete(z.names[z.name], dns.TypeDNSKEY)
		seen := map[*key]bool{}
		for _, l := range [][]*key{z.ksk, z.zsk, z.spare} {
			for _, k := range l {
				if !seen[k] {
					seen[k] = true
					k.rr.Hdr.Ttl = w.ttl
					z.put(k.rr)
				}
			}
		}
	}
	if z.ksk[0] == z.zsk[0] { // a single key: sign with both throughout
		k := newPair(rnd, true).of(z.name, 257)
		step(func() { z.ksk, z.zsk = append(z.ksk, k), append(z.zsk, k); publish() })
		swapDS(z, step, []*key{k})
		step(func() { z.ksk, z.zsk = []*key{k}, []*key{k}; publish() })
		return
	}
	if rnd.Intn(2) == 0 { // publish, use, withdraw
		k := newPair(rnd, true).of(z.name, 256)
		step(func() { z.spare = append(z.spare, k); publish() })
		old := z.zsk
		step(func() { z.zsk, z.spare = []*key{k}, append(z.spare[:len(z.spare)-1:len(z.spare)-1], old...); publish() })
		step(func() { z.spare = nil; publish() })
		return
	}
	k := newPair(rnd, true).of(z.name, 257)
	step(func() { z.ksk = append(z.ksk, k); publish() })
	swapDS(z, step, []*key{k})
	step(func() { z.ksk = []*key{k}; publish() })
}

func swapDS(z *zone, step func(func()), keys []*key) {
	if z.parent == nil || len(z.parent.names[z.name][dns.TypeDS]) == 0 {
		return
	}
	step(func() {
		delete(z.parent.names[z.name], dns.TypeDS)
		old := z.ksk
		z.ksk = keys
		z.parent.ds(z)
		z.ksk = old
	})
}

func honest(r *vt.R, w *world, mu *sync.RWMutex, v rdns.Resolver, q *dns.Msg, judged bool, c string) {
	sent := q.Copy()
	a, err := v.Resolve(q, rdns.ClientInfo{})
	if vt.Canon(q) != vt.Canon(sent) {
		r.Violation("query-changed", fmt.Sprintf("the query %s became %s", sent, q), c)
	}
	if !judged {
		r.Observe("during failures", 1)
		return
	}
	r.Eval(fmt.Sprint(c, sent.Question[0].Name, sent.Question[0].Qtype))
	mu.RLock()
	defer mu.RUnlock()
	want := w.honest(q)
	what := fmt.Sprintf("%s %s", q.Question[0].Name, dns.TypeToString[q.Question[0].Qtype])
	if err != nil || a == nil {
		r.Violation("lost", fmt.Sprintf("%s: %v %v", what, a, err), c)
		return
	}
	if a.Rcode != want.Rcode {
		r.Violation("true-answer-refused", fmt.Sprintf("%s is answered with %s, true is %s", what, dns.RcodeToString[a.Rcode], want), c)
		return
	}
	_, low := w.judge(q.Question[0], want)
	do := q.IsEdns0() != nil && q.IsEdns0().Do()
	qtype := q.Question[0].Qtype
	keep := func(rr dns.RR) bool {
		t := rr.Header().Rrtype
		return t != dns.TypeOPT && (do || t == qtype || t != dns.TypeRRSIG && t != dns.TypeNSEC && t != dns.TypeNSEC3)
	}
	for _, s := range []struct {
		name      string
		got, want []dns.RR
	}{{"answer", filter(a.Answer, func(rr dns.RR) bool { return rr.Header().Rrtype != dns.TypeOPT }), filter(want.Answer, keep)}, {"authority", a.Ns, filter(want.Ns, keep)}} {
		if !vt.SameMultiset(vt.RRStrings(s.got), vt.RRStrings(s.want)) {
			r.Violation("changed", fmt.Sprintf("%s (signatures wanted: %v): %s section is %v, expected %v", what, do, s.name, s.got, s.want), c)
		}
	}
	if o := a.IsEdns0(); (o != nil) != (q.IsEdns0() != nil) {
		r.Violation("edns", fmt.Sprintf("%s: client had EDNS %v, answer has %v", what, q.IsEdns0() != nil, o != nil), c)
	} else if o != nil && o.Do() != do {
		r.Violation("edns-do", fmt.Sprintf("%s: client asked for signatures %v, the answer says %v", what, do, o.Do()), c)
	}
	kind := "data"
	if len(want.Answer) == 0 {
		kind = "NODATA"
		if want.Rcode == dns.RcodeNameError {
			kind = "NXDOMAIN"
		}
	}
	for _, rr := range want.Answer {
		if rr.Header().Rrtype == dns.TypeCNAME {
			r.Observe("aliases", 1)
		}
		if s, ok := rr.(*dns.RRSIG); ok && int(s.Labels) < dns.CountLabel(s.Hdr.Name) {
			r.Observe("wildcards", 1)
		}
	}
	switch low {
	case secure:
		r.Observe("secure", 1)
		r.Observe(kind+" secure", 1)
		if !a.AuthenticatedData {
			r.Violation("not-marked", fmt.Sprintf("%s is signed throughout, but not marked authentic: %s", what, a), c)
		}
	case insecure:
		r.Observe("insecure", 1)
		r.Observe(kind+" insecure", 1)
		if a.AuthenticatedData {
			r.Violation("marked", fmt.Sprintf("%s is unsigned at least in part, but marked authentic: %s", what, a), c)
		}
	default:
		r.Observe("opt-out", 1)
		if a.AuthenticatedData {
			r.Violation("marked-optout", fmt.Sprintf("%s is in a span that may hold unsigned delegations, but marked authentic: %s", what, a), c)
		}
	}
	r.State("answer", fmt.Sprint(kind, low, dns.TypeToString[qtype], len(want.Answer), len(want.Ns), do))
}
