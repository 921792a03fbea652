// Package hold watches what queries do to each other and what they leave
// behind.
package hold

import (
	"errors"
	"fmt"
	"net"
	"runtime"
	"runtime/pprof"
	"strings"
	"sync"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// element is one kind of element, built over resolvers it asks. The alternative
// resolver is asked for names below blocked.test.
type element struct {
	name  string
	alt   bool // asks the alternative resolver for blocked names
	build func(id string, up, alt rdns.Resolver) (rdns.Resolver, error)
}

func staticRules(rules ...string) rdns.BlocklistLoader { return rdns.NewStaticLoader(rules) }

var elements = []element{
	{"fail-rotate", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewFailRotate(id, rdns.FailRotateOptions{}, up, alt), nil
	}},
	{"fail-back", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewFailBack(id, rdns.FailBackOptions{ResetAfter: time.Minute}, up, alt), nil
	}},
	{"random", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewRandom(id, rdns.RandomOptions{ResetAfter: time.Minute}, up, alt), nil
	}},
	{"round-robin", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewRoundRobin(id, up, alt), nil
	}},
	{"load-balance", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewLoadBalance(id, rdns.LoadBalanceOptions{}, up, alt), nil
	}},
	{"fastest", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewFastest(id, up, alt), nil
	}},
	{"fastest-tcp", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewFastestTCP(id, up, rdns.FastestTCPOptions{Port: 1}), nil
	}},
	{"truncate-retry", true, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewTruncateRetry(id, up, alt, rdns.TruncateRetryOptions{}), nil
	}},
	{"request-dedup", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewRequestDedup(id, up), nil
	}},
	{"rate-limiter", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewRateLimiter(id, up, rdns.RateLimiterOptions{Requests: 100000, Window: 3600}), nil
	}},
	{"rate-limiter over its limit", true, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewRateLimiter(id, up, rdns.RateLimiterOptions{Requests: 0, Window: 3600, LimitResolver: alt}), nil
	}},
	{"cache", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewCache(id, up, rdns.CacheOptions{Backend: rdns.NewMemoryBackend(rdns.MemoryBackendOptions{})}), nil
	}},
	{"prefetch", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewPrefetch(id, up, rdns.PrefetchOptions{PrefetchThreshold: 1, PrefetchMaxItems: 100}), nil
	}},
	{"router", true, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		g := rdns.NewRouter(id)
		r1, err := rdns.NewRoute(`\.blocked\.test\.$`, "", nil, nil, "", "", "", "", "", "", "", alt)
		if err != nil {
			return nil, err
		}
		r2, err := rdns.NewRoute("", "", nil, nil, "", "", "", "", "", "", "", up)
		if err != nil {
			return nil, err
		}
		g.Add(r1, r2)
		return g, nil
	}},
	{"blocklist", true, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		db, err := rdns.NewDomainDB("b", staticRules(".blocked.test"))
		if err != nil {
			return nil, err
		}
		return rdns.NewBlocklist(id, up, rdns.BlocklistOptions{BlocklistDB: db, BlocklistResolver: alt})
	}},
	{"allowlist", true, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		b, err := rdns.NewDomainDB("b", staticRules(".other.test"))
		if err != nil {
			return nil, err
		}
		a, err := rdns.NewDomainDB("a", staticRules(".blocked.test"))
		if err != nil {
			return nil, err
		}
		return rdns.NewBlocklist(id, up, rdns.BlocklistOptions{BlocklistDB: b, AllowlistDB: a, AllowListResolver: alt})
	}},
	{"client-blocklist", true, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		db, err := rdns.NewCidrDB("b", staticRules("192.0.2.66/32"))
		if err != nil {
			return nil, err
		}
		return rdns.NewClientBlocklist(id, up, rdns.ClientBlocklistOptions{BlocklistDB: db, BlocklistResolver: alt})
	}},
	{"response-blocklist-ip", true, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		db, err := rdns.NewCidrDB("b", staticRules("198.51.100.66/32"))
		if err != nil {
			return nil, err
		}
		return rdns.NewResponseBlocklistIP(id, up, rdns.ResponseBlocklistIPOptions{BlocklistDB: db, BlocklistResolver: alt})
	}},
	{"response-blocklist-name", true, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		db, err := rdns.NewDomainDB("b", staticRules("bad.test"))
		if err != nil {
			return nil, err
		}
		return rdns.NewResponseBlocklistName(id, up, rdns.ResponseBlocklistNameOptions{BlocklistDB: db, BlocklistResolver: alt})
	}},
	{"ttl-modifier", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewTTLModifier(id, up, rdns.TTLModifierOptions{SelectFunc: rdns.TTLSelectRandom, MinTTL: 10, MaxTTL: 100}), nil
	}},
	{"ecs-modifier", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewECSModifier(id, up, rdns.ECSModifierAdd(nil, 24, 56))
	}},
	{"edns0-modifier", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewEDNS0Modifier(id, up, rdns.EDNS0ModifierAdd(65001, []byte("x")))
	}},
	{"replace", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewReplace(id, up, rdns.ReplaceOperation{From: `^(.*)\.test\.$`, To: `$1.test.`})
	}},
	{"response-minimize", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewResponseMinimize(id, up), nil
	}},
	{"response-collapse", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewResponseCollapse(id, up, rdns.ResponseCollapseOptions{}), nil
	}},
	{"dns64", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewDNS64(id, up, rdns.DNS64Options{})
	}},
	{"query-log", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewQueryLogResolver(id, up, rdns.QueryLogResolverOptions{OutputFile: "/dev/null", OutputFormat: rdns.LogFormatText})
	}},
	{"lua", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewLua(id, rdns.LuaOptions{Concurrency: 64, Script: `
function Resolve(msg, ci)
	return Resolvers[1]:resolve(msg, ci)
end`}, up)
	}},
	{"dnssec", false, func(id string, up, alt rdns.Resolver) (rdns.Resolver, error) {
		return rdns.NewDNSSECValidator(id, up, rdns.DNSSECValidatorOptions{LogOnly: true})
	}},
}

// answerTo is what both resolvers say.
func answerTo(q *dns.Msg, alt bool) *dns.Msg {
	a := new(dns.Msg)
	a.SetReply(q)
	name := q.Question[0].Name
	blocked := strings.HasSuffix(name, ".blocked.test.") && !alt
	switch q.Question[0].Qtype {
	case dns.TypeA:
		ip := "198.51.100.1"
		if blocked {
			ip = "198.51.100.66"
			a.Truncated = true
			a.Answer = append(a.Answer, vt.RR("%s 60 IN CNAME bad.test.", name))
			name = "bad.test."
		}
		a.Answer = append(a.Answer, vt.RR("%s 60 IN A %s", name, ip))
	case dns.TypeTXT:
		a.Answer = append(a.Answer, vt.RR("%s 60 IN TXT x", name))
	}
	return a
}

func clientFor(name string) rdns.ClientInfo {
	ci := rdns.ClientInfo{SourceIP: net.IP{192, 0, 2, 1}, Listener: "l"}
	if strings.HasSuffix(name, ".blocked.test.") {
		ci.SourceIP = net.IP{192, 0, 2, 66}
	}
	return ci
}

// TestC39: queries do not wait for each other, and leave nothing behind.
func TestC39(t *testing.T) {
	r := vt.Start(t, "C39", "one element of the pipeline per evaluation, either with queries that wait for a resolver while others pass, or with a crowd of queries that end in all ways; distinct by (element, resolver that is slow) and (element, ends seen)")
	r.Need("queries held at a resolver", 400)
	r.Need("queries that passed held ones", 1500)
	r.Need("elements left clean", int64(len(elements)-1))
	for c := 0; c < r.N(4, 60); c++ {
		for _, e := range elements {
			if r.Violations() > 3 {
				r.Exit() // each takes long
			}
			gateCase(r, e, false, c)
			if e.alt {
				gateCase(r, e, true, c)
			}
		}
	}
	vt.Virtual(t, r, func(t *testing.T) {
		for c := 0; c < r.N(2, 30); c++ {
			for _, e := range elements {
				leakCase(r, e, c)
			}
		}
	})
}

// gateCase holds some queries at the resolver, or at the alternative one, and
// sends others through the element meanwhile.
func gateCase(r *vt.R, e element, atAlt bool, c int) {
	label := fmt.Sprintf("%s, slow alternative %v, case %d", e.name, atAlt, c)
	r.Case("%s", label)
	rnd := r.Rand("gate", e.name, atAlt, c)
	gate := make(chan struct{})
	var mu sync.Mutex
	held := map[string]bool{}
	resolver := func(alt bool) rdns.Resolver {
		return &vt.Func{Name: fmt.Sprintf("alt %v", alt), F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			name := q.Question[0].Name
			// Without an alternative both are plain members
			if strings.HasPrefix(name, "slow") && (alt == atAlt || !e.alt) {
				mu.Lock()
				held[name] = true
				mu.Unlock()
				<-gate
			}
			return answerTo(q, alt), nil
		}}
	}
	g, err := e.build(fmt.Sprintf("c39-gate-%s-%v-%d", e.name, atAlt, c), resolver(false), resolver(true))
	if err != nil {
		r.Inconclusive("%s: %v", label, err)
		return
	}
	zone := func() string {
		if e.alt && (atAlt || rnd.Intn(2) == 0) {
			return "blocked.test."
		}
		return "test."
	}
	if e.name == "rate-limiter over its limit" && !atAlt {
		return // nothing gets to the other one
	}
	slow := 1 + rnd.Intn(8)
	ended := make(chan string, 200)
	ask := func(name string, qtype uint16) {
		go func() {
			a, err := g.Resolve(vt.Query(name, qtype), clientFor(name))
			if err != nil || a == nil {
				r.Violation("result", fmt.Sprintf("the query %s ended with %v %v", name, a, err), label)
			}
			ended <- name
		}()
	}
	// where a blocked name does not get to the first resolver
	direct := map[string]bool{"router": true, "blocklist": true, "allowlist": true, "client-blocklist": true}
	for i := 0; i < slow; i++ {
		z := zone()
		if !atAlt && direct[e.name] {
			z = "test."
		}
		ask(fmt.Sprintf("slow%d.%s", i, z), dns.TypeA)
	}
	deadline := time.Now().Add(vt.HangLimit)
	for {
		mu.Lock()
		n := len(held)
		mu.Unlock()
		if n == slow {
			break
		}
		if time.Now().After(deadline) {
			r.Violation("not-sent", fmt.Sprintf("only %d of %d queries with different names got to the resolver while it is slow", n, slow), label)
			close(gate)
			return
		}
		time.Sleep(200 * time.Microsecond)
	}
	r.Observe("queries held at a resolver", slow)
	const others = 16
	for i := 0; i < others; i++ {
		z := zone()
		if i%4 == 0 {
			z = "test."
		}
		if i%4 == 1 && e.alt {
			z = "blocked.test."
		}
		ask(fmt.Sprintf("quick%d.%s", i, z), vt.Pick(rnd, dns.TypeA, dns.TypeA, dns.TypeTXT))
	}
	wait := func(n int, what string) bool {
		limit := time.After(vt.HangLimit)
		for i := 0; i < n; i++ {
			select {
			case name := <-ended:
				if what == "quick" && strings.HasPrefix(name, "slow") {
					r.Violation("result", "a query ended although its resolver did not answer", label)
					return false
				}
			case <-limit:
				r.Violation("held-up", fmt.Sprintf("%d of %d %s queries did not return within %v; %d queries were waiting for a slow resolver", n-i, n, what, vt.HangLimit, slow), label)
				return false
			}
		}
		return true
	}
	ok := wait(others, "quick")
	close(gate)
	if !ok || !wait(slow, "slow") {
		return
	}
	r.Observe("queries that passed held ones", others)
	r.Eval(fmt.Sprintf("gate %s %v", e.name, atAlt))
}

// leakCase sends crowds of queries that end in all possible ways. Once they are
// over, the element runs no more goroutines than before.
func leakCase(r *vt.R, e element, c int) {
	label := fmt.Sprintf("%s crowd %d", e.name, c)
	r.Case("%s", label)
	if e.name == "fastest-tcp" {
		return // opens real connections
	}
	rnd := r.Rand("leak", e.name, c)
	world := r.Rand("leak-world", e.name, c)
	var mu sync.Mutex
	ends := map[string]int{}
	resolver := func(alt bool) rdns.Resolver {
		return &vt.Func{Name: fmt.Sprintf("alt %v", alt), F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			mu.Lock()
			end := vt.Pick(world, "ok", "ok", "ok", "err", "drop", "servfail", "nxdomain", "refused", "tc", "empty")
			d := time.Duration(world.Intn(vt.Pick(world, 1, 100, 20000))) * time.Millisecond
			ends[end]++
			mu.Unlock()
			time.Sleep(d)
			a := answerTo(q, alt)
			switch end {
			case "err":
				return nil, errors.New("failed")
			case "drop":
				return nil, nil
			case "servfail":
				a.Rcode, a.Answer = dns.RcodeServerFailure, nil
			case "nxdomain":
				a.Rcode, a.Answer = dns.RcodeNameError, nil
			case "refused":
				a.Rcode, a.Answer = dns.RcodeRefused, nil
			case "tc":
				a.Truncated = true
			case "empty":
				a.Answer = nil
			}
			return a, nil
		}}
	}
	g, err := e.build(fmt.Sprintf("c39-leak-%s-%d", e.name, c), resolver(false), resolver(true))
	if err != nil {
		r.Inconclusive("%s: %v", label, err)
		return
	}
	crowd := func(n int) bool {
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("n%d.%s", rnd.Intn(40), vt.Pick(rnd, "test.", "blocked.test."))
			q := vt.Query(name, vt.Pick(rnd, dns.TypeA, dns.TypeA, dns.TypeAAAA, dns.TypeTXT))
			wg.Add(1)
			go func() {
				defer wg.Done()
				g.Resolve(q, clientFor(name))
			}()
			time.Sleep(time.Duration(rnd.Intn(vt.Pick(rnd, 1, 200))) * time.Millisecond)
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(time.Hour):
			r.Violation("hang", "queries did not end although their resolvers answered", label)
			return false
		}
		time.Sleep(3 * time.Hour)
		return true
	}
	if !crowd(60) {
		return
	}
	before := runtime.NumGoroutine()
	n := 300
	if !crowd(n) {
		return
	}
	r.Observe("queries of crowds", n)
	if after := runtime.NumGoroutine(); after > before+8 {
		var b strings.Builder
		pprof.Lookup("goroutine").WriteTo(&b, 1)
		r.Violation("left-behind", fmt.Sprintf("%d goroutines before and %d after %d queries, hours after the last one ended; %s", before, after, n, common(b.String())), label)
		return
	}
	r.Observe("elements left clean", 1)
	mu.Lock()
	r.State("ends seen", fmt.Sprint(e.name, len(ends)))
	mu.Unlock()
	r.Eval("crowd " + e.name)
}

// common is the most frequent stack of a goroutine profile.
func common(profile string) string {
	parts := strings.Split(profile, "\n\n")
	if len(parts) == 0 {
		return ""
	}
	return strings.Join(strings.Fields(parts[0]), " ")
}
