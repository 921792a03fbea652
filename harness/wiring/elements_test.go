package wiring

import (
	"crypto"
	"crypto/ecdsa"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/miekg/dns"

	"verif/harness/vt"
)

func up(is ...int) (l []string) {
	for _, i := range is {
		l = append(l, fmt.Sprintf("up%d", i))
	}
	return
}

func servfail(q *dns.Msg) *dns.Msg { return new(dns.Msg).SetRcode(q, dns.RcodeServerFailure) }
func empty(q *dns.Msg) *dns.Msg    { return new(dns.Msg).SetReply(q) }

func first(name string) string { return dns.SplitDomainName(strings.ToLower(name))[0] }

// failures gives the first server of a case a failing answer.
func failures(bad int) handler {
	return func(i int, q *dns.Msg) *dns.Msg {
		if i == bad {
			switch first(q.Question[0].Name)[:2] {
			case "sf":
				return servfail(q)
			case "em":
				return empty(q)
			}
		}
		return plain(i, q)
	}
}

// failGroups: groups of several resolvers and what they take for a failure.
func (w *world) failGroups() {
	perm := w.rnd.Perm(nUp)
	{
		k := 2 + w.rnd.Intn(3)
		c := w.c(nil)
		l := w.udp(w.group("rr-"+c, "round-robin", up(perm[:k]...)))
		w.step("round-robin", func() {
			got := map[int]int{}
			for i := 0; i < 2*k; i++ {
				got[from(w.a(l, fmt.Sprintf("n%d.%s.test.", i, c)))]++
			}
			for _, i := range perm[:k] {
				w.check(got[i] == 2, "round-robin", "of %d queries to servers %v, server %d answered %d (all: %v)", 2*k, perm[:k], i, got[i], got)
			}
		})
	}
	for _, typ := range []string{"fail-rotate", "fail-back", "random", "load-balance"} {
		for _, kind := range []string{"sf", "em"} {
			on := w.coin()
			key, opt := "servfail-error", ""
			if kind == "em" {
				key = "empty-error"
			}
			if on {
				opt = key + " = true"
			} else if w.coin() {
				opt = key + " = false"
			}
			c := w.c(func(i int, q *dns.Msg) *dns.Msg {
				if kind == "sf" {
					return servfail(q)
				}
				return empty(q)
			})
			l := w.udp(w.group(typ+"-"+c, typ, up(perm[0], perm[1]), opt))
			w.step(typ+" "+key, func() {
				name := kind + "." + c + ".test."
				w.a(l, name)
				want := 1
				if on {
					want = 2
				}
				w.check(w.count(c, name) == want, typ+" "+key, "%s with %q asked %d servers about an answer of kind %s, not %d", typ, opt, w.count(c, name), kind, want)
			})
		}
		if typ == "random" || typ == "load-balance" {
			c := w.c(failures(perm[0]))
			l := w.udp(w.group(typ+"-"+c, typ, up(perm[0], perm[1]), "servfail-error = true"))
			w.step(typ, func() {
				for i := 0; i < 6; i++ {
					a := w.a(l, fmt.Sprintf("sf%d.%s.test.", i, c))
					w.check(from(a) == perm[1], typ, "%s with one failing resolver answered %s", typ, short(a))
				}
			})
		}
	}
	// how long a failed first resolver is left aside
	for _, reset := range []string{"", "0", "1", "3600"} {
		for _, typ := range []string{"fail-back", "random"} {
			opt := ""
			if reset != "" {
				opt = "reset-after = " + reset
			}
			res := up(perm[0], perm[1])
			c := w.c(failures(perm[0]))
			l := w.udp(w.group(typ+"-"+c, typ, res, opt, "servfail-error = true"))
			w.slowStep(typ+" reset-after", func() {
				if typ == "random" {
					// ask until the failing one was picked
					for i := 0; i < 200 && w.count(c, fmt.Sprintf("sf%d.%s.test.", i-1, c)) < 2; i++ {
						w.a(l, fmt.Sprintf("sf%d.%s.test.", i, c))
					}
				} else {
					a := w.a(l, "sf."+c+".test.")
					w.check(from(a) == perm[1], typ+" failover", "%s answered %s when the first resolver fails", typ, short(a))
				}
				back := func(prefix string, n int) bool {
					for i := 0; i < n; i++ {
						if from(w.a(l, fmt.Sprintf("%s%d.%s.test.", prefix, i, c))) == perm[0] {
							return true
						}
					}
					return false
				}
				switch reset {
				case "0":
					// the other goroutine of the group needs a moment
					k := 0
					ok := w.until(func() bool { k++; return back(fmt.Sprintf("ok%d", k), 1) })
					w.check(ok, typ+" reset-after", "%s with reset-after 0 does not go back to the first resolver", typ)
				case "1":
					k := 0
					ok := w.until(func() bool { k++; return back(fmt.Sprintf("ok%d-", k), 8) })
					w.check(ok, typ+" reset-after", "%s with reset-after 1 does not go back to the first resolver", typ)
				default:
					w.check(!back("ok", 12), typ+" reset-after", "%s with %q uses the failed resolver again at once", typ, opt)
				}
			})
		}
	}
	{
		c := w.c(func(i int, q *dns.Msg) *dns.Msg {
			if i == perm[0] {
				time.Sleep(8 * time.Second)
			}
			return plain(i, q)
		})
		l := w.udp(w.group("fastest-"+c, "fastest", up(perm[0], perm[1])))
		w.step("fastest", func() {
			a := w.a(l, "x."+c+".test.")
			w.check(from(a) == perm[1], "fastest", "fastest waited for the slow resolver: %s", short(a))
			w.until(func() bool { return len(w.seen(c)) == 2 })
			w.check(len(w.seen(c)) == 2, "fastest", "fastest asked %d of 2 resolvers", len(w.seen(c)))
		})
	}
}

// rule makes a rule for a name in a format.
func (w *world) rule(format, name string) string {
	n := strings.TrimSuffix(name, ".")
	switch format {
	case "regexp", "":
		return `^` + strings.ReplaceAll(n, ".", `\.`) + `\.$`
	case "domain-subdomain":
		return n
	case "domain":
		return vt.Pick(w.rnd, "." + n, n)
	case "hosts":
		return "0.0.0.0 " + n
	}
	panic(format)
}

func macQuery(name, mac string) *dns.Msg {
	q := vt.Query(name, dns.TypeA)
	q.SetEdns0(1232, false)
	hw, _ := net.ParseMAC(mac)
	q.IsEdns0().Option = append(q.IsEdns0().Option, &dns.EDNS0_LOCAL{Code: 65001, Data: hw})
	return q
}

func ede(a *dns.Msg) string {
	if a == nil || a.IsEdns0() == nil {
		return ""
	}
	for _, o := range a.IsEdns0().Option {
		if e, ok := o.(*dns.EDNS0_EDE); ok {
			return fmt.Sprintf("%d %s", e.InfoCode, e.ExtraText)
		}
	}
	return ""
}

var formats = []string{"regexp", "", "domain", "domain-subdomain", "hosts"}

func formatLine(key, f string) string {
	if f == "" {
		return ""
	}
	return fmt.Sprintf("%s = %q", key, f)
}

func list(key string, rules ...string) string {
	q := make([]string, len(rules))
	for i, r := range rules {
		q[i] = "'" + r + "'"
	}
	return key + " = [" + strings.Join(q, ", ") + "]"
}

func (w *world) blocklists() {
	blocked := func(key, format string, a *dns.Msg) {
		ok := rcode(a) == "NXDOMAIN"
		if format == "hosts" {
			// an unspecified address stands for a blocked name
			ok = ok || a != nil && a.Rcode == 0 && from(a) < 0 || a != nil && len(a.Answer) == 1 && strings.Contains(a.Answer[0].String(), "0.0.0.0")
		}
		w.check(ok, key, "a name on the list (format %q) got %s", format, short(a))
	}
	passed := func(key, format string, a *dns.Msg, srv int) {
		w.check(from(a) == srv, key, "a name (format %q) that should reach server %d got %s", format, srv, short(a))
	}
	for _, f := range formats {
		// the first version, with rules in the configuration
		c := w.c(nil)
		n, o := "bad."+c+".test.", "good."+c+".test."
		l := w.udp(w.group("bl-"+c, "blocklist", up(0), formatLine("format", f), list("blocklist", w.rule(f, n))))
		w.step("blocklist "+f, func() {
			blocked("blocklist", f, w.a(l, n))
			passed("blocklist", f, w.a(l, o), 0)
		})
		// with rules in a file
		c2 := w.c(nil)
		n2, o2 := "bad."+c2+".test.", "good."+c2+".test."
		src := w.file("bl-"+c2, w.rule(f, n2)+"\n")
		refresh := w.coin()
		line := ""
		if refresh {
			line = "refresh = 1"
		}
		l2 := w.udp(w.group("bl-"+c2, "blocklist", up(1), formatLine("format", f), fmt.Sprintf("source = %q", src), line))
		w.slowStep("blocklist source "+f, func() {
			blocked("blocklist source", f, w.a(l2, n2))
			passed("blocklist source", f, w.a(l2, o2), 1)
			w.file("bl-"+c2, w.rule(f, o2)+"\n")
			if refresh {
				ok := w.until(func() bool { return from(w.a(l2, n2)) == 1 })
				w.check(ok, "blocklist refresh", "a rule removed from the source of a list (format %q) with refresh is still in force", f)
				blocked("blocklist refresh", f, w.a(l2, o2))
			} else {
				time.Sleep(1300 * time.Millisecond)
				blocked("blocklist refresh", f, w.a(l2, n2))
			}
		})
	}
	for k, f := range formats {
		// the second version, static lists
		af := formats[w.rnd.Intn(len(formats))]
		if af == "hosts" {
			af = "domain"
		}
		c := w.c(nil)
		n, o, both := "bad."+c+".test.", "good."+c+".test.", "both."+c+".test."
		al := "allow." + c + ".test."
		var lines []string
		lines = append(lines, formatLine("blocklist-format", f), list("blocklist", w.rule(f, n), w.rule(f, both)))
		lines = append(lines, formatLine("allowlist-format", af), list("allowlist", w.rule(af, both), w.rule(af, al)))
		blr, alr := w.coin(), w.coin()
		if blr {
			lines = append(lines, `blocklist-resolver = "up2"`)
		}
		if alr {
			lines = append(lines, `allowlist-resolver = "up3"`)
		}
		e := ""
		if w.coin() {
			code := 15 + w.rnd.Intn(4)
			lines = append(lines, fmt.Sprintf("edns0-ede = {code = %d, text = \"{{ .Question }} on list %d\"}", code, k))
			e = fmt.Sprintf("%d %s on list %d", code, n, k)
		}
		l := w.udp(w.group("bl2-"+c, "blocklist-v2", up(k%2), lines...))
		w.step("blocklist-v2", func() {
			q := vt.Query(n, dns.TypeA)
			q.SetEdns0(1232, false)
			a := w.ask(l, q)
			if blr && f != "hosts" {
				passed("blocklist-v2 blocklist-resolver", f, a, 2)
			} else if !blr {
				blocked("blocklist-v2", f, a)
				if a != nil && f != "hosts" {
					w.check(ede(a) == e, "blocklist-v2 edns0-ede", "a blocked query got the extended error %q, not %q", ede(a), e)
				}
			}
			passed("blocklist-v2", f, w.a(l, o), k%2)
			want := k % 2
			if alr {
				want = 3
			}
			passed("blocklist-v2 allowlist", af, w.a(l, both), want)
			passed("blocklist-v2 allowlist", af, w.a(l, al), want)
		})
		// and lists from several sources, each with its own format
		c2 := w.c(nil)
		f2 := formats[w.rnd.Intn(len(formats)-1)]
		b1, b2, good, allow := "b1."+c2+".test.", "b2."+c2+".test.", "good."+c2+".test.", "al."+c2+".test."
		s1 := w.file("s1-"+c2, w.rule(f, b1)+"\n"+w.rule(f, allow)+"\n")
		s2 := w.file("s2-"+c2, w.rule(f2, b2)+"\n")
		s3 := w.file("s3-"+c2, w.rule(f2, allow)+"\n")
		src := func(f, s string) string {
			if f == "" {
				return fmt.Sprintf("{source = %q}", s)
			}
			return fmt.Sprintf("{format = %q, source = %q}", f, s)
		}
		br, ar := w.coin(), w.coin()
		lines = []string{"blocklist-source = [" + src(f, s1) + ", " + src(f2, s2) + fmt.Sprintf(", {source = %q, allow-failure = true}", filepath.Join(w.dir, "missing")) + "]", "allowlist-source = [" + src(f2, s3) + "]"}
		if br {
			lines = append(lines, "blocklist-refresh = 1")
		}
		if ar {
			lines = append(lines, "allowlist-refresh = 1")
		}
		l2 := w.udp(w.group("bls-"+c2, "blocklist-v2", up(1), lines...))
		w.slowStep("blocklist-v2 sources", func() {
			blocked("blocklist-v2 source", f, w.a(l2, b1))
			blocked("blocklist-v2 source", f2, w.a(l2, b2))
			passed("blocklist-v2 source", f, w.a(l2, good), 1)
			passed("blocklist-v2 allowlist source", f2, w.a(l2, allow), 1)
			w.file("s2-"+c2, w.rule(f2, good)+"\n")
			w.file("s3-"+c2, w.rule(f2, b1)+"\n")
			if br {
				ok := w.until(func() bool { return from(w.a(l2, b2)) == 1 })
				w.check(ok, "blocklist-v2 refresh", "a rule removed from the blocklist's source is still in force")
				blocked("blocklist-v2 refresh", f2, w.a(l2, good))
			}
			if ar {
				ok := w.until(func() bool { return from(w.a(l2, b1)) == 1 })
				w.check(ok, "blocklist-v2 allowlist refresh", "a rule added to the allowlist's source has no effect")
				blocked("blocklist-v2 allowlist refresh", f, w.a(l2, allow))
			}
			if !br || !ar {
				time.Sleep(1300 * time.Millisecond)
			}
			if !br {
				blocked("blocklist-v2 refresh", f2, w.a(l2, b2))
			}
			if !ar {
				blocked("blocklist-v2 allowlist refresh", f, w.a(l2, b1))
			}
		})
	}
	{
		c := w.c(nil)
		mac := "01:23:45:ab:cd:ef"
		l := w.udp(w.group("mac-"+c, "blocklist-v2", up(0), `blocklist-format = "mac"`, list("blocklist", mac)))
		w.step("blocklist mac", func() {
			blocked("blocklist-v2 mac", "mac", w.ask(l, macQuery("a."+c+".test.", mac)))
			passed("blocklist-v2 mac", "mac", w.ask(l, macQuery("b."+c+".test.", "01:23:45:ab:cd:ee")), 0)
		})
	}
	// a remote source, kept in a directory
	{
		c := w.c(nil)
		n := "bad." + c + ".test."
		var mu sync.Mutex
		got := 0
		ls, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		w.held = append(w.held, ls)
		go http.Serve(ls, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			mu.Lock()
			got++
			mu.Unlock()
			fmt.Fprintln(rw, strings.TrimSuffix(n, "."))
		}))
		dir := filepath.Join(w.dir, "cache-"+c)
		os.Mkdir(dir, 0o700)
		l := w.udp(w.group("http-"+c, "blocklist-v2", up(0), fmt.Sprintf("blocklist-source = [{format = \"domain\", source = \"http://%s/list\", cache-dir = %q}]", ls.Addr(), dir)))
		w.step("blocklist http", func() {
			blocked("blocklist-v2 http source", "domain", w.a(l, n))
			passed("blocklist-v2 http source", "domain", w.a(l, "good."+c+".test."), 0)
			fs, _ := os.ReadDir(dir)
			w.check(len(fs) == 1, "blocklist-v2 cache-dir", "%d files in the list's cache directory", len(fs))
			mu.Lock()
			w.check(got == 1, "blocklist-v2 http source", "the remote list was fetched %d times", got)
			mu.Unlock()
		})
	}
	w.responseLists()
}

// responseLists: lists on answers and on clients.
func (w *world) responseLists() {
	for k := 0; k < 4; k++ {
		filter, inverted, alt, viaFile := w.coin(), w.coin(), w.coin(), w.coin()
		c := w.c(func(i int, q *dns.Msg) *dns.Msg {
			a := new(dns.Msg).SetReply(q)
			n := q.Question[0].Name
			if i == 3 {
				return plain(3, q)
			}
			if first(n) != "out" {
				a.Answer = append(a.Answer, vt.RR("%s 300 IN A 10.7.1.1", n))
			}
			if first(n) != "in" {
				a.Answer = append(a.Answer, vt.RR("%s 300 IN A 10.8.1.1", n))
			}
			return a
		})
		typ := vt.Pick(w.rnd, "response-blocklist-ip", "response-blocklist-cidr")
		var lines []string
		if filter {
			lines = append(lines, "filter = true")
		}
		if inverted {
			lines = append(lines, "inverted = true")
		}
		if alt {
			lines = append(lines, `blocklist-resolver = "up3"`)
		}
		lines = append(lines, fmt.Sprintf("edns0-ede = {code = 17, text = \"r%d\"}", k))
		src := ""
		if viaFile {
			src = w.file("ip-"+c, "10.7.0.0/16\n")
			f := vt.Pick(w.rnd, "", `, format = "cidr"`)
			lines = append(lines, fmt.Sprintf("blocklist-source = [{source = %q%s}]", src, f), "blocklist-refresh = 1")
		} else {
			lines = append(lines, list("blocklist", "10.7.0.0/16"), vt.Pick(w.rnd, "", `blocklist-format = "cidr"`))
		}
		l := w.udp(w.group("rip-"+c, typ, up(0), lines...))
		probe := func(key string, listed func(ip string) bool) {
			for _, n := range []string{"in", "out", "both"} {
				q := vt.Query(n+"."+c+".test.", dns.TypeA)
				q.SetEdns0(1232, false)
				a := w.ask(l, q)
				ips := map[string][]string{"in": {"10.7.1.1"}, "out": {"10.8.1.1"}, "both": {"10.7.1.1", "10.8.1.1"}}[n]
				var keep []string
				for _, ip := range ips {
					if listed(ip) == inverted {
						keep = append(keep, ip)
					}
				}
				var got []string
				if a != nil {
					for _, rr := range a.Answer {
						got = append(got, rr.(*dns.A).A.String())
					}
				}
				want := strings.Join(keep, " ")
				if !filter && len(keep) < len(ips) {
					want = ""
				}
				desc := fmt.Sprintf("%s filter=%v inverted=%v alt=%v, answers %v", typ, filter, inverted, alt, ips)
				switch {
				case want != "":
					w.check(strings.Join(got, " ") == want, key, "%s: got %s", desc, short(a))
				case alt:
					w.check(from(a) == 3, key+" blocklist-resolver", "%s: got %s", desc, short(a))
				default:
					w.check(rcode(a) == "NXDOMAIN", key, "%s: got %s", desc, short(a))
					if !filter {
						w.check(ede(a) == fmt.Sprintf("17 r%d", k), key+" edns0-ede", "%s: extended error %q", desc, ede(a))
					}
				}
			}
		}
		w.slowStep(typ, func() {
			probe("response-blocklist-ip", func(ip string) bool { return strings.HasPrefix(ip, "10.7.") })
			if viaFile {
				w.file("ip-"+c, "10.8.0.0/16\n")
				ok := w.until(func() bool {
					a := w.a(l, "in."+c+".test.")
					return (a != nil && len(a.Answer) == 1 && a.Answer[0].(*dns.A).A.String() == "10.7.1.1") != inverted
				})
				w.check(ok, "response-blocklist-ip refresh", "a changed source has no effect")
				if ok {
					probe("response-blocklist-ip refresh", func(ip string) bool { return strings.HasPrefix(ip, "10.8.") })
				}
			}
		})
	}
	for k := 0; k < 3; k++ {
		inverted, alt := w.coin(), w.coin()
		f := formats[w.rnd.Intn(len(formats)-1)]
		c := w.c(func(i int, q *dns.Msg) *dns.Msg {
			if i == 3 {
				return plain(3, q)
			}
			a := new(dns.Msg).SetReply(q)
			a.Answer = []dns.RR{vt.RR("%s 300 IN CNAME %s-target.%s", q.Question[0].Name, first(q.Question[0].Name), q.Question[0].Name)}
			return a
		})
		target := "in-target.in." + c + ".test."
		lines := []string{formatLine("blocklist-format", f), list("blocklist", w.rule(f, target))}
		if k == 2 {
			lines = []string{fmt.Sprintf("blocklist-source = [{format = %q, source = %q}]", f, w.file("rn-"+c, w.rule(f, target)+"\n"))}
		}
		if inverted {
			lines = append(lines, "inverted = true")
		}
		if alt {
			lines = append(lines, `blocklist-resolver = "up3"`)
		}
		l := w.udp(w.group("rn-"+c, "response-blocklist-name", up(0), lines...))
		w.step("response-blocklist-name", func() {
			for _, n := range []string{"in", "out"} {
				a := w.ask(l, vt.Query(n+"."+c+".test.", dns.TypeCNAME))
				block := (n == "in") != inverted
				switch {
				case !block:
					w.check(rcode(a) == "NOERROR" && len(a.Answer) == 1 && from(a) == -1, "response-blocklist-name", "inverted=%v format=%q: %s got %s", inverted, f, n, short(a))
				case alt:
					w.check(from(a) == 3, "response-blocklist-name blocklist-resolver", "inverted=%v format=%q: %s got %s", inverted, f, n, short(a))
				default:
					w.check(rcode(a) == "NXDOMAIN", "response-blocklist-name", "inverted=%v format=%q: %s got %s", inverted, f, n, short(a))
				}
			}
		})
	}
	for k := 0; k < 3; k++ {
		ecs, alt := w.coin(), w.coin()
		c := w.c(nil)
		var lines []string
		if ecs {
			lines = append(lines, "use-ecs = true")
		}
		if alt {
			lines = append(lines, `blocklist-resolver = "up2"`)
		}
		if k == 0 {
			lines = append(lines, fmt.Sprintf("blocklist-source = [{source = %q}]", w.file("cl-"+c, "127.9.0.0/16\n10.9.0.0/16\n")))
		} else {
			lines = append(lines, list("blocklist", "127.9.0.0/16", "10.9.0.0/16"))
		}
		l := w.udp(w.group("cl-"+c, "client-blocklist", up(0), lines...))
		w.step("client-blocklist", func() {
			for _, src := range []string{"127.9.1.1", "127.8.1.1"} {
				for _, e := range []string{"", "10.9.1.0", "10.8.1.0"} {
					q := vt.Query(fmt.Sprintf("q%d.%s.test.", w.rnd.Intn(1000), c), dns.TypeA)
					ip := src
					if e != "" {
						vt.AddECS(q, e, 24)
						if ecs {
							ip = e
						}
					}
					a := w.ask(l, q, askOpt{src: src})
					block := strings.Contains(ip, ".9.")
					switch {
					case !block:
						w.check(from(a) == 0, "client-blocklist", "use-ecs=%v client %s with ECS %q got %s", ecs, src, e, short(a))
					case alt:
						w.check(from(a) == 2, "client-blocklist blocklist-resolver", "use-ecs=%v client %s with ECS %q got %s", ecs, src, e, short(a))
					default:
						w.check(rcode(a) == "REFUSED", "client-blocklist", "use-ecs=%v client %s with ECS %q got %s", ecs, src, e, short(a))
					}
				}
			}
		})
	}
}

// modifiers: elements that change queries and answers.
func (w *world) modifiers() {
	{
		c, c2 := w.c(nil), w.c(nil)
		l := w.udp(w.group("rep-"+c, "replace", up(0), fmt.Sprintf("replace = [{from = '^old\\.%s\\.(.*)', to = 'new.%s.${1}'}]", c, c2)))
		w.step("replace", func() {
			a := w.a(l, "old."+c+".test.")
			w.check(w.count(c2, "new."+c2+".test.") == 1, "replace", "the replaced name was not asked for")
			w.check(a != nil && len(a.Question) == 1 && a.Question[0].Name == "old."+c+".test." && len(a.Answer) == 1 && a.Answer[0].Header().Name == "old."+c+".test.", "replace", "the answer is not for the name asked: %v", a)
			w.a(l, "other."+c+".test.")
			w.check(w.count(c, "other."+c+".test.") == 1, "replace", "a name that does not match was changed")
		})
	}
	ttls := []uint32{uint32(20 + 2*w.rnd.Intn(50)), uint32(200 + 2*w.rnd.Intn(50)), uint32(2000 + 2*w.rnd.Intn(50))}
	w.rnd.Shuffle(3, func(i, j int) { ttls[i], ttls[j] = ttls[j], ttls[i] })
	for _, sel := range []string{"", "lowest", "highest", "average", "first", "last", "random"} {
		min, max := uint32(0), uint32(0)
		if w.coin() {
			min = uint32(50 + w.rnd.Intn(300))
		}
		if w.coin() {
			max = 400 + uint32(w.rnd.Intn(1000))
		}
		c := w.c(func(i int, q *dns.Msg) *dns.Msg {
			a := new(dns.Msg).SetReply(q)
			for k, t := range ttls {
				a.Answer = append(a.Answer, vt.RR("%s %d IN A 10.0.0.%d", q.Question[0].Name, t, k))
			}
			return a
		})
		var lines []string
		if sel != "" {
			lines = append(lines, fmt.Sprintf("ttl-select = %q", sel))
		}
		if min > 0 {
			lines = append(lines, fmt.Sprintf("ttl-min = %d", min))
		}
		if max > 0 {
			lines = append(lines, fmt.Sprintf("ttl-max = %d", max))
		}
		l := w.udp(w.group("ttl-"+c, "ttl-modifier", up(0), lines...))
		clamp := func(t uint32) uint32 {
			if t < min {
				t = min
			}
			if max > 0 && t > max {
				t = max
			}
			return t
		}
		w.step("ttl-modifier", func() {
			a := w.a(l, "x."+c+".test.")
			if a == nil || len(a.Answer) != 3 {
				w.check(false, "ttl-modifier", "got %s", short(a))
				return
			}
			lo, hi, sum := ttls[0], ttls[0], uint32(0)
			for _, t := range ttls {
				if t < lo {
					lo = t
				}
				if t > hi {
					hi = t
				}
				sum += t
			}
			var got []uint32
			for _, rr := range a.Answer {
				got = append(got, rr.Header().Ttl)
			}
			ok := true
			for k, g := range got {
				switch sel {
				case "":
					ok = ok && g == clamp(ttls[k])
				case "lowest":
					ok = ok && g == clamp(lo)
				case "highest":
					ok = ok && g == clamp(hi)
				case "average":
					ok = ok && (g == clamp(sum/3) || g == clamp(sum/3+1))
				case "first":
					ok = ok && g == clamp(ttls[0])
				case "last":
					ok = ok && g == clamp(ttls[2])
				case "random":
					ok = ok && g >= min && (max == 0 || g <= max) && g == got[0]
				}
			}
			w.check(ok, "ttl-modifier "+sel, "TTLs %v with select %q, min %d, max %d became %v", ttls, sel, min, max, got)
		})
	}
	{
		c := w.c(func(i int, q *dns.Msg) *dns.Msg {
			if i == 0 && first(q.Question[0].Name) == "tc" {
				a := empty(q)
				a.Truncated = true
				return a
			}
			return plain(i, q)
		})
		l := w.udp(w.group("tr-"+c, "truncate-retry", up(0), `retry-resolver = "upt1"`))
		w.step("truncate-retry", func() {
			a := w.a(l, "tc."+c+".test.")
			w.check(from(a) == 1 && !a.Truncated, "truncate-retry", "a truncated answer became %s", short(a))
			a = w.a(l, "ok."+c+".test.")
			w.check(from(a) == 0, "truncate-retry", "a complete answer became %s", short(a))
			for _, q := range w.seen(c) {
				w.check(q.tcp == (q.server == 1), "resolver protocol", "a query reached server %d over the wrong transport", q.server)
			}
		})
	}
	{
		c := w.c(func(i int, q *dns.Msg) *dns.Msg {
			time.Sleep(1500 * time.Millisecond)
			return plain(i, q)
		})
		l := w.udp(w.group("dd-"+c, "request-dedup", up(0)))
		w.slowStep("request-dedup", func() {
			var wg sync.WaitGroup
			var mu sync.Mutex
			good := 0
			for i := 0; i < 20; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if from(w.a(l, "x."+c+".test.")) == 0 {
						mu.Lock()
						good++
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			w.check(good == 20 && len(w.seen(c)) < 20, "request-dedup", "of 20 equal queries at once, %d were answered and %d forwarded", good, len(w.seen(c)))
		})
	}
	for _, all := range []bool{false, true} {
		p := w.port()
		for _, ip := range []string{"127.0.40.1", "127.0.40.2"} {
			ls, err := net.Listen("tcp", fmt.Sprintf("%s:%d", ip, p))
			if err != nil {
				panic(err)
			}
			w.held = append(w.held, ls)
		}
		min := 301 + w.rnd.Intn(1000)
		c := w.c(func(i int, q *dns.Msg) *dns.Msg {
			a := new(dns.Msg).SetReply(q)
			a.Answer = []dns.RR{vt.RR("%s 300 IN A 127.0.40.1", q.Question[0].Name), vt.RR("%s 300 IN A 127.0.40.2", q.Question[0].Name)}
			return a
		})
		line := ""
		if all {
			line = "wait-all = true"
		}
		l := w.udp(w.group("ft-"+c, "fastest-tcp", up(0), fmt.Sprintf("port = %d", p), line, fmt.Sprintf("success-ttl-min = %d", min)))
		w.step("fastest-tcp", func() {
			a := w.a(l, "x."+c+".test.")
			if a == nil || len(a.Answer) != 2 {
				w.check(false, "fastest-tcp", "got %s", short(a))
				return
			}
			for _, rr := range a.Answer {
				w.check(rr.Header().Ttl == uint32(min), "fastest-tcp", "addresses that answer on port %d did not get TTL %d: %s", p, min, short(a))
			}
		})
	}
	w.edns()
}

func ecsOf(q *dns.Msg) string {
	if o := q.IsEdns0(); o != nil {
		for _, x := range o.Option {
			if e, ok := x.(*dns.EDNS0_SUBNET); ok {
				return fmt.Sprintf("%s/%d", e.Address, e.SourceNetmask)
			}
		}
	}
	return ""
}

func (w *world) edns() {
	mask := func(ip string, bits int) string {
		x := net.ParseIP(ip)
		if v4 := x.To4(); v4 != nil {
			return fmt.Sprintf("%s/%d", v4.Mask(net.CIDRMask(bits, 32)), bits)
		}
		return fmt.Sprintf("%s/%d", x.Mask(net.CIDRMask(bits, 128)), bits)
	}
	for _, op := range []string{"add", "add-if-missing", "delete", "privacy", "add6"} {
		p4, p6 := 8+w.rnd.Intn(20), 32+w.rnd.Intn(60)
		addr := ""
		if w.coin() {
			addr = "203.0.113.77"
		}
		if op == "add6" {
			addr = "2001:db8:1234:5678:9abc::1"
		}
		o := strings.TrimSuffix(op, "6")
		lines := []string{fmt.Sprintf("ecs-op = %q", o), fmt.Sprintf("ecs-prefix4 = %d", p4), fmt.Sprintf("ecs-prefix6 = %d", p6)}
		if addr != "" {
			lines = append(lines, fmt.Sprintf("ecs-address = %q", addr))
		}
		c := w.c(nil)
		l := w.udp(w.group("ecs-"+c, "ecs-modifier", up(0), lines...))
		w.step("ecs-modifier "+op, func() {
			for k, have := range []string{"", "198.51.100.99"} {
				name := fmt.Sprintf("q%d.%s.test.", k, c)
				q := vt.Query(name, dns.TypeA)
				if have != "" {
					vt.AddECS(q, have, 32)
				}
				w.ask(l, q, askOpt{src: "127.3.77.5"})
				s := addr
				if s == "" {
					s = "127.3.77.5"
				}
				bits := p4
				if strings.Contains(s, ":") {
					bits = p6
				}
				want := ""
				switch o {
				case "add":
					want = mask(s, bits)
				case "add-if-missing":
					if have != "" {
						want = have + "/32"
					} else {
						want = mask(s, bits)
					}
				case "privacy":
					if have != "" {
						want = mask(have, p4)
					}
				}
				got := "no query"
				for _, u := range w.seen(c) {
					if u.m.Question[0].Name == name {
						got = ecsOf(u.m)
					}
				}
				w.check(got == want, "ecs-modifier "+op, "%v on a query with ECS %q from 127.3.77.5 sent %q, not %q", lines, have, got, want)
			}
		})
	}
	for _, op := range []string{"add", "delete"} {
		code := 65002 + w.rnd.Intn(500)
		data := []byte{byte(w.rnd.Intn(256)), byte(w.rnd.Intn(256)), byte(w.rnd.Intn(256))}
		c := w.c(nil)
		lines := []string{fmt.Sprintf("edns0-op = %q", op), fmt.Sprintf("edns0-code = %d", code)}
		if op == "add" {
			lines = append(lines, fmt.Sprintf("edns0-data = [%d, %d, %d]", data[0], data[1], data[2]))
		}
		l := w.udp(w.group("edns-"+c, "edns0-modifier", up(0), lines...))
		w.step("edns0-modifier "+op, func() {
			q := vt.Query("x."+c+".test.", dns.TypeA)
			q.SetEdns0(1232, false)
			q.IsEdns0().Option = []dns.EDNS0{&dns.EDNS0_LOCAL{Code: uint16(code), Data: []byte{9}}, &dns.EDNS0_LOCAL{Code: uint16(code + 1), Data: []byte{8}}}
			w.ask(l, q)
			var got []string
			for _, u := range w.seen(c) {
				if e := u.m.IsEdns0(); e != nil {
					for _, x := range e.Option {
						if lo, ok := x.(*dns.EDNS0_LOCAL); ok {
							got = append(got, fmt.Sprintf("%d:%x", lo.Code, lo.Data))
						}
					}
				}
			}
			want := []string{fmt.Sprintf("%d:%x", code+1, []byte{8})}
			if op == "add" {
				want = append(want, fmt.Sprintf("%d:%x", code, data))
			}
			w.check(vt.SameMultiset(got, want), "edns0-modifier "+op, "%v sent options %v, not %v", lines, got, want)
		})
	}
}

// answerers: elements that answer by themselves.
func (w *world) answerers() {
	for _, typ := range []string{"static-responder", "static-template"} {
		rc := []int{0, 0, 3, 5}[w.rnd.Intn(4)]
		tc := w.chance(3)
		code := 1 + w.rnd.Intn(20)
		c := w.c(nil)
		owner := "static." + c + ".test."
		own := owner
		if typ == "static-template" {
			own = "{{ .Question }}"
		}
		lines := []string{
			fmt.Sprintf("answer = ['%s 77 IN A 10.1.1.1', '%s 78 IN A 10.1.1.2']", own, own),
			"ns = ['ns.test. 79 IN NS a.ns.test.']",
			"extra = ['a.ns.test. 80 IN A 10.1.1.3']",
			fmt.Sprintf("edns0-ede = {code = %d, text = \"e {{ .Question }}\"}", code),
		}
		if rc != 0 {
			lines = append(lines, fmt.Sprintf("rcode = %d", rc))
		}
		if tc {
			lines = append(lines, "truncate = true")
		}
		l := w.udp(w.group(typ+"-"+c, typ, nil, lines...))
		w.step(typ, func() {
			q := vt.Query(owner, dns.TypeA)
			q.SetEdns0(1232, false)
			a := w.ask(l, q)
			if a == nil {
				w.check(false, typ, "no answer")
				return
			}
			want := vt.RRStrings([]dns.RR{vt.RR("%s 77 IN A 10.1.1.1", owner), vt.RR("%s 78 IN A 10.1.1.2", owner)})
			w.check(vt.SameMultiset(vt.RRStrings(a.Answer), want), typ+" answer", "got %s", short(a))
			w.check(len(a.Ns) == 1 && a.Ns[0].Header().Ttl == 79, typ+" ns", "got authority %v", a.Ns)
			extra := 0
			for _, rr := range a.Extra {
				if x, ok := rr.(*dns.A); ok && x.A.String() == "10.1.1.3" && x.Hdr.Ttl == 80 {
					extra++
				}
			}
			w.check(extra == 1, typ+" extra", "got additional %v", a.Extra)
			w.check(a.Rcode == rc, typ+" rcode", "rcode %d configured, got %d", rc, a.Rcode)
			w.check(a.Truncated == tc, typ+" truncate", "truncate=%v configured, got %v", tc, a.Truncated)
			w.check(ede(a) == fmt.Sprintf("%d e %s", code, owner), typ+" edns0-ede", "got extended error %q", ede(a))
		})
	}
	rich := func(i int, q *dns.Msg) *dns.Msg {
		n := q.Question[0].Name
		a := new(dns.Msg).SetReply(q)
		a.Answer = []dns.RR{vt.RR("%s 60 IN CNAME t.%s", n, n)}
		if first(n) != "none" {
			a.Answer = append(a.Answer, vt.RR("t.%s 60 IN A 10.2.2.2", n))
		}
		a.Ns = []dns.RR{vt.RR("test. 60 IN NS ns.test.")}
		a.Extra = []dns.RR{vt.RR("ns.test. 60 IN A 10.2.2.3")}
		return a
	}
	{
		c := w.c(rich)
		l := w.udp(w.group("min-"+c, "response-minimize", up(0)))
		w.step("response-minimize", func() {
			a := w.a(l, "x."+c+".test.")
			w.check(a != nil && len(a.Answer) == 2 && len(a.Ns) == 0 && len(a.Extra) == 0, "response-minimize", "got %v", a)
		})
	}
	{
		rc := []int{0, 3, 2}[w.rnd.Intn(3)]
		c := w.c(rich)
		line := ""
		if rc != 0 {
			line = fmt.Sprintf("null-rcode = %d", rc)
		}
		l := w.udp(w.group("col-"+c, "response-collapse", up(0), line))
		w.step("response-collapse", func() {
			a := w.a(l, "x."+c+".test.")
			w.check(a != nil && len(a.Answer) == 1 && a.Answer[0].Header().Name == "x."+c+".test." && a.Answer[0].Header().Rrtype == dns.TypeA, "response-collapse", "got %s", short(a))
			a = w.a(l, "none."+c+".test.")
			w.check(a != nil && len(a.Answer) == 0 && a.Rcode == rc, "response-collapse null-rcode", "null-rcode %d configured, got %s", rc, short(a))
		})
	}
	{
		c := w.c(nil)
		l := w.udp(w.group("drop-"+c, "drop", nil))
		w.slowStep("drop", func() {
			a := w.a(l, "x."+c+".test.", askOpt{wait: 700 * time.Millisecond})
			w.check(a == nil, "drop", "a dropped query was answered: %s", short(a))
		})
	}
	for k := 0; k < 3; k++ {
		n := 1 + w.rnd.Intn(5)
		alt := w.coin()
		bits := []int{0, 16, 32}[k]
		c := w.c(nil)
		lines := []string{fmt.Sprintf("requests = %d", n), "window = 1000000"}
		if alt {
			lines = append(lines, `limit-resolver = "up2"`)
		}
		if bits != 0 {
			lines = append(lines, fmt.Sprintf("prefix4 = %d", bits))
		}
		l := w.udp(w.group("rl-"+c, "rate-limiter", up(0), lines...))
		w.slowStep("rate-limiter", func() {
			if bits == 0 {
				bits = 24
			}
			used := map[string]int{}
			for i, src := range []string{"127.5.1.1", "127.5.1.2", "127.5.2.1", "127.6.1.1"} {
				net := fmt.Sprint((&net.IPNet{IP: net.ParseIP(src).To4(), Mask: net.CIDRMask(bits, 32)}).IP.Mask(net.CIDRMask(bits, 32)))
				for j := 0; j < n+1; j++ {
					used[net]++
					o := askOpt{src: src}
					over := used[net] > n
					if over && !alt {
						o.wait = 400 * time.Millisecond
					}
					a := w.a(l, fmt.Sprintf("q%d-%d.%s.test.", i, j, c), o)
					switch {
					case !over:
						w.check(from(a) == 0, "rate-limiter", "%v: query %d of %s got %s", lines, used[net], net, short(a))
					case alt:
						w.check(from(a) == 2, "rate-limiter limit-resolver", "%v: query %d of %s got %s", lines, used[net], net, short(a))
					default:
						w.check(a == nil, "rate-limiter", "%v: query %d of %s got %s", lines, used[net], net, short(a))
						if j > n {
							break
						}
					}
					if over && !alt {
						break
					}
				}
			}
		})
	}
	for _, f := range []string{"", "text", "json"} {
		c := w.c(nil)
		out := filepath.Join(w.dir, "log-"+c)
		line := ""
		if f != "" {
			line = fmt.Sprintf("output-format = %q", f)
		}
		l := w.udp(w.group("ql-"+c, "query-log", up(0), fmt.Sprintf("output-file = %q", out), line))
		w.step("query-log", func() {
			w.ask(l, vt.Query("x."+c+".test.", dns.TypeAAAA), askOpt{src: "127.0.0.77"})
			b, _ := os.ReadFile(out)
			s := strings.TrimSpace(string(b))
			if f == "json" {
				var m map[string]any
				err := json.Unmarshal([]byte(s), &m)
				w.check(err == nil && m["question-name"] == "x."+c+".test." && m["question-type"] == "AAAA" && m["source-ip"] == "127.0.0.77", "query-log json", "logged %q", s)
			} else {
				w.check(!strings.HasPrefix(s, "{") && strings.Contains(s, "question-name=x."+c+".test.") && strings.Contains(s, "question-type=AAAA") && strings.Contains(s, "source-ip=127.0.0.77"), "query-log text", "logged %q", s)
			}
		})
	}
	w.syslogs()
	// scripts
	script := func(c string) string {
		return "function Resolve(msg, ci)\n  return Resolvers[2]:resolve(msg, ci)\nend\n"
	}
	{
		c := w.c(nil)
		l := w.udp(w.group("lua-"+c, "lua", up(0, 1), "lua-script = '''\n"+script(c)+"'''"))
		c2 := w.c(nil)
		l2 := w.udp(w.group("lua-"+c2, "lua", up(1, 0), fmt.Sprintf("lua-script-source = %q", w.file("s-"+c2+".lua", script(c2))), "lua-concurrency = 2"))
		w.step("lua", func() {
			a := w.a(l, "x."+c+".test.")
			w.check(from(a) == 1, "lua-script", "a script that asks the second resolver got %s", short(a))
			a = w.a(l2, "x."+c2+".test.")
			w.check(from(a) == 0, "lua-script-source", "a script that asks the second resolver got %s", short(a))
		})
		for _, free := range []bool{false, true} {
			c := w.c(nil)
			mark := filepath.Join(w.dir, "mark-"+c)
			line := ""
			if free {
				line = "lua-no-sandbox = true"
			}
			l := w.udp(w.group("lua-"+c, "lua", up(0), fmt.Sprintf("lua-script = '''\nfunction Resolve(msg, ci)\n  if io ~= nil then\n    local f = io.open(%q, \"w\")\n    f:close()\n  end\n  return Resolvers[1]:resolve(msg, ci)\nend\n'''", mark), line))
			w.step("lua sandbox", func() {
				a := w.a(l, "x."+c+".test.")
				_, err := os.Stat(mark)
				w.check(from(a) == 0 && (err == nil) == free, "lua-no-sandbox", "no-sandbox=%v: the script could write a file: %v (answer %s)", free, err == nil, short(a))
			})
		}
	}
	{
		p1, p2 := "64:ff9b::/96", "2001:db8:64::/96"
		for k, pre := range [][]string{nil, {p2}} {
			c := w.c(func(i int, q *dns.Msg) *dns.Msg {
				if q.Question[0].Qtype == dns.TypeAAAA {
					return empty(q)
				}
				a := new(dns.Msg).SetReply(q)
				a.Answer = []dns.RR{vt.RR("%s 60 IN A 8.7.6.5", q.Question[0].Name)}
				return a
			})
			line, want := "", p1
			if pre != nil {
				line, want = fmt.Sprintf("dns64-prefix = [%s]", quoted(pre)), p2
			}
			l := w.udp(w.group("d64-"+c, "dns64", up(0), line))
			w.step("dns64", func() {
				a := w.ask(l, vt.Query("x."+c+".test.", dns.TypeAAAA))
				ip := strings.Split(want, "/")[0] + "807:605"
				w.check(a != nil && len(a.Answer) == 1 && a.Answer[0].(*dns.AAAA).AAAA.Equal(net.ParseIP(ip)), "dns64-prefix", "case %d got %s, wanted %s", k, short(a), ip)
			})
		}
	}
	w.dnssec()
}

func (w *world) syslogs() {
	pris := []string{"emergency", "alert", "critical", "error", "warning", "notice", "info", "debug"}
	for k := 0; k < 4; k++ {
		req, resp, verbose := w.coin(), w.coin(), w.coin()
		if k == 0 {
			req, resp = true, true
		}
		pri := w.rnd.Intn(9) - 1
		pc, err := net.ListenPacket("udp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		w.pcs = append(w.pcs, pc)
		msgs := make(chan string, 100)
		go func() {
			b := make([]byte, 4096)
			for {
				n, _, err := pc.ReadFrom(b)
				if err != nil {
					return
				}
				msgs <- string(b[:n])
			}
		}()
		c := w.c(func(i int, q *dns.Msg) *dns.Msg {
			n := q.Question[0].Name
			a := new(dns.Msg).SetReply(q)
			a.Answer = []dns.RR{vt.RR("%s 60 IN CNAME t.%s", n, n), vt.RR("t.%s 60 IN A 10.2.2.2", n)}
			return a
		})
		tag := fmt.Sprintf("tag%d", k)
		lines := []string{`network = "udp"`, fmt.Sprintf("address = %q", pc.LocalAddr()), fmt.Sprintf("tag = %q", tag)}
		if pri >= 0 {
			lines = append(lines, fmt.Sprintf("priority = %q", pris[pri]))
		}
		for _, x := range []struct {
			n string
			v bool
		}{{"log-request", req}, {"log-response", resp}, {"verbose", verbose}} {
			if x.v {
				lines = append(lines, x.n+" = true")
			}
		}
		l := w.udp(w.group("sl-"+c, "syslog", up(0), lines...))
		want := 0
		if req {
			want++
		}
		if resp {
			want++
			if verbose {
				want++
			}
		}
		w.slowStep("syslog", func() {
			a := w.a(l, "x."+c+".test.")
			w.check(a != nil && len(a.Answer) == 2, "syslog", "the answer through syslog is %s", short(a))
			var got []string
			w.until(func() bool { return len(msgs) >= want })
			time.Sleep(100 * time.Millisecond)
			for len(msgs) > 0 {
				got = append(got, <-msgs)
			}
			w.check(len(got) == want, "syslog flags", "log-request=%v log-response=%v verbose=%v: %d messages, not %d: %q", req, resp, verbose, len(got), want, got)
			for _, m := range got {
				p, _ := strconv.Atoi(strings.TrimPrefix(strings.SplitN(m, ">", 2)[0], "<"))
				sev := pri
				if sev < 0 {
					sev = 0
				}
				w.check(p%8 == sev, "syslog priority", "%v: message %q has severity %d", lines, m, p%8)
				w.check(strings.Contains(m, tag+"[") || strings.Contains(m, " "+tag), "syslog tag", "message %q lacks the tag %s", m, tag)
			}
		})
	}
}

// dnssec: trust anchors and log-only mode, on names right below a signed root.
func (w *world) dnssec() {
	key := &dns.DNSKEY{Hdr: dns.RR_Header{Name: ".", Rrtype: dns.TypeDNSKEY, Class: dns.ClassINET, Ttl: 300}, Flags: 257, Protocol: 3, Algorithm: dns.ECDSAP256SHA256}
	pk, err := key.Generate(256)
	if err != nil {
		panic(err)
	}
	priv := pk.(*ecdsa.PrivateKey)
	sign := func(rrs ...dns.RR) []dns.RR {
		now := uint32(time.Now().Unix())
		s := &dns.RRSIG{Hdr: dns.RR_Header{Ttl: 300}, KeyTag: key.KeyTag(), SignerName: ".", Algorithm: key.Algorithm, Inception: now - 7200, Expiration: now + 72000}
		if err := s.Sign(crypto.Signer(priv), rrs); err != nil {
			panic(err)
		}
		return append(rrs, s)
	}
	h := func(i int, q *dns.Msg) *dns.Msg {
		a := new(dns.Msg).SetReply(q)
		n := q.Question[0].Name
		switch {
		case n == "." && q.Question[0].Qtype == dns.TypeDNSKEY:
			a.Answer = sign(key)
		case q.Question[0].Qtype == dns.TypeA:
			rr := vt.RR("%s 300 IN A 10.3.3.3", n)
			a.Answer = sign(rr)
			if strings.HasPrefix(n, "forged") {
				a.Answer[0] = vt.RR("%s 300 IN A 10.3.3.4", n)
			}
		}
		return a
	}
	w.mu.Lock()
	w.h["."] = h
	w.mu.Unlock()
	ds := key.ToDS(dns.SHA256)
	for _, kind := range []string{"right", "wrong", "log-only"} {
		w.n++
		c := fmt.Sprintf("d%d", w.n)
		name, forged := "ok"+c+".", "forged"+c+"."
		w.mu.Lock()
		w.h[strings.TrimSuffix(name, ".")], w.h[strings.TrimSuffix(forged, ".")] = h, h
		w.mu.Unlock()
		digest := ds.Digest
		if kind == "wrong" {
			digest = strings.Repeat("0", 64)
		}
		line := ""
		if kind == "log-only" {
			line = "dnssec-log-only = true"
		}
		l := w.udp(w.group("sec-"+c, "dnssec-validator", up(0), fmt.Sprintf("dnssec-trust-anchors = [{owner = \".\", key-tag = %d, algorithm = %d, digest-type = 2, digest = %q}]", ds.KeyTag, ds.Algorithm, digest), line))
		w.step("dnssec-validator", func() {
			a, b := w.a(l, name), w.a(l, forged)
			w.check((rcode(a) == "NOERROR") == (kind != "wrong"), "dnssec-trust-anchors", "%s anchors: a signed name got %s", kind, short(a))
			w.check((rcode(b) == "NOERROR") == (kind == "log-only"), "dnssec-log-only", "%s: a forged answer became %s", kind, short(b))
		})
	}
}
