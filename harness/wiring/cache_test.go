package wiring

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/miekg/dns"

	"verif/harness/vt"
)

// fakeRedis remembers the commands it got.
type fakeRedis struct {
	mu   sync.Mutex
	data map[string]string
	log  []string
}

func (f *fakeRedis) has(prefix string) bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	for _, l := range f.log {
		if strings.HasPrefix(l, prefix) {
			return true
		}
	}
	return false
}

func (f *fakeRedis) serve(l net.Listener) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		go func() {
			defer c.Close()
			rd := bufio.NewReader(c)
			for {
				args, err := readCmd(rd)
				if err != nil {
					return
				}
				io.WriteString(c, f.exec(args))
			}
		}()
	}
}

func (f *fakeRedis) exec(args []string) string {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.log = append(f.log, strings.ToLower(args[0])+" "+strings.Join(args[1:], " "))
	switch strings.ToLower(args[0]) {
	case "get":
		if v, ok := f.data[args[1]]; ok {
			return fmt.Sprintf("$%d\r\n%s\r\n", len(v), v)
		}
		return "$-1\r\n"
	case "set", "setex":
		v := args[2]
		if strings.ToLower(args[0]) == "setex" {
			v = args[3]
		}
		f.data[args[1]] = v
		return "+OK\r\n"
	case "hello":
		return "-ERR unknown command\r\n"
	}
	return "+OK\r\n"
}

func readCmd(rd *bufio.Reader) ([]string, error) {
	line, err := rd.ReadString('\n')
	if err != nil {
		return nil, err
	}
	n, err := strconv.Atoi(strings.TrimSpace(line[1:]))
	if err != nil {
		return nil, err
	}
	var out []string
	for i := 0; i < n; i++ {
		l, err := rd.ReadString('\n')
		if err != nil {
			return nil, err
		}
		m, err := strconv.Atoi(strings.TrimSpace(l[1:]))
		if err != nil {
			return nil, err
		}
		b := make([]byte, m+2)
		if _, err := io.ReadFull(rd, b); err != nil {
			return nil, err
		}
		out = append(out, string(b[:m]))
	}
	return out, nil
}

// saved are caches kept in files, looked at again after a restart.
type saved struct {
	c, addr, file string
	interval      bool
}

func (w *world) caches() (restart []saved) {
	nx := func(i int, q *dns.Msg) *dns.Msg { return new(dns.Msg).SetRcode(q, dns.RcodeNameError) }
	twice := func(key, c, l, name string, want int) {
		w.a(l, name)
		a := w.a(l, name)
		w.check(w.count(c, name) == want, key, "two queries for %s led to %d upstream (answer %s)", name, w.count(c, name), short(a))
	}
	{
		c := w.c(nil)
		l := w.udp(w.group("ca-"+c, "cache", up(0), vt.Pick(w.rnd, "", `backend = {type = "memory"}`, "gc-period = 1")))
		w.step("cache", func() { twice("cache", c, l, "x."+c+".test.", 1) })
	}
	for _, backend := range []bool{false, true} {
		c := w.c(nil)
		n := 1 + w.rnd.Intn(3)
		line := fmt.Sprintf("cache-size = %d", n)
		if backend {
			line = fmt.Sprintf("backend = {type = \"memory\", size = %d}", n)
		}
		l := w.udp(w.group("ca-"+c, "cache", up(0), line))
		w.step("cache size", func() {
			for i := 0; i <= n; i++ {
				w.a(l, fmt.Sprintf("q%d.%s.test.", i, c))
			}
			for i := n; i >= 1; i-- {
				name := fmt.Sprintf("q%d.%s.test.", i, c)
				w.a(l, name)
				w.check(w.count(c, name) == 1, "cache size", "%s: one of the last %d names is not in the cache", line, n)
			}
			name := fmt.Sprintf("q0.%s.test.", c)
			w.a(l, name)
			w.check(w.count(c, name) == 2, "cache size", "%s: a cache of %d kept more", line, n)
		})
	}
	for _, neg := range []string{"", "1", "5000"} {
		c := w.c(nx)
		line := ""
		if neg != "" {
			line = "cache-negative-ttl = " + neg
		}
		l := w.udp(w.group("ca-"+c, "cache", up(0), line))
		w.slowStep("cache-negative-ttl", func() {
			name := "x." + c + ".test."
			if neg == "1" {
				w.a(l, name)
				ok := w.until(func() bool { w.a(l, name); return w.count(c, name) > 1 })
				w.check(ok, "cache-negative-ttl", "a negative answer stays in the cache with %s", line)
			} else {
				w.a(l, name)
				time.Sleep(2200 * time.Millisecond)
				w.a(l, name)
				w.check(w.count(c, name) == 1, "cache-negative-ttl", "%q: a negative answer was not cached", line)
			}
		})
	}
	for _, max := range []string{"", "1", "other"} {
		c := w.c(nil)
		line := ""
		switch max {
		case "1":
			line = `cache-rcode-max-ttl = {0 = 1}`
		case "other":
			line = `cache-rcode-max-ttl = {3 = 1}`
		}
		l := w.udp(w.group("ca-"+c, "cache", up(0), line))
		w.slowStep("cache-rcode-max-ttl", func() {
			name := "x." + c + ".test."
			if max == "1" {
				w.a(l, name)
				ok := w.until(func() bool { w.a(l, name); return w.count(c, name) > 1 })
				w.check(ok, "cache-rcode-max-ttl", "an answer stays in the cache with %s", line)
			} else {
				w.a(l, name)
				time.Sleep(2200 * time.Millisecond)
				w.a(l, name)
				w.check(w.count(c, name) == 1, "cache-rcode-max-ttl", "%q: an answer was not cached", line)
			}
		})
	}
	for _, sh := range []string{"", "round-robin", "random"} {
		c := w.c(func(i int, q *dns.Msg) *dns.Msg {
			a := new(dns.Msg).SetReply(q)
			for k := 0; k < 5; k++ {
				a.Answer = append(a.Answer, vt.RR("%s 300 IN A 10.0.0.%d", q.Question[0].Name, k))
			}
			return a
		})
		line := ""
		if sh != "" {
			line = fmt.Sprintf("cache-answer-shuffle = %q", sh)
		}
		l := w.udp(w.group("ca-"+c, "cache", up(0), line))
		w.step("cache-answer-shuffle", func() {
			orders, firsts := map[string]bool{}, map[string]bool{}
			for i := 0; i < 16; i++ {
				a := w.a(l, "x."+c+".test.")
				if a == nil || len(a.Answer) != 5 {
					w.check(false, "cache-answer-shuffle", "got %s", short(a))
					return
				}
				o := ""
				for _, rr := range a.Answer {
					o += fmt.Sprint(rr.(*dns.A).A.To4()[3])
				}
				orders[o] = true
				firsts[o[:1]] = true
			}
			rot := true
			for o := range orders {
				rot = rot && strings.Contains("0123401234", o)
			}
			switch sh {
			case "":
				w.check(len(orders) == 1 && orders["01234"], "cache-answer-shuffle", "without shuffle the orders are %v", orders)
			case "round-robin":
				w.check(rot && len(firsts) == 5, "cache-answer-shuffle", "with round-robin the orders are %v", orders)
			default:
				w.check(!rot, "cache-answer-shuffle", "with random the orders are %v", orders)
			}
			w.check(w.count(c, "x."+c+".test.") == 1, "cache-answer-shuffle", "the answer was not cached")
		})
	}
	for _, on := range []bool{false, true} {
		c := w.c(nx)
		line := ""
		if on {
			line = "cache-harden-below-nxdomain = true"
		}
		l := w.udp(w.group("ca-"+c, "cache", up(0), line))
		w.step("cache-harden-below-nxdomain", func() {
			w.a(l, "p."+c+".test.")
			a := w.a(l, "c.p."+c+".test.")
			want := 1
			if on {
				want = 0
			}
			w.check(w.count(c, "c.p."+c+".test.") == want && rcode(a) == "NXDOMAIN", "cache-harden-below-nxdomain", "%q: a name below one that does not exist led to %d queries (%s)", line, w.count(c, "c.p."+c+".test."), short(a))
		})
	}
	{
		c := w.c(nil)
		l := w.udp(w.group("ca-"+c, "cache", up(0), fmt.Sprintf("cache-flush-query = \"flush.%s.test.\"", c)))
		w.step("cache-flush-query", func() {
			name := "x." + c + ".test."
			twice("cache-flush-query", c, l, name, 1)
			w.a(l, "flush."+c+".test.")
			w.a(l, name)
			w.check(w.count(c, name) == 2, "cache-flush-query", "after the flush query, %d queries went upstream in all", w.count(c, name))
		})
	}
	for _, p := range []string{"on", "off", "not eligible"} {
		c := w.c(nil)
		lines := []string{"cache-prefetch-trigger = 1000", "cache-prefetch-eligible = 10"}
		switch p {
		case "off":
			lines = nil
		case "not eligible":
			lines[1] = "cache-prefetch-eligible = 1000"
		}
		l := w.udp(w.group("ca-"+c, "cache", up(0), lines...))
		w.slowStep("cache-prefetch", func() {
			name := "x." + c + ".test."
			w.a(l, name)
			w.a(l, name)
			if p == "on" {
				ok := w.until(func() bool { return w.count(c, name) == 2 })
				w.check(ok, "cache-prefetch-trigger", "%v: a cached answer (TTL 300) was not fetched again", lines)
			} else {
				time.Sleep(500 * time.Millisecond)
				w.check(w.count(c, name) == 1, "cache-prefetch-eligible", "%v: an answer (TTL 300) was fetched %d times", lines, w.count(c, name))
			}
		})
	}
	for _, iv := range []bool{false, true} {
		c := w.c(nil)
		file := filepath.Join(w.dir, "cache-"+c)
		opt := ""
		if iv {
			opt = ", save-interval = 1"
		}
		l := w.udp(w.group("ca-"+c, "cache", up(0), fmt.Sprintf("backend = {type = \"memory\", filename = %q%s}", file, opt)))
		restart = append(restart, saved{c, l, file, iv})
		w.slowStep("cache file", func() {
			w.a(l, "x."+c+".test.")
			if iv {
				ok := w.until(func() bool { st, err := os.Stat(file); return err == nil && st.Size() > 0 })
				w.check(ok, "cache save-interval", "the cache was not written to its file")
			}
		})
	}
	for _, sync := range []bool{false, true} {
		f := &fakeRedis{data: map[string]string{}}
		network, addr := "tcp", ""
		var ls net.Listener
		var err error
		if w.coin() {
			network, addr = "unix", filepath.Join(w.dir, fmt.Sprintf("redis%v", sync))
			ls, err = net.Listen("unix", addr)
		} else {
			ls, err = net.Listen("tcp", "127.0.0.1:0")
			addr = ls.Addr().String()
		}
		if err != nil {
			panic(err)
		}
		w.held = append(w.held, ls)
		go f.serve(ls)
		c := w.c(nil)
		db := 1 + w.rnd.Intn(9)
		prefix := fmt.Sprintf("pre%d-", w.rnd.Intn(1000))
		line := fmt.Sprintf("backend = {type = \"redis\", redis-address = %q, redis-db = %d, redis-key-prefix = %q, redis-username = \"usr\", redis-password = \"pwd\"", addr, db, prefix)
		if network == "unix" || w.coin() {
			line += fmt.Sprintf(", redis-network = %q", network)
		}
		if sync {
			line += ", redis-sync-set = true"
		}
		line += "}"
		l := w.udp(w.group("ca-"+c, "cache", up(0), line))
		w.slowStep("cache redis", func() {
			name := "x." + c + ".test."
			a := w.a(l, name)
			w.check(from(a) == 0, "cache redis", "%s: got %s", line, short(a))
			stored := func() bool { f.mu.Lock(); defer f.mu.Unlock(); return len(f.data) == 1 }
			if sync {
				w.check(stored(), "cache redis-sync-set", "%s: answered before the entry was stored", line)
			} else {
				w.check(w.until(stored), "cache redis", "%s: nothing stored", line)
			}
			a = w.a(l, name)
			w.check(from(a) == 0 && w.count(c, name) == 1, "cache redis", "%s: the second query led to %d upstream, got %s", line, w.count(c, name), short(a))
			w.check(f.has(fmt.Sprintf("select %d", db)), "cache redis-db", "database %d was not selected: %q", db, f.log)
			w.check(f.has("auth usr pwd"), "cache redis-username", "no authentication as configured: %q", f.log)
			w.check(f.has("get "+prefix), "cache redis-key-prefix", "no key with prefix %s: %q", prefix, f.log)
		})
	}
	// the element that fetches names asked for often
	for _, th := range []int{2, 5} {
		c := w.c(func(i int, q *dns.Msg) *dns.Msg {
			a := plain(i, q)
			a.Answer[0].Header().Ttl = 2
			return a
		})
		line := fmt.Sprintf("prefetch-threshold = %d", th)
		if th == 5 && w.coin() {
			line = "" // the default
		}
		l := w.udp(w.group("pf-"+c, "prefetch", up(0), line, "prefetch-max-items = 10", `prefetch-window = "10m"`, "prefetch-cache-size = 20"))
		w.slowStep("prefetch", func() {
			name := "x." + c + ".test."
			for i := 0; i < 3; i++ {
				w.a(l, name)
			}
			if th == 2 {
				// A lookup that fails ends the prefetching of a name until it is
				// asked for again, and expired names are looked for every 10 s,
				// when a connection upstream may just be closing for being idle.
				ok := false
				for try := 0; try < 3 && !ok; try++ {
					w.a(l, name)
					n := w.count(c, name)
					end := time.Now().Add(vt.HangLimit / 2)
					for !ok && time.Now().Before(end) && !w.proc.ended(0) {
						time.Sleep(50 * time.Millisecond)
						ok = w.count(c, name) > n
					}
				}
				w.check(ok, "prefetch-threshold", "%s: a name asked for that often is not prefetched", line)
			} else {
				time.Sleep(4 * time.Second)
				w.check(w.count(c, name) == 3, "prefetch-threshold", "%q: a name asked for 3 times was fetched %d times", line, w.count(c, name))
			}
		})
	}
	return restart
}

// again looks at the caches kept in files after a restart.
func (w *world) again(l []saved) {
	for _, s := range l {
		w.step("cache file", func() {
			name := "x." + s.c + ".test."
			a := w.a(s.addr, name)
			w.check(from(a) == 0 && w.count(s.c, name) == 1, "cache filename", "after a restart (save-interval %v), a cached name led to %d queries upstream in all, got %s", s.interval, w.count(s.c, name), short(a))
		})
	}
}

// routers: every field of a route, alone and inverted, in front of a default.
func (w *world) routers() {
	now := time.Now()
	midday := now.Hour() >= 1 && now.Hour() <= 22
	day := strings.ToLower(now.Weekday().String()[:3])
	other := strings.ToLower(now.AddDate(0, 0, 1+w.rnd.Intn(6)).Weekday().String()[:3])
	type probe struct {
		q     func(c string) *dns.Msg
		src   string
		tcp   bool
		match bool
	}
	q := func(label string, t uint16) func(string) *dns.Msg {
		return func(c string) *dns.Msg { return vt.Query(label+"."+c+".test.", t) }
	}
	ecs := func(ip string) func(string) *dns.Msg {
		return func(c string) *dns.Msg { m := vt.Query("x."+c+".test.", dns.TypeA); vt.AddECS(m, ip, 24); return m }
	}
	class := func(cl uint16) func(string) *dns.Msg {
		return func(c string) *dns.Msg { m := vt.Query("x."+c+".test.", dns.TypeTXT); m.Question[0].Qclass = cl; return m }
	}
	fields := []struct {
		name, conf string
		probes     []probe
	}{
		{"type", `type = "MX"`, []probe{{q: q("a", dns.TypeMX), match: true}, {q: q("a", dns.TypeA)}}},
		{"types", `types = ["MX", "AAAA"]`, []probe{{q: q("a", dns.TypeMX), match: true}, {q: q("a", dns.TypeAAAA), match: true}, {q: q("a", dns.TypeA)}}},
		{"type and types", `type = "MX", types = ["AAAA"]`, []probe{{q: q("a", dns.TypeMX), match: true}, {q: q("a", dns.TypeAAAA), match: true}, {q: q("a", dns.TypeA)}}},
		{"class", `class = "CH"`, []probe{{q: class(dns.ClassCHAOS), match: true}, {q: class(dns.ClassINET)}}},
		{"name", `name = '^na[0-9]\.'`, []probe{{q: q("na1", dns.TypeA), match: true}, {q: q("nb1", dns.TypeA)}}},
		{"source", `source = "127.20.0.0/16"`, []probe{{q: q("a", dns.TypeA), src: "127.20.1.1", match: true}, {q: q("a", dns.TypeA), src: "127.21.1.1"}}},
		{"ecs-source", `ecs-source = "10.20.0.0/16"`, []probe{{q: ecs("10.20.1.0"), match: true}, {q: ecs("10.21.1.0")}, {q: q("a", dns.TypeA)}}},
		{"listener", `listener = "-one$"`, []probe{{q: q("a", dns.TypeA), match: true}, {q: q("a", dns.TypeA), tcp: true}}},
		{"doh-path", `doh-path = "/x"`, []probe{{q: q("a", dns.TypeA)}}},
		{"servername", `servername = "s"`, []probe{{q: q("a", dns.TypeA)}}},
	}
	if midday {
		yes, no := []probe{{q: q("a", dns.TypeA), match: true}}, []probe{{q: q("a", dns.TypeA)}}
		fields = append(fields, []struct {
			name, conf string
			probes     []probe
		}{
			{"weekdays", fmt.Sprintf("weekdays = [%q, %q]", other, day), yes},
			{"weekdays", fmt.Sprintf("weekdays = [%q]", other), no},
			{"after", `after = "00:01"`, yes},
			{"after", `after = "23:58"`, no},
			{"before", `before = "23:58"`, yes},
			{"before", `before = "00:01"`, no},
			{"after and before", `after = "00:01", before = "23:58"`, yes},
		}...)
	}
	for k, f := range fields {
		for _, invert := range []bool{false, true} {
			c := w.c(nil)
			inv := ""
			if invert {
				inv = ", invert = true"
			}
			id := "router-" + c
			routes := fmt.Sprintf("  { %s%s, resolver = \"up1\" },\n  { resolver = \"up2\" },\n  { resolver = \"up3\" },\n", f.conf, inv)
			fmt.Fprintf(&w.conf2, "[routers.%s]\nroutes = [\n%s]\n\n", id, routes)
			p1, p2 := w.port(), w.port()
			l := w.listenerAt("udp", fmt.Sprintf("127.0.0.1:%d", p1), id+"-one", id)
			l2 := w.listenerAt("tcp", fmt.Sprintf("127.0.0.1:%d", p2), id+"-two", id)
			w.step("route "+f.name, func() {
				for _, p := range f.probes {
					a, o := l, askOpt{src: p.src}
					if p.tcp {
						a, o.net = l2, "tcp"
					}
					m := w.ask(a, p.q(c), o)
					want := 2
					if p.match != invert {
						want = 1
					}
					w.check(from(m) == want, "route "+f.name, "route %d {%s%s}: query %v from %q got %s, not from server %d", k, f.conf, inv, p.q(c).Question[0], p.src, short(m), want)
				}
			})
		}
	}
	// without a default
	c := w.c(nil)
	fmt.Fprintf(&w.conf2, "[routers.router-%s]\nroutes = [ { name = '^a\\.', resolver = \"up1\" } ]\n\n", c)
	l := w.udp("router-" + c)
	w.step("router", func() {
		m := w.a(l, "b."+c+".test.")
		w.check(rcode(m) == "SERVFAIL" && len(w.seen(c)) == 0, "router", "a query no route is for got %s", short(m))
	})
}
