package wiring

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/miekg/dns"

	"verif/harness/vt"
)

// pki holds certificates in files.
type pki struct {
	ca, otherCA         *vt.CA
	caFile, otherCAFile string
	crt, key            string // for srv.test and 127.0.0.1
	badCrt, badKey      string // the same names by another authority
	nameCrt, nameKey    string // for other names by the right authority
	cliCrt, cliKey      string
	oCliCrt, oCliKey    string
}

func (w *world) pki() *pki {
	p := &pki{ca: vt.NewCA(), otherCA: vt.NewCA()}
	d1, d2 := filepath.Join(w.dir, "ca1"), filepath.Join(w.dir, "ca2")
	os.Mkdir(d1, 0o700)
	os.Mkdir(d2, 0o700)
	p.caFile, p.otherCAFile = p.ca.WritePEM(d1), p.otherCA.WritePEM(d2)
	p.crt, p.key = vt.WritePair(w.dir, "srv", p.ca.Issue("srv.test", "127.0.0.1", "::1"))
	p.badCrt, p.badKey = vt.WritePair(w.dir, "bad", p.otherCA.Issue("srv.test", "127.0.0.1"))
	p.nameCrt, p.nameKey = vt.WritePair(w.dir, "name", p.ca.Issue("elsewhere.test", "127.0.0.99"))
	p.cliCrt, p.cliKey = vt.WritePair(w.dir, "cli", p.ca.Issue("client.test"))
	p.oCliCrt, p.oCliKey = vt.WritePair(w.dir, "ocli", p.otherCA.Issue("client.test"))
	return p
}

func (w *world) resolver(id, proto, addr string, lines ...string) string {
	fmt.Fprintf(&w.conf, "[resolvers.%s]\nprotocol = %q\n", id, proto)
	if addr != "" {
		fmt.Fprintf(&w.conf, "address = %q\n", addr)
	}
	for _, l := range lines {
		if l != "" {
			w.conf.WriteString(l + "\n")
		}
	}
	w.conf.WriteString("\n")
	return id
}

// seenIP writes a group that shows the client's address to the server behind.
func (w *world) seenIP(c string) string {
	return w.group("show-"+c, "ecs-modifier", up(0), `ecs-op = "add"`, "ecs-prefix4 = 32", "ecs-prefix6 = 128")
}

// shown gives the client address the last query of a case was sent on with.
func (w *world) shown(c string) string {
	l := w.seen(c)
	if len(l) == 0 {
		return "no query"
	}
	return ecsOf(l[len(l)-1].m)
}

type link struct {
	name, proto string
	lines       []string
}

var links = []link{
	{"dot", "dot", nil},
	{"doh", "doh", nil},
	{"doh-quic", "doh", []string{`transport = "quic"`}},
	{"doq", "doq", nil},
	{"dtls", "dtls", nil},
	{"odoh", "odoh", []string{`odoh-mode = "dual"`}},
}

func (k link) addr(host, port string) string {
	a := host + ":" + port
	if k.proto == "doh" {
		return "https://" + a + "/dns-query{?dns}"
	}
	return a
}

// tlsLinks connects resolvers of the program to listeners of it, with
// certificates that must and must not be accepted.
func (w *world) tlsLinks(p *pki) {
	for _, k := range links {
		if k.proto == "odoh" {
			continue
		}
		type variant struct {
			what           string
			crt, key       string
			byName         bool // the resolver has a name and a bootstrap address
			server, client []string
			ok             bool
		}
		ca := fmt.Sprintf("ca = %q", p.caFile)
		oca := fmt.Sprintf("ca = %q", p.otherCAFile)
		mtls := []string{"mutual-tls = true", ca}
		cli := []string{ca, fmt.Sprintf("client-crt = %q", p.cliCrt), fmt.Sprintf("client-key = %q", p.cliKey)}
		ocli := []string{ca, fmt.Sprintf("client-crt = %q", p.oCliCrt), fmt.Sprintf("client-key = %q", p.oCliKey)}
		vs := []variant{
			{"certificate of the configured authority, by address", p.crt, p.key, false, nil, []string{ca}, true},
			{"certificate of the configured authority, by name", p.crt, p.key, true, nil, []string{ca}, true},
			{"certificate of another authority", p.badCrt, p.badKey, w.coin(), nil, []string{ca}, false},
			{"certificate of another authority, which is configured", p.badCrt, p.badKey, w.coin(), nil, []string{oca}, true},
			{"certificate of an authority unknown to the system", p.crt, p.key, w.coin(), nil, nil, false},
			{"certificate for another address", p.nameCrt, p.nameKey, false, nil, []string{ca}, false},
			{"certificate for another name", p.nameCrt, p.nameKey, true, nil, []string{ca}, false},
			{"server-name as in the certificate", p.nameCrt, p.nameKey, w.coin(), nil, []string{ca, `server-name = "elsewhere.test"`}, true},
			{"server-name not in the certificate", p.crt, p.key, w.coin(), nil, []string{ca, `server-name = "elsewhere.test"`}, false},
			{"client certificate required and given", p.crt, p.key, w.coin(), mtls, cli, true},
			{"client certificate required and missing", p.crt, p.key, w.coin(), mtls, []string{ca}, false},
			{"client certificate required and by another authority", p.crt, p.key, w.coin(), mtls, ocli, false},
			{"client certificate given without need", p.crt, p.key, w.coin(), nil, cli, true},
		}
		for _, v := range vs {
			c := w.c(nil)
			show := w.seenIP(c)
			addr := w.listener(k.proto, show, append(append([]string{fmt.Sprintf("server-crt = %q", v.crt), fmt.Sprintf("server-key = %q", v.key)}, v.server...), k.lines...)...)
			_, port, _ := net.SplitHostPort(addr)
			host := "127.0.0.1"
			lines := append([]string{"query-timeout = 3"}, v.client...)
			if v.ok {
				lines[0] = "query-timeout = 30"
			}
			if v.byName {
				host = "srv.test"
				lines = append(lines, `bootstrap-address = "127.0.0.1"`)
			}
			local := ""
			if v.ok && w.coin() {
				local = fmt.Sprintf("127.77.%d.%d", w.rnd.Intn(200), 1+w.rnd.Intn(200))
				lines = append(lines, w.from4(local)...)
			}
			if k.lines != nil || k.proto == "doq" {
				lines = append(lines, vt.Pick(w.rnd, "", "enable-0rtt = true"))
			}
			lines = append(lines, k.lines...)
			l := w.udp(w.resolver("link-"+c, k.proto, k.addr(host, port), lines...))
			w.slowStep(k.name+" "+v.what, func() {
				for i := 0; i < 3; i++ {
					name := fmt.Sprintf("x%d.%s.test.", i, c)
					if v.ok {
						a := w.link(l, name)
						w.check(from(a) == 0, k.name+" "+v.what, "%s with a %s (%v): got %s", k.name, v.what, lines, short(a))
					} else {
						a := w.a(l, name)
						w.check(rcode(a) == "SERVFAIL" && w.count(c, name) == 0, k.name+" "+v.what, "%s with a %s (%v): got %s, %d queries passed", k.name, v.what, lines, short(a), w.count(c, name))
					}
				}
				if local != "" && len(w.seen(c)) > 0 {
					w.check(w.shown(c) == local+"/32", k.name+" local-address", "with local address %s configured, the query came from %s", local, w.shown(c))
				}
			})
		}
	}
}

// from4 are settings with which an upstream with an IPv4 address is reached
// from the given address, and from6 the same for IPv6.
func (w *world) from4(local string) []string {
	addr, v4 := fmt.Sprintf("local-address = %q", local), fmt.Sprintf("local-address-v4 = %q", local)
	return vt.Pick(w.rnd, []string{addr}, []string{v4}, []string{addr, `local-address-v6 = "::1"`}, []string{v4, `local-address-v6 = "::1"`}, []string{v4, `local-address = "127.79.1.1"`})
}

func (w *world) from6() []string {
	addr, v6 := `local-address = "::1"`, `local-address-v6 = "::1"`
	return vt.Pick(w.rnd, []string{addr}, []string{v6}, []string{addr, `local-address-v4 = "127.79.1.1"`}, []string{v6, `local-address-v4 = "127.79.1.1"`}, []string{v6, `local-address = "127.79.1.1"`})
}

// secureListeners: families of addresses and clients of the other protocols.
func (w *world) secureListeners(p *pki) {
	ca := fmt.Sprintf("ca = %q", p.caFile)
	crt := []string{fmt.Sprintf("server-crt = %q", p.crt), fmt.Sprintf("server-key = %q", p.key)}
	for _, k := range links {
		if k.proto != "odoh" {
			k := k
			c := w.c(nil)
			addr := w.listener(k.proto, "up0", append(append(crt, `allowed-net = ["127.44.0.0/16"]`), k.lines...)...)
			_, port, _ := net.SplitHostPort(addr)
			ok := w.udp(w.resolver("in-"+c, k.proto, k.addr("127.0.0.1", port), append(k.lines, ca, `local-address = "127.44.0.9"`, "query-timeout = 30")...))
			no := w.udp(w.resolver("out-"+c, k.proto, k.addr("127.0.0.1", port), append(k.lines, ca, `local-address = "127.45.0.9"`, "query-timeout = 3")...))
			w.slowStep(k.name+" allowed-net", func() {
				a := w.link(ok, "x."+c+".test.")
				w.check(from(a) == 0, k.name+" allowed-net", "an allowed client got %s", short(a))
				a = w.a(no, "y."+c+".test.")
				w.check(a != nil && (a.Rcode == dns.RcodeRefused || a.Rcode == dns.RcodeServerFailure) && w.count(c, "y."+c+".test.") == 0, k.name+" allowed-net", "a client that is not allowed got %s", short(a))
			})
		}
		if k.proto != "odoh" && w.localhost {
			k := k
			c := w.c(nil)
			port := w.port()
			w.listenerAt(k.proto, fmt.Sprintf("localhost:%d", port), "lh-"+c, "up0", append(crt, k.lines...)...)
			ok := w.udp(w.resolver("lh0-"+c, k.proto, k.addr("127.0.0.1", fmt.Sprint(port)), append(k.lines, ca, "query-timeout = 30")...))
			no := w.udp(w.resolver("lh1-"+c, k.proto, k.addr("127.0.0.2", fmt.Sprint(port)), append(k.lines, ca, "query-timeout = 2")...))
			no6 := w.udp(w.resolver("lh2-"+c, k.proto, k.addr("[::1]", fmt.Sprint(port)), append(k.lines, ca, "query-timeout = 2", `local-address-v6 = "::1"`)...))
			w.slowStep(k.name+" address with a name", func() {
				a := w.link(ok, "a."+c+".test.")
				w.check(from(a) == 0, k.name+" address with a name", "listening on localhost, asked at 127.0.0.1: %s", short(a))
				a = w.a(no, "b."+c+".test.")
				w.check(from(a) != 0, k.name+" address with a name", "listening on localhost, asked at 127.0.0.2: %s", short(a))
				a = w.a(no6, "c."+c+".test.")
				w.check(from(a) != 0, k.name+" address with a name", "listening on localhost, which is 127.0.0.1, asked at ::1: %s", short(a))
			})
		}
		for i, v := range []int{0, 4, 6, 4, 6} {
			c := w.c(nil)
			port := w.port()
			line := ""
			if v != 0 {
				line = fmt.Sprintf("ip-version = %d", v)
			}
			if i > 2 {
				if k.proto == "dtls" {
					break // documented as not supported
				}
				line += "\nbind-if = \"lo\""
			}
			w.listenerAt(k.proto, fmt.Sprintf(":%d", port), "ipv-"+c, "up0", append(append(crt, line), k.lines...)...)
			var ls [2]string
			for i, host := range []string{"127.0.0.1", "[::1]"} {
				lines := []string{ca, "query-timeout = 2"}
				if v != [2]int{6, 4}[i] {
					lines[1] = "query-timeout = 30"
				}
				if i == 1 {
					lines = append(lines, w.from6()...)
				}
				if k.proto == "odoh" {
					lines = append(lines, fmt.Sprintf("target = \"https://%s:%d/dns-query\"", host, port))
					ls[i] = w.udp(w.resolver(fmt.Sprintf("ip%d-%s", i, c), k.proto, "", lines...))
				} else {
					ls[i] = w.udp(w.resolver(fmt.Sprintf("ip%d-%s", i, c), k.proto, k.addr(host, fmt.Sprint(port)), append(k.lines, lines...)...))
				}
			}
			w.slowStep(k.name+" ip-version", func() {
				ask := func(i int, name string) *dns.Msg {
					if v != [2]int{6, 4}[i] {
						return w.link(ls[i], name)
					}
					return w.a(ls[i], name)
				}
				a := ask(0, "a."+c+".test.")
				w.check((from(a) == 0) == (v != 6), k.name+" ip-version", "%s, ip-version %d over IPv4: %s", k.name, v, short(a))
				a = ask(1, "b."+c+".test.")
				w.check((from(a) == 0) == (v != 4), k.name+" ip-version", "%s, ip-version %d over IPv6: %s", k.name, v, short(a))
			})
		}
	}
}

// oblivious: targets and proxies.
func (w *world) oblivious(p *pki) {
	crt := []string{fmt.Sprintf("server-crt = %q", p.crt), fmt.Sprintf("server-key = %q", p.key)}
	ca := fmt.Sprintf("ca = %q", p.caFile)
	client := &http.Client{Transport: &http.Transport{TLSClientConfig: &tls.Config{RootCAs: p.ca.Pool(), ServerName: "srv.test"}}, Timeout: 20 * time.Second}
	status := func(addr, path string) (int, string) {
		r, err := client.Get("https://" + addr + path)
		if err != nil {
			return -1, err.Error()
		}
		defer r.Body.Close()
		b, _ := io.ReadAll(r.Body)
		return r.StatusCode, string(b)
	}
	seed := fmt.Sprintf("key-seed = \"%032x\"", w.rnd.Int63())
	for _, mode := range []string{"", "target", "proxy", "dual"} {
		for _, allow := range []bool{false, true} {
			c := w.c(nil)
			lines := append([]string{seed}, crt...)
			if mode != "" {
				lines = append(lines, fmt.Sprintf("odoh-mode = %q", mode))
			}
			if allow {
				lines = append(lines, "allow-doh = true")
			}
			t := w.listener("odoh", "up0", lines...)
			// asks the target itself
			direct := w.udp(w.resolver("odoh-"+c, "odoh", "", fmt.Sprintf("target = \"https://%s/dns-query\"", t), ca, "query-timeout = 30"))
			w.slowStep("odoh "+mode, func() {
				target := mode != "proxy"
				a := w.a(direct, "x."+c+".test.")
				w.check((from(a) == 0) == target, "odoh-mode", "mode %q: an oblivious query to the target got %s", mode, short(a))
				q := vt.Query("doh."+c+".test.", dns.TypeA)
				b, _ := q.Pack()
				st, _ := status(t, "/dns-query?dns="+base64.RawURLEncoding.EncodeToString(b))
				w.check((st == 200 && w.count(c, "doh."+c+".test.") == 1) == (allow && target), "odoh allow-doh", "mode %q, allow-doh %v: a plain query got status %d", mode, allow, st)
				st, _ = status(t, "/.well-known/odohconfigs")
				w.check((st == 200) == target, "odoh-mode", "mode %q: the configuration got status %d", mode, st)
			})
			if mode != "proxy" {
				continue
			}
		}
	}
	// the same seed gives the same keys; another or none does not
	{
		lines := append([]string{}, crt...)
		l1, l2 := w.listener("odoh", "up0", append(lines, seed)...), w.listener("odoh", "up0", append(lines, seed)...)
		l3, l4 := w.listener("odoh", "up0", append(lines, "key-seed = \"00112233445566778899aabbccddeeff\"")...), w.listener("odoh", "up0", lines...)
		w.step("odoh key-seed", func() {
			_, a := status(l1, "/.well-known/odohconfigs")
			_, b := status(l2, "/.well-known/odohconfigs")
			_, c := status(l3, "/.well-known/odohconfigs")
			_, d := status(l4, "/.well-known/odohconfigs")
			w.check(a == b && a != c && a != d && c != d && len(a) > 0, "odoh key-seed", "keys by seed: %x %x, by another %x, by none %x", a, b, c, d)
		})
	}
}

// plainHTTP: DoH listeners behind a proxy, paths and names.
func (w *world) plainHTTP(p *pki) {
	crt := []string{fmt.Sprintf("server-crt = %q", p.crt), fmt.Sprintf("server-key = %q", p.key)}
	get := func(cl *http.Client, url string, name string, hdr map[string]string, post bool) *dns.Msg {
		q := vt.Query(name, dns.TypeA)
		b, _ := q.Pack()
		var req *http.Request
		if post {
			req, _ = http.NewRequest("POST", url, bytes.NewReader(b))
			req.Header.Set("Content-Type", "application/dns-message")
		} else {
			req, _ = http.NewRequest("GET", url+"?dns="+base64.RawURLEncoding.EncodeToString(b), nil)
		}
		for k, v := range hdr {
			req.Header.Set(k, v)
		}
		r, err := cl.Do(req)
		if err != nil {
			return nil
		}
		defer r.Body.Close()
		body, _ := io.ReadAll(r.Body)
		a := new(dns.Msg)
		if r.StatusCode != 200 || a.Unpack(body) != nil {
			return nil
		}
		return a
	}
	bare := &http.Client{Timeout: 20 * time.Second}
	secure := func(name string) *http.Client {
		return &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{TLSClientConfig: &tls.Config{RootCAs: p.ca.Pool(), ServerName: name}}}
	}
	for _, trusted := range []string{"", "127.0.0.0/8", "10.0.0.0/8"} {
		c := w.c(nil)
		line := ""
		if trusted != "" {
			line = fmt.Sprintf("frontend = {trusted-proxy = %q}", trusted)
		}
		l := w.listener("doh", w.seenIP(c), "no-tls = true", line)
		w.step("doh trusted-proxy", func() {
			a := get(bare, "http://"+l+"/dns-query", "x."+c+".test.", map[string]string{"X-Forwarded-For": "198.51.100.7"}, w.coin())
			want := "127.0.0.1/32"
			if trusted == "127.0.0.0/8" {
				want = "198.51.100.7/32"
			}
			w.check(from(a) == 0, "doh no-tls", "a plain HTTP query got %s", short(a))
			w.check(w.shown(c) == want, "doh trusted-proxy", "trusted-proxy %q: the client seen is %s, not %s", trusted, w.shown(c), want)
		})
	}
	{
		c := w.c(nil)
		id := "path-" + c
		fmt.Fprintf(&w.conf2, "[routers.%s]\nroutes = [ { doh-path = '/p1$', resolver = \"up1\" }, { servername = '^srv', resolver = \"up2\" }, { resolver = \"up3\" } ]\n\n", id)
		l := w.listener("doh", id, crt...)
		w.step("doh-path", func() {
			_, port, _ := net.SplitHostPort(l)
			u := "https://127.0.0.1:" + port
			a := get(secure("127.0.0.1"), u+"/dns-query/p1", "a."+c+".test.", nil, true)
			w.check(from(a) == 1, "route doh-path", "path /dns-query/p1 got %s", short(a))
			a = get(secure("srv.test"), u+"/dns-query", "b."+c+".test.", nil, false)
			w.check(from(a) == 2, "route servername", "server name srv.test got %s", short(a))
			a = get(secure("127.0.0.1"), u+"/dns-query/p2", "c."+c+".test.", nil, false)
			w.check(from(a) == 3, "route default", "path /dns-query/p2 got %s", short(a))
			a = get(bare, "http://127.0.0.1:"+port+"/dns-query", "d."+c+".test.", nil, false)
			w.check(a == nil, "doh no-tls", "a listener with TLS answered a plain query: %s", short(a))
		})
		l2 := w.listener("dot", id, crt...)
		w.step("dot servername", func() {
			for name, want := range map[string]int{"srv.test": 2, "": 3} {
				conf := &tls.Config{RootCAs: p.ca.Pool(), ServerName: name}
				if name == "" {
					conf = &tls.Config{RootCAs: p.ca.Pool(), ServerName: "127.0.0.1"}
				}
				cl := &dns.Client{Net: "tcp-tls", TLSConfig: conf, Timeout: 20 * time.Second}
				a, _, _ := cl.Exchange(vt.Query("e."+c+".test.", dns.TypeA), l2)
				w.check(from(a) == want, "route servername", "DoT with server name %q got %s", name, short(a))
			}
		})
	}
	{
		c := w.c(nil)
		cid := w.udp(w.group("ac-"+c, "cache", up(0)))
		l := w.listener("admin", "", crt...)
		lm := w.listener("admin", "", append(crt, "mutual-tls = true", fmt.Sprintf("ca = %q", p.caFile))...)
		ln := w.listener("admin", "", append(crt, `allowed-net = ["10.0.0.0/8"]`)...)
		w.step("admin", func() {
			w.a(cid, "x."+c+".test.")
			vars := func(cl *http.Client, addr string) (int, string) {
				_, port, _ := net.SplitHostPort(addr)
				r, err := cl.Get("https://127.0.0.1:" + port + "/routedns/vars")
				if err != nil {
					return -1, err.Error()
				}
				defer r.Body.Close()
				b, _ := io.ReadAll(r.Body)
				return r.StatusCode, string(b)
			}
			st, b := vars(secure("srv.test"), l)
			w.check(st == 200 && strings.Contains(b, "ac-"+c), "admin", "the admin listener answered %d, metrics of the cache present: %v", st, strings.Contains(b, "ac-"+c))
			st, _ = vars(secure("srv.test"), lm)
			w.check(st == -1, "admin mutual-tls", "the admin listener served a client without certificate: %d", st)
			pair, err := tls.LoadX509KeyPair(p.cliCrt, p.cliKey)
			if err == nil {
				cl := secure("srv.test")
				cl.Transport.(*http.Transport).TLSClientConfig.Certificates = []tls.Certificate{pair}
				st, _ = vars(cl, lm)
				w.check(st == 200, "admin mutual-tls", "the admin listener answered %d to a client with certificate", st)
			}
			st, b = vars(secure("srv.test"), ln)
			w.check(st != 200 || !strings.Contains(b, "routedns"), "admin allowed-net", "the admin listener served a client that is not allowed: %d", st)
		})
	}
	// the method of a DoH resolver
	for _, method := range []string{"", "GET", "POST"} {
		c := w.c(nil)
		var mu sync.Mutex
		got := map[string]int{}
		ls, err := tls.Listen("tcp", "127.0.0.1:0", &tls.Config{Certificates: []tls.Certificate{p.ca.Issue("127.0.0.1")}})
		if err != nil {
			panic(err)
		}
		w.held = append(w.held, ls)
		go http.Serve(ls, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			b, _ := io.ReadAll(r.Body)
			if r.Method == "GET" {
				b, _ = base64.RawURLEncoding.DecodeString(r.URL.Query().Get("dns"))
			}
			q := new(dns.Msg)
			if q.Unpack(b) != nil {
				rw.WriteHeader(400)
				return
			}
			mu.Lock()
			got[r.Method+" "+r.URL.Path]++
			mu.Unlock()
			o, _ := plain(3, q).Pack()
			rw.Header().Set("Content-Type", "application/dns-message")
			rw.Write(o)
		}))
		line := ""
		if method != "" {
			line = fmt.Sprintf("doh = {method = %q}", method)
		}
		l := w.udp(w.resolver("meth-"+c, "doh", fmt.Sprintf("https://%s/some/path{?dns}", ls.Addr()), fmt.Sprintf("ca = %q", p.caFile), line))
		w.step("doh method", func() {
			a := w.a(l, "x."+c+".test.")
			mu.Lock()
			defer mu.Unlock()
			want := method
			if want == "" {
				want = "POST"
			}
			w.check(from(a) == 3 && got[want+" /some/path"] == 1, "doh method", "method %q: the server saw %v and the answer is %s", method, got, short(a))
		})
	}
}

// plainLinks: addresses, sizes, times and proxies of UDP and TCP.
func (w *world) plainLinks() {
	for _, proto := range []string{"udp", "tcp"} {
		c := w.c(nil)
		local := fmt.Sprintf("127.78.%d.%d", w.rnd.Intn(200), 1+w.rnd.Intn(200))
		l := w.udp(w.resolver("local-"+c, proto, fmt.Sprintf("127.0.0.1:%d", w.up[1]), w.from4(local)...))
		w.step(proto+" local-address", func() {
			a := w.a(l, "x."+c+".test.")
			s := w.seen(c)
			w.check(from(a) == 1 && len(s) == 1 && s[0].src.String() == local && s[0].tcp == (proto == "tcp"), proto+" local-address", "local address %s: got %s, the server saw %v", local, short(a), s)
		})
		size := 600 + w.rnd.Intn(3000)
		c2 := w.c(nil)
		l2 := w.udp(w.resolver("size-"+c2, proto, fmt.Sprintf("127.0.0.1:%d", w.up[1]), fmt.Sprintf("edns0-udp-size = %d", size)))
		if proto == "udp" {
			w.step("edns0-udp-size", func() {
				q := vt.Query("x."+c2+".test.", dns.TypeA)
				q.SetEdns0(4096, false)
				w.ask(l2, q)
				s := w.seen(c2)
				w.check(len(s) == 1 && s[0].m.IsEdns0() != nil && int(s[0].m.IsEdns0().UDPSize()) == size, "edns0-udp-size", "size %d: the server saw %v", size, s)
			})
		}
		// query-timeout: one resolver gives up while the other still waits
		gate := make(chan struct{})
		c3 := w.c(func(i int, q *dns.Msg) *dns.Msg { return nil })
		c4 := w.c(func(i int, q *dns.Msg) *dns.Msg { <-gate; return plain(i, q) })
		l3 := w.udp(w.resolver("qt1-"+c3, proto, fmt.Sprintf("127.0.0.1:%d", w.up[2]), "query-timeout = 1"))
		l4 := w.udp(w.resolver("qt2-"+c4, proto, fmt.Sprintf("127.0.0.1:%d", w.up[2]), "query-timeout = 50"))
		w.slowStep("query-timeout", func() {
			late := make(chan *dns.Msg, 1)
			go func() { late <- w.a(l4, "x."+c4+".test.", askOpt{wait: 55 * time.Second}) }()
			a := w.a(l3, "x."+c3+".test.", askOpt{wait: 40 * time.Second})
			w.check(rcode(a) == "SERVFAIL", proto+" query-timeout", "query-timeout 1 and a server that never answers: got %s", short(a))
			time.Sleep(3 * time.Second)
			close(gate)
			a = <-late
			w.check(from(a) == 2, proto+" query-timeout", "query-timeout 50 and a server that answers after more than 4 s: got %s", short(a))
		})
		// addresses clients may come from
		c5 := w.c(nil)
		l5 := w.listener(proto, "up0", `allowed-net = ["127.44.0.0/16", "::1/128"]`)
		w.step("allowed-net", func() {
			a := w.a(l5, "x."+c5+".test.", askOpt{net: proto, src: "127.44.1.1"})
			w.check(from(a) == 0, proto+" allowed-net", "an allowed client got %s", short(a))
			a = w.a(l5, "y."+c5+".test.", askOpt{net: proto, src: "127.45.1.1", wait: 3 * time.Second})
			w.check((a == nil || a.Rcode == dns.RcodeRefused) && w.count(c5, "y."+c5+".test.") == 0, proto+" allowed-net", "a client that is not allowed got %s", short(a))
		})
		// families of addresses
		for i, v := range []int{0, 4, 6, 4, 6} {
			c := w.c(nil)
			port := w.port()
			line := ""
			if v != 0 {
				line = fmt.Sprintf("ip-version = %d", v)
			}
			if i > 2 {
				line += "\nbind-if = \"lo\""
			}
			w.listenerAt(proto, fmt.Sprintf(":%d", port), "ipv-"+c, "up0", line)
			w.slowStep("ip-version", func() {
				o := askOpt{net: proto, wait: 20 * time.Second}
				n := askOpt{net: proto, wait: time.Second}
				o4, o6 := o, o
				if v == 4 {
					o6 = n
				}
				if v == 6 {
					o4 = n
				}
				a := w.a(fmt.Sprintf("127.0.0.1:%d", port), "a."+c+".test.", o4)
				w.check((from(a) == 0) == (v != 6), proto+" ip-version", "ip-version %d over IPv4: %s", v, short(a))
				a = w.a(fmt.Sprintf("[::1]:%d", port), "b."+c+".test.", o6)
				w.check((from(a) == 0) == (v != 4), proto+" ip-version", "ip-version %d over IPv6: %s", v, short(a))
			})
		}
		// an address with a name
		if w.localhost {
			c := w.c(nil)
			port := w.port()
			w.listenerAt(proto, fmt.Sprintf("localhost:%d", port), "lh-"+c, "up0")
			w.slowStep("address with a name", func() {
				a := w.a(fmt.Sprintf("127.0.0.1:%d", port), "a."+c+".test.", askOpt{net: proto, wait: 20 * time.Second})
				w.check(from(a) == 0, proto+" address with a name", "listening on localhost, asked at 127.0.0.1: %s", short(a))
				a = w.a(fmt.Sprintf("127.0.0.2:%d", port), "b."+c+".test.", askOpt{net: proto, wait: time.Second})
				w.check(from(a) != 0, proto+" address with a name", "listening on localhost, asked at 127.0.0.2: %s", short(a))
			})
		}
		for _, dev := range []string{"lo", "nosuchdev"} {
			c := w.c(nil)
			port := w.port()
			w.listenerAt(proto, fmt.Sprintf("127.0.0.1:%d", port), "ldev-"+c, "up0", fmt.Sprintf("bind-if = %q", dev))
			if dev != "lo" {
				w.ports = w.ports[:len(w.ports)-1] // never bound
			}
			w.slowStep("listener bind-if", func() {
				o := askOpt{net: proto, wait: time.Second}
				if dev == "lo" {
					o.wait = 20 * time.Second
				}
				a := w.a(fmt.Sprintf("127.0.0.1:%d", port), "x."+c+".test.", o)
				w.check((from(a) == 0) == (dev == "lo"), proto+" listener bind-if", "bind-if %s: %s", dev, short(a))
			})
		}
		// an interface to use
		for _, dev := range []string{"lo", "nosuchdev"} {
			c := w.c(nil)
			l := w.udp(w.resolver("dev-"+c, proto, fmt.Sprintf("127.0.0.1:%d", w.up[1]), fmt.Sprintf("bind-if = %q", dev), map[string]string{"lo": "query-timeout = 30", "nosuchdev": "query-timeout = 1"}[dev]))
			w.slowStep("bind-if", func() {
				a := w.a(l, "x."+c+".test.")
				w.check((from(a) == 1) == (dev == "lo"), proto+" bind-if", "bind-if %s: %s", dev, short(a))
			})
		}
	}
	// default ports, on an address of their own
	w.defaults()
	// names of servers, by the bootstrap resolver
	{
		fmt.Fprintf(&w.conf2, "[bootstrap-resolver]\naddress = \"127.0.0.1:%d\"\nprotocol = %q\n\n", w.up[3], vt.Pick(w.rnd, "udp", "tcp"))
		w.mu.Lock()
		w.h["boot"] = func(i int, q *dns.Msg) *dns.Msg {
			a := new(dns.Msg).SetReply(q)
			if i == 3 && q.Question[0].Qtype == dns.TypeA {
				a.Answer = []dns.RR{vt.RR("%s 300 IN A 127.0.0.1", q.Question[0].Name)}
			}
			return a
		}
		w.mu.Unlock()
		c := w.c(nil)
		l := w.udp(w.resolver("boot-"+c, vt.Pick(w.rnd, "udp", "tcp"), fmt.Sprintf("host-%s.boot.test:%d", c, w.up[1])))
		w.step("bootstrap-resolver", func() {
			a := w.a(l, "x."+c+".test.")
			w.check(from(a) == 1 && w.count("boot", "host-"+c+".boot.test.") > 0, "bootstrap-resolver", "a server given by name: got %s, %d queries to the bootstrap resolver", short(a), w.count("boot", "host-"+c+".boot.test."))
		})
	}
	for k := 0; k < 4; k++ {
		byName, local := k%2 == 0, k/2 == 0
		s := newSocks(w)
		c := w.c(nil)
		host := "127.0.0.1"
		if byName {
			host = "host-" + c + ".boot.test"
		}
		line := ""
		if local {
			line = "socks5-resolve-local = true"
		}
		l := w.udp(w.resolver("socks-"+c, "tcp", fmt.Sprintf("%s:%d", host, w.up[1]), fmt.Sprintf("socks5-address = %q", s.addr), `socks5-username = "usr"`, `socks5-password = "pwd"`, line))
		w.step("socks5", func() {
			a := w.a(l, "x."+c+".test.")
			s.mu.Lock()
			defer s.mu.Unlock()
			w.check(from(a) == 1 && len(s.log) > 0, "socks5-address", "through the proxy: got %s, the proxy saw %q", short(a), s.log)
			want := fmt.Sprintf("usr pwd %s:%d", host, w.up[1])
			if byName && local {
				want = fmt.Sprintf("usr pwd 127.0.0.1:%d", w.up[1])
			}
			for _, x := range s.log {
				w.check(x == want, "socks5 options", "the proxy saw %q, not %q", x, want)
			}
		})
	}
	// sockets handed over by a helper
	{
		c := w.c(nil)
		sock := filepath.Join(w.dir, "fd.sock")
		fd := run("fd-server", "--mode", "0600", sock)
		for i := 0; i < 3000; i++ {
			if st, err := os.Stat(sock); err == nil && st.Mode().Perm() == 0o600 {
				break
			}
			if fd.ended(20 * time.Millisecond) {
				break
			}
		}
		w.fd = append(w.fd, fd)
		st, err := os.Stat(sock)
		w.check(err == nil && st.Mode().Perm() == 0o600, "fd-server mode", "the helper's socket: %v %v\n%s", st, err, tail(fd.out.String()))
		proto := vt.Pick(w.rnd, "udp", "tcp")
		l := w.udp(w.resolver("xs-"+c, proto, fmt.Sprintf("127.0.0.1:%d", w.up[1]), fmt.Sprintf("xsocket = %q", sock)))
		l2 := w.udp(w.resolver("xn-"+c, proto, fmt.Sprintf("127.0.0.1:%d", w.up[1]), fmt.Sprintf("xsocket = %q", sock+"-none"), "query-timeout = 1"))
		l3 := w.listener(proto, "up0", fmt.Sprintf("xsocket = %q", sock))
		w.step("xsocket", func() {
			a := w.a(l, "x."+c+".test.")
			w.check(from(a) == 1, "resolver xsocket", "a resolver with sockets of the helper got %s", short(a))
			a = w.a(l2, "y."+c+".test.")
			w.check(rcode(a) == "SERVFAIL" && w.count(c, "y."+c+".test.") == 0, "resolver xsocket", "a resolver without its helper got %s", short(a))
			a = w.a(l3, "z."+c+".test.", askOpt{net: proto})
			w.check(from(a) == 0, "listener xsocket", "a listener with sockets of the helper got %s", short(a))
			n := strings.Count(fd.out.String(), "\n")
			w.check(n >= 3, "fd-server", "the helper logged %q", fd.out.String())
		})
	}
}

// defaults: ports that are not in the configuration.
func (w *world) defaults() {
	host := fmt.Sprintf("127.%d.%d.%d", 100+w.rnd.Intn(50), w.rnd.Intn(200), 1+w.rnd.Intn(200))
	pc, err := net.ListenPacket("udp", host+":53")
	if err != nil {
		w.r.Note("default ports", "not tried: "+err.Error())
		return
	}
	w.pcs = append(w.pcs, pc)
	s := &dns.Server{PacketConn: pc, Handler: dns.HandlerFunc(func(rw dns.ResponseWriter, q *dns.Msg) { w.serve(3, rw, q) })}
	started := make(chan struct{})
	s.NotifyStartedFunc = func() { close(started) }
	go s.ActivateAndServe()
	<-started
	c := w.c(nil)
	l := w.udp(w.resolver("dp-"+c, "udp", host))
	lhost := strings.TrimSuffix(host, ".1") + "0"
	if net.ParseIP(lhost) == nil || strings.HasSuffix(lhost, "2550") {
		lhost = ""
	}
	lh := fmt.Sprintf("127.%d.%d.%d", 160+w.rnd.Intn(50), w.rnd.Intn(200), 1+w.rnd.Intn(200))
	fmt.Fprintf(&w.conf, "[listeners.dp-%s]\naddress = %q\nprotocol = \"tcp\"\nresolver = \"up1\"\n\n", c, lh)
	w.step("default ports", func() {
		a := w.a(l, "x."+c+".test.")
		w.check(from(a) == 3, "default port", "a resolver without port got %s", short(a))
		var b *dns.Msg
		w.until(func() bool {
			b = w.a(lh+":53", "y."+c+".test.", askOpt{net: "tcp"})
			return b != nil
		})
		w.check(from(b) == 1, "default port", "a listener without port answered %s", short(b))
	})
}

// socks is a SOCKS5 proxy that asks for a password.
type socks struct {
	addr string
	mu   sync.Mutex
	log  []string
}

func newSocks(w *world) *socks {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	w.held = append(w.held, l)
	s := &socks{addr: l.Addr().String()}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go s.serve(c)
		}
	}()
	return s
}

func (s *socks) serve(c net.Conn) {
	defer c.Close()
	rd := func(n int) []byte {
		b := make([]byte, n)
		if _, err := io.ReadFull(c, b); err != nil {
			panic(http.ErrAbortHandler)
		}
		return b
	}
	defer func() { recover() }()
	rd(int(rd(2)[1]))
	c.Write([]byte{5, 2})
	u := string(rd(int(rd(2)[1])))
	p := string(rd(int(rd(1)[0])))
	c.Write([]byte{1, 0})
	h := rd(4)
	var host string
	switch h[3] {
	case 1:
		host = net.IP(rd(4)).String()
	case 3:
		host = string(rd(int(rd(1)[0])))
	case 4:
		host = net.IP(rd(16)).String()
	}
	port := binary.BigEndian.Uint16(rd(2))
	s.mu.Lock()
	s.log = append(s.log, fmt.Sprintf("%s %s %s:%d", u, p, host, port))
	s.mu.Unlock()
	d, err := (&net.Dialer{}).DialContext(context.Background(), "tcp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		c.Write([]byte{5, 5, 0, 1, 0, 0, 0, 0, 0, 0})
		return
	}
	defer d.Close()
	c.Write([]byte{5, 0, 0, 1, 127, 0, 0, 1, 0, 0})
	go io.Copy(d, c)
	io.Copy(c, d)
}
