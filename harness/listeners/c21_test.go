package listeners

import (
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"

	"github.com/miekg/dns"

	"verif/harness/vt"
)

// TestC21: what the pipeline is told about a client is true.
func TestC21(t *testing.T) {
	r := vt.Start(t, "C21", "one query per evaluation, many clients at once per listener; non-trivial always, distinct by (listener, kind of header, trusted or not, server name, method)")
	for _, k := range kinds {
		r.Need("queries "+k, 100)
	}
	if haveV6() {
		r.Need("queries over IPv6", 200)
	}
	r.Need("forwarded address used", 40)
	r.Need("forwarded address not used", 40)
	r.Need("forwarded address in the proxy network", 10)
	for c := 0; c < r.N(8, 150); c++ {
		for _, k := range kinds {
			identityCase(r, k, c)
		}
	}
	r.Exit()
}

// proxyNet picks the network of the trusted proxies; the wider ones have
// addresses of clients in them too.
func proxyNet(rnd *rand.Rand) *net.IPNet {
	_, n, _ := net.ParseCIDR(vt.Pick(rnd, "127.1.0.0/16", "127.1.0.0/16", "126.0.0.0/7", "64.0.0.0/2", "0.0.0.0/0", "::/0", "::1/128"))
	return n
}

// xff makes forwarding headers and returns the address they name, nil if none.
func xff(rnd *rand.Rand) (lines []string, addr net.IP, what string) {
	one := func() string {
		return vt.Pick(rnd, fmt.Sprintf("126.%d.%d.%d", rnd.Intn(256), rnd.Intn(256), rnd.Intn(256)), fmt.Sprintf("10.%d.%d.%d", rnd.Intn(256), rnd.Intn(256), rnd.Intn(256)), fmt.Sprintf("2001:db8::%x", 1+rnd.Intn(60000)))
	}
	for i := rnd.Intn(3); i > 0; i-- {
		lines = append(lines, strings.Repeat(one()+", ", rnd.Intn(3))+one())
	}
	last := one()
	what = "address"
	switch rnd.Intn(8) {
	case 0:
		last, what = vt.Pick(rnd, "127.9.9.9", "::1"), "loopback"
	case 1:
		last, what = vt.Pick(rnd, "", "unknown", "10.1.2.3:80", "10.1.2", "[2001:db8::1]", "10.1.2.3 10.1.2.4"), "not an address"
	case 2:
		last, what = "  "+last+" \t", "spaces"
	}
	if what == "address" || what == "spaces" {
		addr = net.ParseIP(strings.TrimSpace(last))
	}
	if len(lines) > 0 && rnd.Intn(2) == 0 {
		lines[len(lines)-1] += "," + last
	} else {
		lines = append(lines, last)
	}
	return
}

func identityCase(r *vt.R, kind string, c int) {
	rnd := r.Rand("identity", kind, c)
	label := fmt.Sprintf("identity %s %d", kind, c)
	r.Case("%s", label)
	cfg := config{any: rnd.Intn(3) == 0, odohMode: vt.Pick(rnd, "target", "dual", ""), allowDoH: true}
	isHTTP := strings.HasPrefix(kind, "doh")
	if isHTTP && rnd.Intn(4) > 0 {
		cfg.proxyNet = proxyNet(rnd)
	}
	if haveV6() && !cfg.any {
		cfg.v6 = rnd.Intn(4) == 0
	}
	b := newBackend()
	id := fmt.Sprintf("id-%s-%d", kind, rnd.Intn(5))
	s := start(r, kind, id, cfg, b)
	if s == nil {
		return
	}
	defer s.stop()
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		ip := loopIP(rnd)
		if cfg.v6 || cfg.any && haveV6() && rnd.Intn(3) == 0 {
			ip = net.IPv6loopback
		}
		sni := vt.Pick(rnd, "a.test", "b.test", "")
		seed := rnd.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rnd := rand.New(rand.NewSource(seed))
			cl, err := dial(s, ip, sni, func(w string) { r.Violation("stray", kind+": "+w, label) })
			if err != nil {
				r.Violation("no-connection", fmt.Sprintf("%s from %s: %v", kind, ip, err), label)
				return
			}
			defer cl.close()
			for i := 0; i < 4; i++ {
				tok := fmt.Sprintf("w%d-%d-%s", w, i, strings.ToLower(vt.Label(rnd, 6)))
				b.set(tok, answerFor(tok))
				q := vt.Query(tok+".id.test.", dns.TypeTXT)
				raw, _ := q.Pack()
				req := request{raw: raw}
				want := ip
				path := ""
				proto := kind
				what := "none"
				hdrs := []string(nil)
				if isHTTP {
					proto = "doh"
					req.get = rnd.Intn(2) == 0
					path = vt.Pick(rnd, "/", "/dns-query", "/p/"+vt.Label(rnd, 4), "/a//b", "/sp%20ace", "/dns-query/")
					req.path = path
					path = strings.ReplaceAll(path, "%20", " ")
					if path == "/a//b" {
						// the server's router may redirect such paths
						req.path, path = "/a/b", "/a/b"
					}
					if rnd.Intn(3) > 0 {
						var f net.IP
						hdrs, f, what = xff(rnd)
						req.hdr = http.Header{"X-Forwarded-For": hdrs}
						if rnd.Intn(2) == 0 {
							req.hdr["Forwarded"] = []string{"for=203.0.113.9"}
							req.hdr["X-Real-Ip"] = []string{"203.0.113.8"}
						}
						if f != nil && cfg.proxyNet != nil && contains(cfg.proxyNet, ip) {
							want = f
							r.Observe("forwarded address used", 1)
							if contains(cfg.proxyNet, f) {
								r.Observe("forwarded address in the proxy network", 1)
							}
						} else {
							r.Observe("forwarded address not used", 1)
						}
					}
				}
				o := cl.ask(req)
				r.Observe("queries "+kind, 1)
				if ip.To4() == nil {
					r.Observe("queries over IPv6", 1)
				}
				r.Eval(fmt.Sprintf("%s %s %v %v %v %v", kind, what, cfg.proxyNet != nil && contains(cfg.proxyNet, ip), sni != "", req.get, cfg.any))
				saw := b.saw(tok)
				if len(saw) == 0 || !hasAnswer(o.msg(), tok) {
					r.Violation("not-served", fmt.Sprintf("%s from %s: %s", kind, ip, o), label)
					continue
				}
				ci := saw[0].ci
				bad := func(f string, got, want any) {
					r.Violation("identity-"+f, fmt.Sprintf("%s from %s (proxy network %v, headers %q, name %q): the %s is %v, expected %v", kind, ip, cfg.proxyNet, hdrs, sni, f, got, want), label)
				}
				if kind == "odoh" {
					// the point of the protocol is that it says nothing of the client
					if ci.SourceIP != nil && !ci.SourceIP.Equal(ip) {
						bad("address", ci.SourceIP, "none")
					}
				} else if !ci.SourceIP.Equal(want) {
					bad("address", ci.SourceIP, want)
				}
				if ci.Listener != id {
					bad("listener", ci.Listener, id)
				}
				if isHTTP && ci.DoHPath != path || !isHTTP && kind != "odoh" && ci.DoHPath != "" {
					bad("path", ci.DoHPath, path)
				}
				switch kind {
				case "udp", "tcp", "doh-plain":
					if ci.TLSServerName != "" {
						bad("server name", ci.TLSServerName, "none")
					}
				case "dtls": // not available there
					if ci.TLSServerName != "" && ci.TLSServerName != sni {
						bad("server name", ci.TLSServerName, sni)
					}
				default:
					if ci.TLSServerName != sni {
						bad("server name", ci.TLSServerName, sni)
					}
				}
				if kind == "doh3" {
					proto = "doh"
				}
				if ci.Protocol != proto {
					bad("protocol", ci.Protocol, proto)
				}
				if ci.ListenerAddr != s.addr {
					bad("listener address", ci.ListenerAddr, s.addr)
				}
			}
		}()
	}
	wg.Wait()
}
