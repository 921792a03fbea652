package listeners

import (
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// TestC20: only clients in the allowed networks are served, and all of them.
func TestC20(t *testing.T) {
	r := vt.Start(t, "C20", "one query of a client per evaluation; non-trivial when the listener has allowed networks, distinct by (listener, position of the client relative to the networks, proxy header)")
	for _, k := range kinds {
		r.Need("served "+k, 20)
		r.Need("refused "+k, 8)
	}
	r.Need("decided by a forwarded address", 5)
	if haveV6() {
		r.Need("served over IPv6", 20)
		r.Need("refused over IPv6", 10)
	}
	for c := 0; c < r.N(20, 300); c++ {
		for _, k := range kinds {
			aclCase(r, k, c)
		}
	}
	for c := 0; c < r.N(6, 60); c++ {
		proxyCase(r, c)
	}
	r.Exit()
}

// contains compares bit by bit.
func contains(n *net.IPNet, ip net.IP) bool {
	a, b := n.IP.To4(), ip.To4()
	mask := n.Mask
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		a, b = n.IP.To16(), ip.To16()
	} else if len(mask) == 16 {
		mask = mask[12:]
	}
	if b == nil {
		return false
	}
	ones, _ := mask.Size()
	for i := 0; i < ones; i++ {
		if (a[i/8]^b[i/8])&(0x80>>(i%8)) != 0 {
			return false
		}
	}
	return true
}

func allowedBy(nets []*net.IPNet, ip net.IP) bool {
	if len(nets) == 0 {
		return true
	}
	for _, n := range nets {
		if contains(n, ip) {
			return true
		}
	}
	return false
}

func loopIP(rnd *rand.Rand) net.IP {
	return net.IPv4(127, byte(rnd.Intn(3)), byte(rnd.Intn(256)), byte(1+rnd.Intn(254)))
}

// near returns an address that differs from ip in one of its later bits.
func near(rnd *rand.Rand, ip net.IP) net.IP {
	o := append(net.IP{}, ip.To4()...)
	bit := 8 + rnd.Intn(24)
	o[bit/8] ^= 0x80 >> (bit % 8)
	if o[3] == 0 || o[3] == 255 {
		o[3] = 7
	}
	return o
}

func randNets(rnd *rand.Rand) (out []*net.IPNet) {
	for i := rnd.Intn(4); i > 0; i-- {
		if rnd.Intn(4) == 0 {
			s := vt.Pick(rnd, "::1/128", "::/112", "::2/127", "2001:db8::/32", "10.0.0.0/8", "::/0", "::ffff:127.0.0.0/104")
			if s == "::ffff:127.0.0.0/104" { // a v4 network as Go sees it
				s = "127.0.0.0/8"
			}
			_, n, _ := net.ParseCIDR(s)
			out = append(out, n)
			continue
		}
		_, n, _ := net.ParseCIDR(fmt.Sprintf("%s/%d", loopIP(rnd), vt.Pick(rnd, 9, 12, 16, 17, 20, 24, 25, 28, 31, 32, 32)))
		out = append(out, n)
	}
	return
}

func answerFor(tok string) func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
	return func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetReply(q)
		a.Answer = []dns.RR{vt.RR("%s 60 IN TXT %q", q.Question[0].Name, tok)}
		return a, nil
	}
}

func hasAnswer(a *dns.Msg, tok string) bool {
	if a == nil || len(a.Answer) != 1 {
		return false
	}
	t, ok := a.Answer[0].(*dns.TXT)
	return ok && len(t.Txt) == 1 && t.Txt[0] == tok
}

func aclCase(r *vt.R, kind string, c int) {
	rnd := r.Rand("acl", kind, c)
	label := fmt.Sprintf("acl %s %d", kind, c)
	r.Case("%s", label)
	cfg := config{allowed: randNets(rnd), any: rnd.Intn(4) == 0, odohMode: vt.Pick(rnd, "target", "dual", ""), allowDoH: rnd.Intn(2) == 0}
	if strings.HasPrefix(kind, "doh") && rnd.Intn(2) == 0 {
		cfg.proxyNet = proxyNet(rnd)
	}
	if (kind == "udp" || kind == "tcp") && rnd.Intn(3) == 0 {
		cfg.network = kind + "4"
	} else if haveV6() && !cfg.any {
		cfg.v6 = rnd.Intn(4) == 0
	}
	if cfg.v6 && len(cfg.allowed) > 0 && rnd.Intn(2) == 0 {
		_, n, _ := net.ParseCIDR(vt.Pick(rnd, "::1/128", "::/112", "::/0", "::2/127", "fe80::/10", "8000::/1"))
		cfg.allowed = append(cfg.allowed, n)
		rnd.Shuffle(len(cfg.allowed), func(i, j int) { cfg.allowed[i], cfg.allowed[j] = cfg.allowed[j], cfg.allowed[i] })
	}
	b := newBackend()
	s := start(r, kind, "acl-"+kind, cfg, b)
	if s == nil {
		return
	}
	defer s.stop()
	for i := 0; i < 6; i++ {
		ip := loopIP(rnd)
		if len(cfg.allowed) > 0 && rnd.Intn(4) > 0 {
			n := vt.Pick(rnd, cfg.allowed...)
			if v4 := n.IP.To4(); v4 != nil && v4[0] == 127 {
				ip = append(net.IP{}, v4...)
				if ip[3] == 0 {
					ip[3] = 9
				}
				if rnd.Intn(2) == 0 {
					ip = near(rnd, ip)
				}
			}
		}
		if cfg.v6 || cfg.any && cfg.network == "" && haveV6() && rnd.Intn(4) == 0 {
			ip = net.IPv6loopback
		}
		what := "plain"
		hdr := http.Header{}
		eff := ip
		if strings.HasPrefix(kind, "doh") && rnd.Intn(2) == 0 {
			// a forwarded address counts only from the proxy
			f := loopIP(rnd)
			if len(cfg.allowed) > 0 && rnd.Intn(2) == 0 {
				f = vt.Pick(rnd, cfg.allowed...).IP
			} else if rnd.Intn(2) == 0 {
				f = net.IPv4(byte(vt.Pick(rnd, 10, 126)), 1, 2, byte(rnd.Intn(256)))
			}
			hdr["X-Forwarded-For"] = []string{"192.0.2.77", "198.51.100.1, " + f.String()}
			what = "forwarded header"
			if cfg.proxyNet != nil && contains(cfg.proxyNet, ip) && !f.IsLoopback() {
				eff = f
				r.Observe("decided by a forwarded address", 1)
			}
		}
		tok := fmt.Sprintf("t%d-%s", i, strings.ToLower(vt.Label(rnd, 6)))
		b.set(tok, answerFor(tok))
		q := vt.Query(tok+".acl.test.", dns.TypeTXT)
		raw, _ := q.Pack()
		want := allowedBy(cfg.allowed, eff)
		req := request{raw: raw, get: kind != "odoh" && rnd.Intn(2) == 0, hdr: hdr}
		if kind == "odoh" && cfg.allowDoH && rnd.Intn(3) == 0 {
			req.ctyp = "application/dns-message"
			what = "doh"
		}
		cl, err := dial(s, ip, vt.Pick(rnd, "a.test", "b.test"), func(w string) { r.Violation("stray", kind+": "+w, label) })
		if err != nil {
			// a refused client may be turned away at any stage
			if want {
				r.Violation("turned-away", fmt.Sprintf("%s: client %s cannot connect, allowed %v: %v", kind, ip, cfg.allowed, err), label)
			} else {
				r.Observe("refused "+kind, 1)
				r.Eval(fmt.Sprintf("%s no %s", kind, what))
			}
			continue
		}
		if !want && kind == "doq" {
			begin := time.Now()
			req.patience = func() bool { return len(b.saw(tok)) > 0 || time.Since(begin) > 150*time.Millisecond }
		}
		o := cl.ask(req)
		cl.close()
		got := len(b.saw(tok))
		key := ""
		if len(cfg.allowed) > 0 {
			key = fmt.Sprintf("%s %v %s %d nets %v", kind, want, what, len(cfg.allowed), cfg.any)
		}
		r.Eval(key)
		desc := fmt.Sprintf("%s: client %s (counts as %s), allowed %v, %s: %s", kind, ip, eff, cfg.allowed, what, o)
		if ip.To4() == nil {
			r.Observe(map[bool]string{true: "served", false: "refused"}[want]+" over IPv6", 1)
		}
		if want {
			r.Observe("served "+kind, 1)
			if got == 0 || !hasAnswer(o.msg(), tok) {
				r.Violation("not-served", fmt.Sprintf("%s; reached the resolver %d times", desc, got), label)
			}
			continue
		}
		r.Observe("refused "+kind, 1)
		if got != 0 {
			r.Violation("served", desc+"; it reached the resolver", label)
			continue
		}
		if a := o.msg(); a != nil && (a.Rcode != dns.RcodeRefused || len(a.Answer) > 0) {
			r.Violation("not-refused", desc, label)
		}
	}
}

// proxyCase: the proxy of an ODoH listener serves only allowed clients too.
func proxyCase(r *vt.R, c int) {
	rnd := r.Rand("proxy", c)
	label := fmt.Sprintf("odoh proxy %d", c)
	r.Case("%s", label)
	cfg := config{allowed: randNets(rnd), odohMode: vt.Pick(rnd, "proxy", "dual")}
	s := start(r, "odoh", "acl-proxy", cfg, newBackend())
	if s == nil {
		return
	}
	defer s.stop()
	for i := 0; i < 4; i++ {
		ip := loopIP(rnd)
		if len(cfg.allowed) > 0 && rnd.Intn(2) == 0 {
			if v4 := vt.Pick(rnd, cfg.allowed...).IP.To4(); v4 != nil && v4[0] == 127 {
				ip = v4
			}
		}
		if ip.To4()[3] == 0 {
			ip = append(net.IP{}, ip.To4()...)
			ip[3] = 3
		}
		want := allowedBy(cfg.allowed, ip)
		d := &net.Dialer{LocalAddr: &net.TCPAddr{IP: ip}}
		hc := &http.Client{Timeout: vt.HangLimit, Transport: &http.Transport{DialContext: d.DialContext, TLSClientConfig: clientTLS("a.test"), DisableKeepAlives: true}}
		// The host does not pass the listener's own checks, so that nothing is
		// looked up or sent; an allowed client learns this, another is refused.
		req, _ := http.NewRequest("POST", "https://"+s.target()+"/proxy?targethost=nothing&targetpath=/dns-query", strings.NewReader("x"))
		req.Header.Set("content-type", "application/oblivious-dns-message")
		resp, err := hc.Do(req)
		r.Eval(fmt.Sprintf("proxy %v", want))
		if err != nil {
			if want {
				r.Violation("not-served", fmt.Sprintf("proxy: client %s, allowed %v: %v", ip, cfg.allowed, err), label)
			}
			continue
		}
		resp.Body.Close()
		r.Observe("proxy requests", 1)
		if want != (resp.StatusCode == http.StatusBadRequest) {
			r.Violation("proxy-acl", fmt.Sprintf("odoh proxy: client %s, allowed %v: status %d", ip, cfg.allowed, resp.StatusCode), label)
		}
	}
}
