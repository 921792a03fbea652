package listeners

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"log"
	"log/slog"
	"math/rand"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// TestC24: no input takes a listener down or gets through malformed.
func TestC24(t *testing.T) {
	r := vt.Start(t, "C24", "one hostile message, request or connection per evaluation, with a well-formed query checked after every batch; non-trivial always, distinct by (listener, kind of input)")
	for _, k := range kinds {
		r.Need("hostile messages "+k, 300)
		r.Need("good queries served "+k, 20)
	}
	swallowed := &panics{}
	log.SetOutput(swallowed)
	slog.SetDefault(slog.New(slog.NewTextHandler(swallowed, nil)))
	for c := 0; c < r.N(3, 60); c++ {
		for _, k := range kinds {
			hostileCase(r, k, c)
			if n := swallowed.n.Swap(0); n > 0 {
				r.Violation("handler-panic", fmt.Sprintf("%s: %d panics in request handlers", k, n), fmt.Sprintf("hostile %s %d", k, c))
			}
		}
	}
	r.Exit()
}

// hostile makes a message that is malformed, or odd in some way.
func hostile(rnd *rand.Rand, tok string) ([]byte, string) {
	q := vt.Query(tok+".hostile.test.", dns.TypeA)
	q.Id = uint16(rnd.Intn(65536))
	switch rnd.Intn(12) {
	case 0:
		b := make([]byte, rnd.Intn(600))
		rnd.Read(b)
		return b, "noise"
	case 1:
		return make([]byte, rnd.Intn(13)), "short"
	case 2: // no question
		q.Question = nil
		if rnd.Intn(2) == 0 {
			q.SetEdns0(1232, true)
		}
		b, _ := q.Pack()
		return b, "no question"
	case 3: // two questions
		q.Question = append(q.Question, dns.Question{Name: "second.test.", Qtype: dns.TypeTXT, Qclass: 1})
		b, _ := q.Pack()
		return b, "two questions"
	case 4: // a response
		q.Response = true
		b, _ := q.Pack()
		return b, "response"
	case 5: // counts that lie
		b, _ := q.Pack()
		binary.BigEndian.PutUint16(b[4+2*rnd.Intn(4):], uint16(rnd.Intn(65536)))
		return b, "counts"
	case 6: // compression loops and pointers outside
		b, _ := q.Pack()
		b = append(b[:12], 0xc0, byte(rnd.Intn(64)), 0, 1, 0, 1)
		return b, "pointer"
	case 7: // cut
		q.SetEdns0(1232, true)
		b, _ := q.Pack()
		return b[:rnd.Intn(len(b))], "cut"
	case 8: // bits flipped
		q.SetEdns0(1232, true)
		vt.AddECS(q, "192.0.2.1", 24)
		b, _ := q.Pack()
		for i := 1 + rnd.Intn(6); i > 0; i-- {
			b[rnd.Intn(len(b))] ^= 1 << rnd.Intn(8)
		}
		return b, "flipped"
	case 9: // odd EDNS0
		q.SetEdns0(uint16(rnd.Intn(65536)), true)
		o := q.IsEdns0()
		o.SetVersion(uint8(rnd.Intn(256)))
		o.Option = append(o.Option, &dns.EDNS0_LOCAL{Code: uint16(rnd.Intn(20)), Data: make([]byte, rnd.Intn(50))})
		if rnd.Intn(2) == 0 {
			q.Extra = append(q.Extra, dns.Copy(o))
		}
		b, _ := q.Pack()
		return b, "odd EDNS0"
	case 10: // records in every section
		for _, sec := range []*[]dns.RR{&q.Answer, &q.Ns, &q.Extra} {
			for i := rnd.Intn(3); i > 0; i-- {
				*sec = append(*sec, vt.RR("%s.x.test. 60 IN TXT %q", vt.Label(rnd, 5), vt.Label(rnd, 30)))
			}
		}
		if rnd.Intn(3) == 0 {
			q.SetTsig("key.test.", dns.HmacSHA256, 300, 1700000000)
		}
		b, _ := q.Pack()
		return b, "records"
	default: // any opcode, flags, type, class, name
		q.Opcode = rnd.Intn(16)
		q.Rcode = rnd.Intn(16)
		q.Truncated, q.Zero = rnd.Intn(2) == 0, rnd.Intn(2) == 0
		q.Question[0].Qtype = uint16(rnd.Intn(65536))
		q.Question[0].Qclass = uint16(rnd.Intn(65536))
		if rnd.Intn(3) == 0 {
			q.Question[0].Name = vt.Pick(rnd, ".", `\000.test.`, `a\.b\\.test.`, strings.Repeat("a.", 126), strings.Repeat("x", 63)+".test.")
		}
		b, _ := q.Pack()
		return b, "header"
	}
}

func hostileCase(r *vt.R, kind string, c int) {
	rnd := r.Rand("hostile", kind, c)
	label := fmt.Sprintf("hostile %s %d", kind, c)
	r.Case("%s", label)
	b := newBackend()
	b.bad = func(q *dns.Msg, ci rdns.ClientInfo) {
		r.Violation("no-question", fmt.Sprintf("%s: a message without question reached the resolver", kind), label)
	}
	s := start(r, kind, "hostile-"+kind, config{odohMode: vt.Pick(rnd, "target", "dual"), allowDoH: true}, b)
	if s == nil {
		return
	}
	defer s.stop()
	good := func(n int) bool {
		tok := fmt.Sprintf("good%d-%s", n, strings.ToLower(vt.Label(rnd, 5)))
		b.set(tok, answerFor(tok))
		cl, err := dial(s, loopIP(rnd), "a.test", func(string) {})
		if err != nil {
			r.Violation("dead", fmt.Sprintf("%s: no connection after hostile input: %v", kind, err), label)
			return false
		}
		defer cl.close()
		q := vt.Query(tok+".good.test.", dns.TypeTXT)
		raw, _ := q.Pack()
		o := cl.ask(request{raw: raw})
		if !hasAnswer(o.msg(), tok) {
			r.Violation("dead", fmt.Sprintf("%s: a good query after hostile input got %s", kind, o), label)
			return false
		}
		r.Observe("good queries served "+kind, 1)
		return true
	}
	// connections that are opened and then say nothing, or stop half way
	var idle []io.Closer
	defer func() {
		for _, i := range idle {
			i.Close()
		}
	}()
	// a query on a connection of its own, kept open and quiet
	for round := 0; round < 8; round++ {
		var wg sync.WaitGroup
		for w := 0; w < 3; w++ {
			rnd := rand.New(rand.NewSource(rnd.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				cl, err := dial(s, loopIP(rnd), "a.test", func(string) {})
				if err != nil {
					r.Violation("dead", fmt.Sprintf("%s: no connection: %v", kind, err), label)
					return
				}
				defer func() { cl.close() }()
				for i := 0; i < 10; i++ {
					raw, what := hostile(rnd, fmt.Sprintf("h%d-%d", w, i))
					r.Eval(kind + " " + what)
					r.Observe("hostile messages "+kind, 1)
					begin := time.Now()
					req := request{raw: raw, get: rnd.Intn(2) == 0, patience: func() bool { return time.Since(begin) > 5*time.Millisecond }}
					if kind == "odoh" && rnd.Intn(2) == 0 {
						req.ctyp = vt.Pick(rnd, "application/oblivious-dns-message", "application/dns-message", "text/plain", "")
						req.get = false
					} else if kind == "odoh" {
						req.get = false
					}
					if kind == "doq" {
						req.patience = func() bool { return time.Since(begin) > 60*time.Millisecond }
					}
					o := cl.ask(req)
					if a := o.msg(); a != nil && !a.Response {
						r.Violation("not-a-response", fmt.Sprintf("%s, %s: %s", kind, what, o), label)
					}
					if o.closed && cl.conn != nil || o.closed && kind == "doq" && cl.qconn.Context().Err() != nil {
						cl.close()
						if cl, err = dial(s, loopIP(rnd), "a.test", func(string) {}); err != nil {
							r.Violation("dead", fmt.Sprintf("%s: no connection: %v", kind, err), label)
							cl = &client{}
							return
						}
					}
				}
			}()
		}
		wg.Wait()
		idle = append(idle, halfway(r, s, rnd)...)
		if !good(round) {
			return
		}
	}
	// the listener still works when those connections go away
	for _, i := range idle {
		i.Close()
	}
	idle = nil
	good(99)
}

// halfway opens connections that break the protocol below DNS.
func halfway(r *vt.R, s *server, rnd *rand.Rand) (open []io.Closer) {
	what := ""
	defer func() {
		r.Eval(s.kind + " " + what)
		r.Observe("broken connections", 1)
	}()
	if overUDP(s.kind) {
		c, err := net.Dial("udp", s.target())
		if err != nil {
			return
		}
		for i := 0; i < 20; i++ {
			b := make([]byte, rnd.Intn(1400))
			rnd.Read(b)
			if len(b) > 20 && rnd.Intn(2) == 0 {
				b[0] = byte(0xc0 | rnd.Intn(64)) // looks like a QUIC long header
				copy(b[1:], []byte{0, 0, 0, 1, 8})
			} else if len(b) > 20 && rnd.Intn(2) == 0 {
				copy(b, []byte{22, 254, 253}) // looks like a DTLS handshake
			}
			c.Write(b)
		}
		what = "noise below"
		open = append(open, c)
		if s.kind == "doq" || s.kind == "doh3" {
			if cl, err := dial(s, loopIP(rnd), "a.test", func(string) {}); err == nil {
				open = append(open, closer(cl.close))
				if cl.qconn != nil {
					ctx, cancel := context.WithTimeout(context.Background(), vt.HangLimit)
					defer cancel()
					for i := 0; i < 10; i++ {
						st, err := cl.qconn.OpenStreamSync(ctx)
						if err != nil {
							break
						}
						st.Write(vt.Pick(rnd, []byte{}, []byte{0}, []byte{0, 50}, []byte{0xff, 0xff, 1, 2, 3}, []byte{0, 0}))
						if rnd.Intn(2) == 0 {
							st.CancelWrite(1)
						}
					}
					what = "half streams"
				}
			}
		}
		return
	}
	c, err := net.Dial("tcp", s.target())
	if err != nil {
		return
	}
	open = append(open, c)
	if s.kind == "dot" || s.kind == "doh" || s.kind == "odoh" {
		if rnd.Intn(2) == 0 {
			b := make([]byte, 200)
			rnd.Read(b)
			copy(b, []byte{22, 3, 1, 0, 190})
			c.Write(b[:rnd.Intn(200)])
			what = "half handshake"
			return
		}
		tc := clientTLS("a.test")
		if s.kind != "dot" {
			tc.NextProtos = vt.Pick(rnd, []string{"h2"}, []string{"http/1.1"}, nil)
		}
		t := tls.Client(c, tc)
		if err := t.Handshake(); err != nil {
			return
		}
		c = t
	}
	if s.kind == "tcp" || s.kind == "dot" {
		b := vt.Pick(rnd, []byte{0}, []byte{0, 100, 1, 2, 3}, []byte{0xff, 0xff}, []byte{0, 0}, bytes.Repeat([]byte{0, 0}, 200))
		c.Write(b)
		what = "half message"
		return
	}
	what = vt.Pick(rnd, "noise", "huge get", "huge post", "methods", "half post", "bad base64", "no dns")
	post := func(n int, body string) {
		fmt.Fprintf(c, "POST /dns-query HTTP/1.1\r\nHost: x\r\nContent-Type: application/dns-message\r\nContent-Length: %d\r\n\r\n%s", n, body)
	}
	switch what {
	case "noise":
		b := make([]byte, 500)
		rnd.Read(b)
		c.Write(b)
	case "huge get":
		fmt.Fprintf(c, "GET /dns-query?dns=%s HTTP/1.1\r\nHost: x\r\n\r\n", base64.RawURLEncoding.EncodeToString(make([]byte, 70000+rnd.Intn(100000))))
	case "huge post":
		post(1<<30, strings.Repeat("x", 100000))
	case "methods":
		fmt.Fprintf(c, "%s /dns-query HTTP/1.1\r\nHost: x\r\n\r\n", vt.Pick(rnd, "PUT", "DELETE", "HEAD", "OPTIONS", "CONNECT", "BREW"))
	case "half post":
		post(100, "abc")
	case "bad base64":
		fmt.Fprintf(c, "GET /dns-query?dns=%s HTTP/1.1\r\nHost: x\r\n\r\n", vt.Pick(rnd, "", "!!!", "A", "AAAA====", "%00"))
	case "no dns":
		fmt.Fprintf(c, "GET /dns-query?%s HTTP/1.1\r\nHost: x\r\nX-Forwarded-For: %s\r\n\r\n", vt.Pick(rnd, "", "dns", "DNS=AAAA", "dns=&dns=AAAA", "a=b;c=d"), strings.Repeat("1,", rnd.Intn(5000)))
	}
	return
}

type closer func()

func (c closer) Close() error { c(); return nil }
