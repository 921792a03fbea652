// Package upstream drives the upstream clients (plain, DoT, DTLS, DoH, DoQ,
// ODoH) against servers that answer late, twice, wrongly, to somebody else or
// not at all, and judges what the callers get back.
package upstream

import (
	"crypto/tls"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	odoh "github.com/cloudflare/odoh-go"
	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

const callOption = 65400 // EDNS0 option that carries the number of the call

var ca = vt.NewCA()
var serverCert = ca.Issue("dns.test", "127.0.0.1", "localhost")

func clientTLS() *tls.Config { return &tls.Config{RootCAs: ca.Pool(), ServerName: "dns.test"} }

// call is one Resolve of a client.
type call struct {
	n        int
	q        *dns.Msg // as it was handed in
	wire     int      // queries the server saw for it
	honest   int      // correct replies sent for it
	disturb  bool     // something was done that may fail it
	a        *dns.Msg
	err      error
	returned bool
	start    time.Time
	took     time.Duration
	after    string // the query after the call
}

// world is the server side of one case and the log of what it sent.
type world struct {
	r       *vt.R
	kind    string
	label   string
	rnd     *rand.Rand
	hostile bool
	mu      sync.Mutex
	calls   []*call
	sent    map[string]string // token -> canonical message
	tokens  int
	conns   []*srvConn
	open    int
	virtual bool
	timeout time.Duration
	udpSize uint16
	plan    func(c *call) string // overrides the random plan
	dialErr func() error
	stall   bool // handshakes and queries get no reaction
	frozen  bool // nothing is read from new connections
	small   bool // no large answers
	newQ    func(wireQuery)
	odohCfg http.HandlerFunc
	odohKey *odoh.ObliviousDoHKeyPair
	target  string // path of the ODoH target
	cl      rdns.Resolver
	streams int64 // DoQ stream limit of the server
}

type wireQuery struct {
	id  uint16
	raw int
}

// srvConn is one connection as the server sees it.
type srvConn struct {
	w       *world
	send    func([]byte) error
	close   func()
	brk     func(error)
	out     map[uint16]int // queries not answered yet
	closed  bool
	freeze  func(bool)
	silent  bool // the network path of this connection is dead
	lastUse time.Time
}

func newWorld(r *vt.R, kind, label string, rnd *rand.Rand) *world {
	return &world{r: r, kind: kind, label: label, rnd: rnd, sent: map[string]string{}, timeout: 500 * time.Millisecond}
}

func (w *world) intn(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rnd.Intn(n)
}

// newCall makes query number n.
func (w *world) newCall() *call {
	w.mu.Lock()
	defer w.mu.Unlock()
	n := len(w.calls)
	rnd := w.rnd
	q := new(dns.Msg)
	name := fmt.Sprintf("u%d.%s.Example.", n, vt.Label(rnd, 1+rnd.Intn(8)))
	shared := rnd.Intn(2) == 0
	if shared {
		name = vt.Pick(rnd, "shared.example.", "Shared.Example.", "a.test.", "x\\.y.test.", ".")
	}
	q.SetQuestion(name, vt.Pick(rnd, dns.TypeTXT, dns.TypeA, dns.TypeHTTPS, dns.TypeANY, 65280))
	q.Id = uint16(rnd.Intn(4)) // callers' IDs collide on purpose
	if rnd.Intn(8) == 0 {
		q.Question[0].Qclass = dns.ClassCHAOS
	}
	q.RecursionDesired = rnd.Intn(4) != 0
	q.CheckingDisabled = rnd.Intn(4) == 0
	q.AuthenticatedData = rnd.Intn(4) == 0
	if rnd.Intn(10) == 0 {
		q.Opcode = dns.OpcodeNotify
	}
	if shared || rnd.Intn(2) == 0 {
		q.SetEdns0(uint16(vt.Pick(rnd, 512, 1232, 4096, 65535)), rnd.Intn(2) == 0)
		o := q.IsEdns0()
		o.Option = append(o.Option, &dns.EDNS0_LOCAL{Code: callOption, Data: []byte(strconv.Itoa(n))})
		if rnd.Intn(3) == 0 {
			o.Option = append(o.Option, &dns.EDNS0_PADDING{Padding: make([]byte, rnd.Intn(200))})
		}
		if rnd.Intn(3) == 0 {
			o.Option = append(o.Option, &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, Family: 1, SourceNetmask: 24, Address: net.IP{192, 0, 2, 0}})
		}
		if rnd.Intn(3) == 0 {
			o.Option = append(o.Option, &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: "0102030405060708"})
		}
		if rnd.Intn(6) == 0 {
			o.Option = append(o.Option, &dns.EDNS0_TCP_KEEPALIVE{Code: dns.EDNS0TCPKEEPALIVE})
		}
		if rnd.Intn(6) == 0 {
			o.Option = append(o.Option, &dns.EDNS0_NSID{Code: dns.EDNS0NSID})
		}
	}
	c := &call{n: n, q: q}
	w.calls = append(w.calls, c)
	return c
}

// callOf finds the call a wire query belongs to.
func (w *world) callOf(q *dns.Msg) *call {
	n := -1
	if o := q.IsEdns0(); o != nil {
		for _, e := range o.Option {
			if l, ok := e.(*dns.EDNS0_LOCAL); ok && l.Code == callOption {
				n, _ = strconv.Atoi(string(l.Data))
			}
		}
	}
	if n < 0 && len(q.Question) > 0 && strings.HasPrefix(q.Question[0].Name, "u") {
		s, _, _ := strings.Cut(q.Question[0].Name[1:], ".")
		if v, err := strconv.Atoi(s); err == nil {
			n = v
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if n < 0 || n >= len(w.calls) {
		return nil
	}
	return w.calls[n]
}

// essence of a query: everything an upstream client has no business changing.
func essence(q *dns.Msg, skipSize, skipKeepalive bool) string {
	c := q.Copy()
	c.Id = 0
	if o := c.IsEdns0(); o != nil {
		var opts []dns.EDNS0
		for _, e := range o.Option {
			if e.Option() == dns.EDNS0PADDING || (skipKeepalive && e.Option() == dns.EDNS0TCPKEEPALIVE) {
				continue
			}
			opts = append(opts, e)
		}
		o.Option = opts
		if skipSize {
			o.SetUDPSize(0)
		}
	}
	return vt.Canon(c)
}

// onQuery is called for every query that reaches the server.
func (w *world) onQuery(sc *srvConn, raw []byte) {
	q := new(dns.Msg)
	if err := q.Unpack(raw); err != nil {
		w.r.Violation("bad-wire-query", fmt.Sprintf("%s: the upstream got %d bytes that do not parse: %v (%x)", w.kind, len(raw), err, raw), w.label)
		return
	}
	c := w.callOf(q)
	if c == nil {
		w.r.Violation("unknown-wire-query", fmt.Sprintf("%s: the upstream got a query nobody made: %s", w.kind, vt.Canon(q)), w.label)
		return
	}
	w.r.Observe("wire queries "+w.kind, 1)
	if w.udpSize == 0 {
		if e, g := essence(c.q, false, w.kind == "doq"), essence(q, false, w.kind == "doq"); e != g {
			w.r.Violation("query-altered", fmt.Sprintf("%s: asked %s, the upstream got %s", w.kind, e, g), w.label)
		}
	} else {
		o := q.IsEdns0()
		if o == nil || o.UDPSize() != w.udpSize {
			w.r.Violation("udp-size", fmt.Sprintf("%s: configured EDNS0 size %d, the upstream got %s", w.kind, w.udpSize, vt.Canon(q)), w.label)
		} else {
			bare := q.Copy()
			if c.q.IsEdns0() == nil && !o.Do() && len(o.Option) == 0 {
				bare.Extra = bare.Extra[:len(bare.Extra)-1]
			}
			if e, g := essence(c.q, true, false), essence(bare, true, false); e != g {
				w.r.Violation("query-altered", fmt.Sprintf("%s: asked %s, the upstream got %s", w.kind, e, g), w.label)
			}
		}
	}
	w.mu.Lock()
	c.wire++
	sc.lastUse = time.Now()
	if w.pipelined() {
		if m, ok := sc.out[q.Id]; ok && !w.calls[m].returned {
			w.mu.Unlock()
			w.r.Violation("id-in-use", fmt.Sprintf("%s: queries %d and %d are in flight on one connection with the same ID %d", w.kind, m, c.n, q.Id), w.label)
			return
		}
		sc.out[q.Id] = c.n
	}
	w.mu.Unlock()
	if w.newQ != nil {
		w.newQ(wireQuery{q.Id, c.n})
	}
	w.mu.Lock()
	silent := sc.silent || w.stall
	if w.frozen && sc.freeze != nil {
		sc.freeze(true)
		silent = true
	}
	w.mu.Unlock()
	if silent {
		w.mu.Lock()
		c.disturb = true
		w.mu.Unlock()
		return
	}
	w.act(sc, c, q)
}

func (w *world) pipelined() bool {
	return w.kind == "udp" || w.kind == "tcp" || w.kind == "dot" || w.kind == "dtls"
}

// reply builds a unique answer to q for call c.
func (w *world) reply(c *call, q *dns.Msg) *dns.Msg {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.tokens++
	tok := fmt.Sprintf("%d:%d", c.n, w.tokens)
	a := new(dns.Msg)
	a.SetReply(q)
	a.Opcode = q.Opcode
	name := q.Question[0].Name
	a.Answer = append(a.Answer, vt.RR("%s %d IN TXT \"%s\"", name, w.rnd.Intn(4000), tok))
	for i := w.rnd.Intn(4); i > 0; i-- {
		a.Answer = append(a.Answer, vt.RR("%s %d IN A 10.0.%d.%d", name, w.rnd.Intn(4000), w.tokens%256, i))
	}
	switch w.rnd.Intn(6) {
	case 0:
		a.Rcode = dns.RcodeNameError
		a.Ns = append(a.Ns, vt.RR("example. 60 IN SOA ns. h. %d 1 1 1 60", w.tokens))
	case 1:
		a.Rcode = dns.RcodeServerFailure
	case 2:
		a.Truncated = true
	case 3:
		a.AuthenticatedData = true
		a.RecursionAvailable = true
	}
	if q.IsEdns0() != nil && w.rnd.Intn(2) == 0 {
		a.SetEdns0(1232, false)
	}
	if w.rnd.Intn(3) == 0 {
		a.Question[0].Name = vt.MixCase(w.rnd, strings.ToLower(name))
	}
	if !w.small && w.rnd.Intn(12) == 0 {
		// as large as the transport takes
		most := 60000
		switch w.kind {
		case "udp":
			most = 512
			if o := q.IsEdns0(); o != nil {
				most = max(512, min(4096, int(o.UDPSize())))
			}
		case "dtls":
			most = 3500
		}
		if w.rnd.Intn(2) == 0 {
			most = min(most, 600+w.rnd.Intn(8000))
		}
		for n := a.Len(); ; {
			rr := vt.RR("%s %d IN TXT \"%s\" \"%d\"", name, w.rnd.Intn(4000), strings.Repeat("x", w.rnd.Intn(200)), len(a.Answer))
			if n += dns.Len(rr); n > most {
				break
			}
			a.Answer = append(a.Answer, rr)
		}
		if len(a.Answer) > 5 {
			w.r.Observe("large answers "+w.kind, 1)
		}
	}
	a.Compress = w.rnd.Intn(2) == 0
	w.sent[tok] = vt.Canon(a)
	return a
}

func tokenOf(a *dns.Msg) string {
	for _, rr := range a.Answer {
		if t, ok := rr.(*dns.TXT); ok && len(t.Txt) == 1 {
			return t.Txt[0]
		}
	}
	return ""
}

// act answers, or mistreats, a query.
func (w *world) act(sc *srvConn, c *call, q *dns.Msg) {
	plan := ""
	if w.plan != nil {
		plan = w.plan(c)
	}
	if plan == "" {
		opts := []string{"honest", "honest", "honest", "dup", "unsolicited"}
		if w.hostile {
			opts = append(opts, "none", "late", "wrong-name", "wrong-type", "wrong-class", "no-question", "garbage", "short", "other-id", "swap", "close", "partial", "late")
		}
		if !w.pipelined() {
			opts = []string{"honest", "honest", "honest"}
			if w.hostile {
				opts = append(opts, "none", "late", "wrong-name", "wrong-type", "wrong-class", "no-question", "garbage", "short", "wrong-id", "close")
			}
		}
		plan = opts[w.intn(len(opts))]
	}
	w.r.State("server behaviour", w.kind+" "+plan)
	delay := time.Duration(2*w.intn(100)+1) * time.Millisecond
	if !w.virtual {
		delay = time.Duration(w.intn(8)) * time.Millisecond
	}
	a := w.reply(c, q)
	good, err := a.Pack()
	if err != nil {
		panic(err)
	}
	send := func(d time.Duration, id uint16, b []byte, honest bool) {
		go func() {
			time.Sleep(d)
			w.mu.Lock()
			dead := sc.silent
			if !dead && honest {
				c.honest++
			}
			if m, ok := sc.out[id]; ok && m == c.n && honest {
				delete(sc.out, id)
			}
			w.mu.Unlock()
			if !dead {
				sc.send(b)
			}
		}()
	}
	disturb := func() { w.mu.Lock(); c.disturb = true; w.mu.Unlock() }
	edit := func(f func(m *dns.Msg)) []byte {
		m := new(dns.Msg)
		if err := m.Unpack(good); err != nil {
			panic(err)
		}
		f(m)
		b, err := m.Pack()
		if err != nil {
			panic(err)
		}
		return b
	}
	w.r.Observe("server: "+plan, 1)
	switch plan {
	case "honest":
		send(delay, q.Id, good, true)
	case "dup":
		send(delay, q.Id, good, true)
		w.extra(sc, delay+time.Duration(2*w.intn(100)+2)*time.Millisecond, func(free func(uint16) bool) []byte {
			if !free(q.Id) {
				return nil
			}
			return good
		})
	case "unsolicited":
		send(delay, q.Id, good, true)
		b := edit(func(m *dns.Msg) { m.Answer[0].(*dns.TXT).Txt[0] = "unsolicited" })
		w.extra(sc, time.Duration(2*w.intn(100)+1)*time.Millisecond, func(free func(uint16) bool) []byte {
			id := uint16(w.intn(65536))
			if !free(id) {
				return nil
			}
			binary.BigEndian.PutUint16(b, id)
			return b
		})
	case "none":
		disturb()
	case "late":
		disturb()
		send(w.timeout+delay, q.Id, good, true)
	case "wrong-name":
		disturb()
		send(delay, q.Id, edit(func(m *dns.Msg) {
			m.Question[0].Name = "other.example."
			m.Answer[0].(*dns.TXT).Txt[0] = "forged"
		}), false)
	case "wrong-type":
		disturb()
		send(delay, q.Id, edit(func(m *dns.Msg) { m.Question[0].Qtype++; m.Answer[0].(*dns.TXT).Txt[0] = "forged" }), false)
	case "wrong-class":
		disturb()
		send(delay, q.Id, edit(func(m *dns.Msg) { m.Question[0].Qclass ^= 2; m.Answer[0].(*dns.TXT).Txt[0] = "forged" }), false)
	case "no-question":
		disturb()
		send(delay, q.Id, edit(func(m *dns.Msg) { m.Question = nil; m.Answer[0].(*dns.TXT).Txt[0] = "forged" }), false)
	case "garbage":
		disturb()
		b := make([]byte, w.intn(100))
		for i := range b {
			b[i] = byte(w.intn(256))
		}
		if len(b) > 2 && w.intn(2) == 0 {
			binary.BigEndian.PutUint16(b, q.Id)
		}
		send(delay, q.Id, b, false)
	case "short":
		disturb()
		send(delay, q.Id, good[:w.intn(12)], false)
	case "partial":
		disturb()
		send(delay, q.Id, good[:12+w.intn(len(good)-12)], false)
	case "other-id", "swap":
		// the right message under the ID of somebody else's query
		disturb()
		go func() {
			time.Sleep(delay)
			w.mu.Lock()
			id, victim := q.Id, -1
			for i, m := range sc.out {
				if m != c.n && (victim < 0 || m < victim) {
					id, victim = i, m
				}
			}
			if victim >= 0 {
				w.calls[victim].disturb = true
			}
			dead := sc.silent
			w.mu.Unlock()
			b := append([]byte(nil), good...)
			binary.BigEndian.PutUint16(b, id)
			if !dead {
				sc.send(b)
			}
		}()
	case "close":
		disturb()
		go func() {
			time.Sleep(delay)
			w.mu.Lock()
			for _, m := range sc.out {
				w.calls[m].disturb = true
			}
			w.mu.Unlock()
			w.shut(sc)
		}()
	case "wrong-id":
		b := append([]byte(nil), good...)
		binary.BigEndian.PutUint16(b, q.Id+uint16(1+w.intn(65000)))
		send(delay, q.Id, b, true)
	default:
		panic("unknown plan " + plan)
	}
}

// extra sends a message nobody waits for.
func (w *world) extra(sc *srvConn, d time.Duration, f func(free func(uint16) bool) []byte) {
	go func() {
		time.Sleep(d)
		b := f(func(id uint16) bool {
			w.mu.Lock()
			defer w.mu.Unlock()
			_, used := sc.out[id]
			return !used && !sc.silent
		})
		if b != nil {
			sc.send(b)
		}
	}()
}

func (w *world) shut(sc *srvConn) {
	w.mu.Lock()
	done := sc.closed
	sc.closed = true
	w.mu.Unlock()
	if !done {
		sc.close()
	}
}

// run makes one call and keeps what came back.
func (w *world) run(cl rdns.Resolver, c *call) {
	q := c.q.Copy()
	before := vt.CanonID(q)
	start := time.Now()
	w.mu.Lock()
	c.start = start
	w.mu.Unlock()
	a, err := cl.Resolve(q, rdns.ClientInfo{Listener: "l"})
	w.mu.Lock()
	c.a, c.err, c.took, c.returned = a, err, time.Since(start), true
	w.mu.Unlock()
	if after := vt.CanonID(q); after != before {
		w.r.Violation("query-changed", fmt.Sprintf("%s: the caller's query was changed from %s to %s", w.kind, before, after), w.label)
	}
}

// judge decides what one finished call got.
func (w *world) judge(c *call) {
	w.mu.Lock()
	defer w.mu.Unlock()
	r := w.r
	if !c.returned {
		return
	}
	what := fmt.Sprintf("%s call %d %s", w.kind, c.n, c.q.Question[0].String())
	if c.err == nil && c.a == nil {
		r.Violation("nothing", what+": neither an answer nor an error", w.label)
		return
	}
	if c.err != nil {
		r.Eval("")
		r.Observe("errors "+w.kind, 1)
		if !c.disturb && !w.hostile {
			r.Violation("not-delivered", fmt.Sprintf("%s: the upstream answered correctly (%d times) but the caller got %v after %v", what, c.honest, c.err, c.took), w.label)
		}
		return
	}
	a, q := c.a, c.q
	r.Observe("answers "+w.kind, 1)
	if a.Id != q.Id {
		r.Violation("wrong-id", fmt.Sprintf("%s: query ID %d, answer ID %d", what, q.Id, a.Id), w.label)
	}
	if len(a.Question) == 0 || !strings.EqualFold(a.Question[0].Name, q.Question[0].Name) || a.Question[0].Qtype != q.Question[0].Qtype || a.Question[0].Qclass != q.Question[0].Qclass {
		r.Violation("wrong-question", fmt.Sprintf("%s: got %s", what, vt.Canon(a)), w.label)
	}
	tok := tokenOf(a)
	if tok == "" {
		// only a cut message has no token
		if !c.disturb {
			r.Violation("altered", fmt.Sprintf("%s: got %s", what, vt.Canon(a)), w.label)
		}
		r.Eval("")
		return
	}
	own, _, _ := strings.Cut(tok, ":")
	if own != strconv.Itoa(c.n) {
		// A server that answers one of two identical questions under the ID of
		// the other cannot be told from an honest one.
		if i, err := strconv.Atoi(own); err == nil && c.disturb && w.hostile && i < len(w.calls) {
			o := w.calls[i].q.Question[0]
			if strings.EqualFold(o.Name, q.Question[0].Name) && o.Qtype == q.Question[0].Qtype && o.Qclass == q.Question[0].Qclass {
				return
			}
		}
		r.Violation("wrong-answer", fmt.Sprintf("%s: got the answer %q that was sent for another query", what, tok), w.label)
		return
	}
	if got := vt.Canon(a); got != w.sent[tok] && !c.disturb {
		r.Violation("altered", fmt.Sprintf("%s: sent %s, got %s", what, w.sent[tok], got), w.label)
	}
	r.Eval(fmt.Sprintf("%s rc%d rrs%d edns%v case%v", w.kind, a.Rcode, len(a.Answer), q.IsEdns0() != nil, a.Question[0].Name == q.Question[0].Name))
}

// Dial serves the in-memory connections of the virtual kinds.
func (w *world) Dial(network, address string) (net.Conn, error) {
	w.mu.Lock()
	dialErr, stall, frozen := w.dialErr, w.stall, w.frozen
	w.mu.Unlock()
	if dialErr != nil {
		if err := dialErr(); err != nil {
			return nil, err
		}
	}
	pkt := w.kind == "udp"
	cc, s := vt.MemPipe(pkt)
	w.mu.Lock()
	w.open++
	if w.pipelined() && w.open > 1 {
		w.mu.Unlock()
		w.r.Violation("connection-leak", fmt.Sprintf("%s: %d connections are open after a reconnect", w.kind, w.open), w.label)
		w.mu.Lock()
	}
	w.mu.Unlock()
	cc.OnClose = func() { w.mu.Lock(); w.open--; w.mu.Unlock() }
	sc := &srvConn{w: w, out: map[uint16]int{}, freeze: s.Freeze}
	if frozen && w.kind != "dot" { // a stalled handshake holds locks, which stops virtual time
		s.Freeze(true)
	}
	defer func() {
		w.mu.Lock()
		w.conns = append(w.conns, sc)
		w.mu.Unlock()
	}()
	w.r.Observe("connections "+w.kind, 1)
	switch w.kind {
	case "udp":
		sc.send = func(b []byte) error { _, err := s.Write(b); return err }
		sc.close = func() { s.Break(&net.OpError{Op: "read", Net: "udp", Err: errors.New("connection refused")}) }
		go func() {
			buf := make([]byte, 65536)
			for {
				n, err := s.Read(buf)
				if err != nil {
					return
				}
				w.onQuery(sc, append([]byte(nil), buf[:n]...))
			}
		}()
	case "tcp", "dot":
		var conn net.Conn = s
		if w.kind == "dot" {
			conn = tls.Server(s, &tls.Config{Certificates: []tls.Certificate{serverCert}})
		}
		sem := make(chan struct{}, 1)
		sc.send = func(b []byte) error {
			sem <- struct{}{}
			defer func() { <-sem }()
			m := make([]byte, 2+len(b))
			binary.BigEndian.PutUint16(m, uint16(len(b)))
			copy(m[2:], b)
			_, err := conn.Write(m)
			return err
		}
		sc.close = func() { conn.Close() }
		go func() {
			for {
				var l uint16
				if err := binary.Read(conn, binary.BigEndian, &l); err != nil {
					return
				}
				b := make([]byte, l)
				if _, err := io.ReadFull(conn, b); err != nil {
					return
				}
				w.onQuery(sc, b)
			}
		}()
	case "doh1", "doh2", "odoh":
		ln := vt.NewMemListener()
		srv := &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) { w.serveHTTP(sc, rw, req) }),
			TLSConfig: &tls.Config{Certificates: []tls.Certificate{serverCert}}, ErrorLog: log.New(io.Discard, "", 0)}
		if w.kind == "doh1" {
			srv.TLSNextProto = map[string]func(*http.Server, *tls.Conn, http.Handler){}
			srv.TLSConfig.NextProtos = []string{"http/1.1"}
		}
		sc.close = func() { s.Close() }
		ln.Connect(s)
		if stall {
			break
		}
		go srv.ServeTLS(ln, "", "")
	}
	return cc, nil
}

// serveHTTP is the DoH server.
func (w *world) serveHTTP(sc *srvConn, rw http.ResponseWriter, req *http.Request) {
	var raw []byte
	if w.kind == "odoh" {
		w.serveODoH(sc, rw, req)
		return
	}
	switch req.Method {
	case http.MethodGet:
		b, err := base64.RawURLEncoding.DecodeString(req.URL.Query().Get("dns"))
		if err != nil {
			w.r.Violation("bad-wire-query", "doh: the dns parameter is not base64url", w.label)
			return
		}
		raw = b
	case http.MethodPost:
		b, err := io.ReadAll(req.Body)
		if err != nil {
			return
		}
		raw = b
		if ct := req.Header.Get("content-type"); ct != "application/dns-message" {
			w.r.Violation("bad-wire-query", "doh: content type "+ct, w.label)
		}
	default:
		w.r.Violation("bad-wire-query", "doh: method "+req.Method, w.label)
		return
	}
	w.serveQuery(sc, rw, req, raw, nil)
}

// serveQuery answers one query over HTTP; seal wraps a reply for ODoH.
func (w *world) serveQuery(sc *srvConn, rw http.ResponseWriter, req *http.Request, raw []byte, seal func([]byte) []byte) {
	ctype := "application/dns-message"
	if seal != nil {
		ctype = "application/oblivious-dns-message"
	} else {
		seal = func(b []byte) []byte { return b }
	}
	done := make(chan struct{})
	one := &srvConn{w: w, out: map[uint16]int{}}
	q := new(dns.Msg)
	plan := ""
	if err := q.Unpack(raw); err == nil && w.callOf(q) != nil {
		c := w.callOf(q)
		if w.plan != nil {
			plan = w.plan(c)
		} else if w.hostile {
			plan = vt.Pick(w.rndLocked(), "", "", "", "status", "big", "truncated-body", "stall-body")
		}
		switch plan {
		case "status", "big", "truncated-body", "stall-body":
			w.mu.Lock()
			c.wire++
			c.disturb = true
			w.mu.Unlock()
			w.r.Observe("server: "+plan, 1)
			w.r.State("server behaviour", w.kind+" "+plan)
			a := w.reply(c, q)
			b, _ := a.Pack()
			b = seal(b)
			rw.Header().Set("content-type", ctype)
			switch plan {
			case "status":
				// a body that would be a fine answer
				w.mu.Lock()
				w.sent[tokenOf(a)] = "an answer with an error status"
				w.mu.Unlock()
				a.Answer[0].(*dns.TXT).Txt[0] = "error-status"
				b, _ = a.Pack()
				b = seal(b)
				rw.WriteHeader([]int{400, 404, 415, 500, 502, 503, 304}[w.intn(7)])
				rw.Write(b)
			case "big":
				rw.Write(b)
				rw.Write(make([]byte, 70000))
			case "truncated-body":
				rw.Header().Set("content-length", strconv.Itoa(len(b)+10))
				rw.Write(b[:len(b)-1])
			case "stall-body":
				rw.Write(b[:len(b)/2])
				if f, ok := rw.(http.Flusher); ok {
					f.Flush()
				}
				select {
				case <-req.Context().Done():
				case <-time.After(30 * time.Second):
				}
			}
			return
		}
	}
	var wmu sync.Mutex
	over := false
	once := func(f func()) {
		wmu.Lock()
		defer wmu.Unlock()
		if !over {
			over = true
			f()
		}
	}
	defer once(func() {})
	one.send = func(b []byte) error {
		once(func() {
			rw.Header().Set("content-type", ctype)
			rw.Write(seal(b))
			close(done)
		})
		return nil
	}
	one.close = func() {
		once(func() {
			defer close(done)
			if sc != nil && sc.close != nil {
				sc.close()
			}
		})
	}
	w.onQuery(one, raw)
	select {
	case <-done:
	case <-req.Context().Done():
	}
}

func (w *world) rndLocked() *rand.Rand {
	w.mu.Lock()
	defer w.mu.Unlock()
	return rand.New(rand.NewSource(w.rnd.Int63()))
}

// client builds the client of a virtual kind.
func (w *world) client(id string, rnd *rand.Rand) rdns.Resolver {
	var (
		cl  rdns.Resolver
		err error
	)
	switch w.kind {
	case "udp", "tcp":
		cl, err = rdns.NewDNSClient(id, "192.0.2.1:53", w.kind, rdns.DNSClientOptions{Dialer: w, QueryTimeout: w.timeout, UDPSize: w.udpSize})
	case "dot":
		cl, err = rdns.NewDoTClient(id, "192.0.2.1:853", rdns.DoTClientOptions{Dialer: w, QueryTimeout: w.timeout, TLSConfig: clientTLS()})
	case "odoh":
		w.target = vt.Pick(rnd, "/dns-query", "/dns-query", "/x/y", "/")
		cl, err = rdns.NewODoHClient(id, "https://dns.test/proxy", "https://target.test:443"+w.target, vt.Pick(rnd, "", odohConfigHex()), rdns.DoHClientOptions{Dialer: w, QueryTimeout: w.timeout, TLSConfig: clientTLS()})
	case "doh1", "doh2":
		cl, err = rdns.NewDoHClient(id, "https://dns.test/dns-query{?dns}", rdns.DoHClientOptions{Dialer: w, QueryTimeout: w.timeout, TLSConfig: clientTLS(), Method: vt.Pick(rnd, "GET", "POST")})
	}
	if err != nil {
		panic(err)
	}
	return cl
}

var odohKey = func() odoh.ObliviousDoHKeyPair {
	k, err := odoh.CreateDefaultKeyPair()
	if err != nil {
		panic(err)
	}
	return k
}()

func odohConfigs() []byte {
	return odoh.CreateObliviousDoHConfigs([]odoh.ObliviousDoHConfig{odohKey.Config}).Marshal()
}

func (w *world) odohConfigs() []byte {
	if w.odohKey != nil {
		return odoh.CreateObliviousDoHConfigs([]odoh.ObliviousDoHConfig{w.odohKey.Config}).Marshal()
	}
	return odohConfigs()
}

func odohConfigHex() string { return hex.EncodeToString(odohConfigs()) }

// serveODoH is proxy and target in one.
func (w *world) serveODoH(sc *srvConn, rw http.ResponseWriter, req *http.Request) {
	if strings.HasPrefix(req.URL.Path, "/.well-known/") {
		if w.odohCfg != nil {
			w.odohCfg(rw, req)
			return
		}
		rw.Write(w.odohConfigs())
		return
	}
	if req.URL.Query().Get("targethost") != "target.test" || req.URL.Query().Get("targetpath") != w.target {
		w.r.Violation("bad-wire-query", "odoh: proxy asked for target "+req.URL.RawQuery, w.label)
	}
	b, err := io.ReadAll(req.Body)
	if err != nil {
		return
	}
	msg, err := odoh.UnmarshalDNSMessage(b)
	if err != nil {
		w.r.Violation("bad-wire-query", fmt.Sprintf("odoh: %v", err), w.label)
		return
	}
	key := &odohKey
	if w.odohKey != nil {
		key = w.odohKey
	}
	q, rctx, err := key.DecryptQuery(msg)
	if err != nil {
		w.r.Violation("bad-wire-query", fmt.Sprintf("odoh: %v", err), w.label)
		return
	}
	w.serveQuery(sc, rw, req, q.Message(), func(m []byte) []byte {
		resp, err := rctx.EncryptResponse(odoh.CreateObliviousDNSResponse(m, 0))
		if err != nil {
			panic(err)
		}
		out := resp.Marshal()
		if w.hostile {
			switch w.intn(10) {
			case 0:
				out[len(out)-1] ^= 1 // not authentic
			case 1:
				out = out[:w.intn(len(out))]
			}
		}
		return out
	})
}
