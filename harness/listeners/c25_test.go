package listeners

import (
	"context"
	"crypto/tls"
	"encoding/base64"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"

	"verif/harness/vt"
)

// TestC25: early data can be replayed, so it only carries what may be repeated.
func TestC25(t *testing.T) {
	r := vt.Start(t, "C25", "one message sent as early data per evaluation; non-trivial when the handshake cannot complete, distinct by (listener, opcode, handshake completes or not, order)")
	for _, k := range []string{"doq", "doh3"} {
		r.Need("unsafe early messages held back "+k, 20)
		r.Need("safe early messages served "+k, 20)
		r.Need("unsafe messages after the handshake "+k, 5)
		r.Need("early queries of the client "+k, 5)
		r.Need("unsafe messages held back by the client "+k, 5)
	}
	for c := 0; c < r.N(10, 200); c++ {
		for _, k := range []string{"doq", "doh3"} {
			earlyCase(r, k, c, true)
			earlyCase(r, k, c, false)
			clientEarly(r, k, c)
		}
	}
	r.Exit()
}

// relay passes datagrams on and can silence the server, so that a client never
// gets to complete its handshake: the position of someone replaying packets.
type relay struct {
	conn, up *net.UDPConn
	client   atomic.Pointer[net.UDPAddr]
	silent   atomic.Bool
}

func newRelay(port int) (*relay, error) {
	up, err := net.DialUDP("udp", nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
	if err != nil {
		return nil, err
	}
	conn, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		return nil, err
	}
	y := &relay{conn: conn, up: up}
	go func() {
		buf := make([]byte, 4096)
		for {
			n, a, err := conn.ReadFromUDP(buf)
			if err != nil {
				return
			}
			y.client.Store(a)
			up.Write(buf[:n])
		}
	}()
	go func() {
		buf := make([]byte, 4096)
		for {
			n, err := up.Read(buf)
			if err != nil {
				return
			}
			if a := y.client.Load(); a != nil && !y.silent.Load() {
				conn.WriteToUDP(buf[:n], a)
			}
		}
	}()
	return y, nil
}

func (y *relay) close() { y.conn.Close(); y.up.Close() }

type countingCache struct {
	tls.ClientSessionCache
	n atomic.Int64
}

func (c *countingCache) Put(k string, s *tls.ClientSessionState) {
	c.ClientSessionCache.Put(k, s)
	c.n.Add(1)
}

func earlyCase(r *vt.R, kind string, c int, silent bool) {
	rnd := r.Rand("early", kind, c, silent)
	label := fmt.Sprintf("early %s %d silent %v", kind, c, silent)
	r.Case("%s", label)
	b := newBackend()
	s := start(r, kind, "early-"+kind, config{}, b)
	if s == nil {
		return
	}
	defer s.stop()
	y, err := newRelay(s.port)
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	defer y.close()
	cache := &countingCache{ClientSessionCache: tls.NewLRUClientSessionCache(4)}
	tc := clientTLS("a.test")
	tc.ClientSessionCache = cache
	tc.NextProtos = []string{"doq"}
	if kind == "doh3" {
		tc.NextProtos = []string{"h3"}
	}
	ctx, cancel := context.WithTimeout(context.Background(), vt.HangLimit)
	defer cancel()
	connect := func() (*quic.Conn, func(raw []byte) outcome, func(), error) {
		pc, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		if err != nil {
			return nil, nil, nil, err
		}
		tr := &quic.Transport{Conn: pc}
		conn, err := tr.DialEarly(ctx, y.conn.LocalAddr(), tc, &quic.Config{HandshakeIdleTimeout: vt.HangLimit})
		if err != nil {
			pc.Close()
			return nil, nil, nil, err
		}
		var ask func(raw []byte) outcome
		var h3 *http3.Transport
		if kind == "doq" {
			ask = func(raw []byte) outcome {
				st, err := conn.OpenStreamSync(ctx)
				if err != nil {
					return outcome{err: err.Error()}
				}
				stop := context.AfterFunc(ctx, func() { st.CancelRead(0) })
				defer stop()
				if _, err := st.Write(frame(raw)); err != nil {
					return outcome{err: err.Error()}
				}
				st.Close()
				o, _ := io.ReadAll(st)
				if len(o) < 2 {
					return outcome{closed: true}
				}
				return outcome{raw: o[2:]}
			}
		} else {
			h3 = &http3.Transport{}
			cc := h3.NewClientConn(conn)
			ask = func(raw []byte) outcome {
				req, _ := http.NewRequestWithContext(ctx, http3.MethodGet0RTT, "https://a.test/dns-query?dns="+base64.RawURLEncoding.EncodeToString(raw), nil)
				resp, err := cc.RoundTrip(req)
				if err != nil {
					return outcome{err: err.Error()}
				}
				defer resp.Body.Close()
				o, err := io.ReadAll(resp.Body)
				if err != nil {
					return outcome{err: err.Error()}
				}
				if resp.StatusCode != 200 {
					o = nil
				}
				return outcome{status: resp.StatusCode, raw: o}
			}
		}
		return conn, ask, func() {
			conn.CloseWithError(0, "")
			tr.Close()
			pc.Close()
		}, nil
	}
	msg := func(tok string, opcode int) []byte {
		q := vt.Query(tok+".early.test.", dns.TypeA)
		q.Id = 0
		q.Opcode = opcode
		raw, _ := q.Pack()
		b.set(tok, answerFor(tok))
		return raw
	}
	// the first connection only fetches a ticket
	conn, ask, done, err := connect()
	if err != nil {
		r.Violation("no-connection", err.Error(), label)
		return
	}
	if o := ask(msg("warm", dns.OpcodeQuery)); !hasAnswer(o.msg(), "warm") {
		r.Violation("not-served", "first query: "+o.String(), label)
		done()
		return
	}
	for cache.n.Load() == 0 && ctx.Err() == nil {
		time.Sleep(2 * time.Millisecond)
	}
	done()
	y.silent.Store(silent)
	conn, ask, done, err = connect()
	if err != nil {
		r.Violation("no-connection", err.Error(), label)
		return
	}
	defer done()
	type sent struct {
		tok    string
		opcode int
		o      outcome
		done   chan struct{}
	}
	var all []*sent
	var wg sync.WaitGroup
	send := func(opcode int) *sent {
		m := &sent{tok: fmt.Sprintf("m%d-%s", len(all), strings.ToLower(vt.Label(rnd, 6))), opcode: opcode, done: make(chan struct{})}
		raw := msg(m.tok, opcode)
		all = append(all, m)
		wg.Add(1)
		go func() {
			defer wg.Done()
			m.o = ask(raw)
			close(m.done)
		}()
		return m
	}
	for i := 0; i < 4; i++ {
		send(vt.Pick(rnd, dns.OpcodeUpdate, dns.OpcodeStatus, dns.OpcodeIQuery, 3, 6+rnd.Intn(10), dns.OpcodeUpdate))
		if rnd.Intn(2) == 0 {
			send(vt.Pick(rnd, dns.OpcodeQuery, dns.OpcodeNotify))
		}
		time.Sleep(time.Duration(rnd.Intn(3)) * time.Millisecond)
	}
	// those sent last are only served after all others have arrived or been lost
	send(dns.OpcodeNotify)
	send(dns.OpcodeQuery)
	safe := func(op int) bool { return op == dns.OpcodeQuery || op == dns.OpcodeNotify }
	if silent {
		deadline := time.Now().Add(vt.HangLimit / 2)
		for _, m := range all {
			for safe(m.opcode) && len(b.saw(m.tok)) == 0 && time.Now().Before(deadline) {
				time.Sleep(2 * time.Millisecond)
			}
		}
		// everything that was going to be processed early had its turn
		time.Sleep(60 * time.Millisecond)
		if c%5 == 0 {
			time.Sleep(2500 * time.Millisecond) // time makes no difference
		}
		for _, m := range all {
			n := len(b.saw(m.tok))
			r.Eval(fmt.Sprintf("%s %d silent %d", kind, m.opcode, len(all)))
			switch {
			case safe(m.opcode) && n > 0:
				r.Observe("safe early messages served "+kind, 1)
			case !safe(m.opcode) && n > 0:
				r.Violation("early-"+kind, fmt.Sprintf("%s: a message with opcode %d in early data reached the resolver although the handshake never completed", kind, m.opcode), label)
			case !safe(m.opcode):
				r.Observe("unsafe early messages held back "+kind, 1)
			}
		}
		cancel()
		done()
		wg.Wait()
		return
	}
	wg.Wait()
	if conn.ConnectionState().Used0RTT {
		r.Observe("resumed with early data", 1)
	}
	for _, m := range all {
		n := len(b.saw(m.tok))
		r.Eval(fmt.Sprintf("%s %d completed %d", kind, m.opcode, len(all)))
		ok := n == 1 && hasAnswer(m.o.msg(), m.tok)
		if !ok && !safe(m.opcode) && m.o.status == http.StatusTooEarly && n == 0 {
			r.Observe("asked to come back "+kind, 1)
			// and once the handshake is done it works
			tok := m.tok + "x"
			if o := ask(msg(tok, m.opcode)); !hasAnswer(o.msg(), tok) {
				r.Violation("not-served", fmt.Sprintf("%s: opcode %d after the handshake: %s", kind, m.opcode, o), label)
			}
			ok = true
		}
		if !ok {
			r.Violation("not-served", fmt.Sprintf("%s: opcode %d with a handshake that completes: reached the resolver %d times, %s", kind, m.opcode, n, m.o), label)
			continue
		}
		if !safe(m.opcode) {
			r.Observe("unsafe messages after the handshake "+kind, 1)
		}
	}
}

// earlyServer is an upstream that takes early data and notes when messages
// arrive.
type earlyServer struct {
	mu    sync.Mutex
	conns []*quic.Conn
	seen  []earlyMsg
	close func()
	port  int
}

type earlyMsg struct {
	name   string
	opcode int
	early  bool // before the handshake was complete
}

func (e *earlyServer) handle(raw []byte, early bool) []byte {
	q := new(dns.Msg)
	if q.Unpack(raw) != nil || len(q.Question) != 1 {
		return nil
	}
	e.mu.Lock()
	e.seen = append(e.seen, earlyMsg{q.Question[0].Name, q.Opcode, early})
	e.mu.Unlock()
	a := new(dns.Msg)
	a.SetReply(q)
	a.Opcode = q.Opcode
	a.Answer = []dns.RR{vt.RR("%s 60 IN A 192.0.2.1", q.Question[0].Name)}
	out, _ := a.Pack()
	return out
}

func newEarlyServer(kind string) (*earlyServer, error) {
	e := &earlyServer{}
	pc, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		return nil, err
	}
	e.port = pc.LocalAddr().(*net.UDPAddr).Port
	tc := serverTLS(config{})
	tc.NextProtos = []string{map[string]string{"doq": "doq", "doh3": "h3"}[kind]}
	tr := &quic.Transport{Conn: pc}
	ln, err := tr.ListenEarly(tc, &quic.Config{Allow0RTT: true})
	if err != nil {
		pc.Close()
		return nil, err
	}
	h3 := &http3.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		raw, err := base64.RawURLEncoding.DecodeString(q.URL.Query().Get("dns"))
		if q.Method == http.MethodPost {
			raw, err = io.ReadAll(q.Body)
		}
		out := []byte(nil)
		if err == nil {
			out = e.handle(raw, !q.TLS.HandshakeComplete)
		}
		w.Header().Set("content-type", "application/dns-message")
		w.Write(out)
	})}
	go func() {
		for {
			conn, err := ln.Accept(context.Background())
			if err != nil {
				return
			}
			e.mu.Lock()
			e.conns = append(e.conns, conn)
			e.mu.Unlock()
			if kind == "doh3" {
				go h3.ServeQUICConn(conn)
				continue
			}
			go func() {
				for {
					st, err := conn.AcceptStream(context.Background())
					if err != nil {
						return
					}
					go func() {
						b, _ := io.ReadAll(st)
						early := true
						select {
						case <-conn.HandshakeComplete():
							early = false
						default:
						}
						if len(b) > 2 {
							st.Write(frame(e.handle(b[2:], early)))
						}
						st.Close()
					}()
				}
			}()
		}
	}()
	e.close = func() { ln.Close(); tr.Close(); pc.Close() }
	return e, nil
}

// clientEarly: a resolver that uses early data only sends in it what may be
// repeated.
func clientEarly(r *vt.R, kind string, c int) {
	rnd := r.Rand("client", kind, c)
	label := fmt.Sprintf("client %s %d", kind, c)
	r.Case("%s", label)
	e, err := newEarlyServer(kind)
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	defer e.close()
	y, err := newRelay(e.port)
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	defer y.close()
	host := fmt.Sprintf("a.test:%d", y.conn.LocalAddr().(*net.UDPAddr).Port)
	var cl rdns.Resolver
	if kind == "doq" {
		cl, err = rdns.NewDoQClient("early", host, rdns.DoQClientOptions{BootstrapAddr: "127.0.0.1", QueryTimeout: vt.HangLimit, TLSConfig: clientTLS("a.test"), LocalAddr: net.IP{127, 0, 0, 1}, Use0RTT: true})
	} else {
		cl, err = rdns.NewDoHClient("early", "https://"+host+"/dns-query{?dns}", rdns.DoHClientOptions{BootstrapAddr: "127.0.0.1", QueryTimeout: vt.HangLimit, TLSConfig: clientTLS("a.test"), LocalAddr: net.IP{127, 0, 0, 1}, Transport: "quic", Method: "GET", Use0RTT: true})
	}
	if err != nil {
		r.Violation("rejected", err.Error(), label)
		return
	}
	n := 0
	ask := func(opcode int) (string, error) {
		n++
		q := vt.Query(fmt.Sprintf("c%d-%d.test.", n, opcode), dns.TypeA)
		q.Opcode = opcode
		a, err := cl.Resolve(q, rdns.ClientInfo{})
		if err == nil && (a == nil || len(a.Answer) != 1) {
			err = fmt.Errorf("got %v", a)
		}
		return q.Question[0].Name, err
	}
	for i := 0; i < 2; i++ {
		if _, err := ask(vt.Pick(rnd, dns.OpcodeQuery, dns.OpcodeUpdate)); err != nil {
			r.Violation("not-served", fmt.Sprintf("%s: the first query: %v", kind, err), label)
			return
		}
		time.Sleep(20 * time.Millisecond) // for the ticket
	}
	for round := 0; round < 2; round++ {
		e.mu.Lock()
		for _, conn := range e.conns {
			conn.CloseWithError(0, "")
		}
		e.conns = nil
		first := len(e.seen)
		e.mu.Unlock()
		time.Sleep(20 * time.Millisecond)
		y.silent.Store(true)
		var wg sync.WaitGroup
		ops := []int{dns.OpcodeQuery, vt.Pick(rnd, dns.OpcodeUpdate, dns.OpcodeStatus, 6+rnd.Intn(10)), vt.Pick(rnd, dns.OpcodeNotify, dns.OpcodeUpdate)}
		if round == 1 {
			ops[0], ops[1] = ops[1], ops[0]
		}
		for i, op := range ops {
			wg.Add(1)
			n++
			name := fmt.Sprintf("c%d-%d.test.", n, op)
			go func() {
				defer wg.Done()
				q := vt.Query(name, dns.TypeA)
				q.Opcode = op
				a, err := cl.Resolve(q, rdns.ClientInfo{})
				if err != nil || a == nil || len(a.Answer) != 1 {
					// the connection may have ended under it
					r.Observe("failed at the change of connections", 1)
				}
				_ = i
			}()
			time.Sleep(30 * time.Millisecond)
		}
		time.Sleep(100 * time.Millisecond)
		y.silent.Store(false)
		wg.Wait()
		e.mu.Lock()
		for _, m := range e.seen[first:] {
			safe := m.opcode == dns.OpcodeQuery || m.opcode == dns.OpcodeNotify
			r.Eval(fmt.Sprintf("client %s %d %v", kind, m.opcode, m.early))
			switch {
			case m.early && !safe:
				r.Violation("client-early-"+kind, fmt.Sprintf("%s: a resolver sent a message with opcode %d as early data", kind, m.opcode), label)
			case m.early:
				r.Observe("early queries of the client "+kind, 1)
			case !safe:
				r.Observe("unsafe messages held back by the client "+kind, 1)
			}
		}
		e.mu.Unlock()
	}
}
