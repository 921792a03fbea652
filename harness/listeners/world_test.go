package listeners

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	odoh "github.com/cloudflare/odoh-go"
	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"github.com/pion/dtls/v3"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"

	"verif/harness/vt"
)

var (
	ca         = vt.NewCA()
	serverCert = ca.Issue("a.test", "b.test", "127.0.0.1", "::1")
	kinds      = []string{"udp", "tcp", "dot", "dtls", "doh", "doh-plain", "doh3", "doq", "odoh"}
)

// seen is one query that reached the resolver behind a listener.
type seen struct {
	q  string
	ci rdns.ClientInfo
}

// backend is the resolver behind a listener. The first label of the name
// decides the answer.
type backend struct {
	mu   sync.Mutex
	plan map[string]func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error)
	got  map[string][]seen
	all  int
	bad  func(q *dns.Msg, ci rdns.ClientInfo)
}

func newBackend() *backend {
	return &backend{plan: map[string]func(*dns.Msg, rdns.ClientInfo) (*dns.Msg, error){}, got: map[string][]seen{}}
}

func tokenOf(name string) string {
	l := dns.SplitDomainName(name)
	if len(l) == 0 {
		return ""
	}
	return strings.ToLower(l[0])
}

func (b *backend) String() string { return "backend" }
func (b *backend) Resolve(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
	b.mu.Lock()
	b.all++
	bad := b.bad
	b.mu.Unlock()
	if len(q.Question) == 0 {
		if bad != nil {
			bad(q, ci)
		}
		return nil, errors.New("no question")
	}
	tok := tokenOf(q.Question[0].Name)
	b.mu.Lock()
	b.got[tok] = append(b.got[tok], seen{vt.CanonID(q), ci})
	f := b.plan[tok]
	b.mu.Unlock()
	if f == nil {
		a := new(dns.Msg)
		a.SetReply(q)
		return a, nil
	}
	return f(q, ci)
}

func (b *backend) set(tok string, f func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error)) {
	b.mu.Lock()
	b.plan[tok] = f
	b.mu.Unlock()
}

func (b *backend) saw(tok string) []seen {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]seen(nil), b.got[tok]...)
}

// server is a listener under test.
type server struct {
	kind, id, addr string
	host           string // to connect to
	port           int
	b              *backend
	ln             rdns.Listener
	stopped        chan error
}

type config struct {
	allowed  []*net.IPNet
	proxyNet *net.IPNet
	network  string // for udp and tcp
	any      bool   // listen on all addresses
	v6       bool   // listen on ::1
	odohMode string
	allowDoH bool
	certs    []tls.Certificate
}

func freePort() int {
	for i := 0; i < 100; i++ {
		t, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			continue
		}
		p := t.Addr().(*net.TCPAddr).Port
		u, err := net.ListenPacket("udp", fmt.Sprintf("127.0.0.1:%d", p))
		t.Close()
		if err == nil {
			u.Close()
			return p
		}
	}
	panic("no free port")
}

// bound tells from the kernel's tables if a port is in use, without touching it.
func bound(proto string, port int) bool {
	for _, f := range []string{proto, proto + "6"} {
		b, err := os.ReadFile("/proc/net/" + f)
		if err != nil {
			continue
		}
		sc := bufio.NewScanner(bytes.NewReader(b))
		for sc.Scan() {
			fs := strings.Fields(sc.Text())
			if len(fs) > 3 && strings.HasSuffix(fs[1], fmt.Sprintf(":%04X", port)) && (proto == "udp" || fs[3] == "0A") {
				return true
			}
		}
	}
	return false
}

func overUDP(kind string) bool {
	return kind == "udp" || kind == "dtls" || kind == "doh3" || kind == "doq"
}

func serverTLS(c config) *tls.Config {
	certs := c.certs
	if certs == nil {
		certs = []tls.Certificate{serverCert}
	}
	return &tls.Config{Certificates: certs, MinVersion: tls.VersionTLS12}
}

// start runs a listener, trying again on another port when one was taken.
func start(r *vt.R, kind, id string, c config, b *backend) *server {
	for try := 0; try < 20; try++ {
		s := &server{kind: kind, id: id, b: b, port: freePort(), host: "127.0.0.1", stopped: make(chan error, 1)}
		s.addr = fmt.Sprintf("127.0.0.1:%d", s.port)
		if c.v6 {
			s.host, s.addr = "::1", fmt.Sprintf("[::1]:%d", s.port)
		}
		if c.any {
			s.addr = fmt.Sprintf(":%d", s.port)
		}
		lo := rdns.ListenOptions{AllowedNet: c.allowed}
		network := c.network
		var err error
		switch kind {
		case "udp", "tcp":
			if network == "" {
				network = kind
			}
			s.ln = rdns.NewDNSListener(id, s.addr, network, lo, b)
		case "dot":
			s.ln = rdns.NewDoTListener(id, s.addr, "", rdns.DoTListenerOptions{ListenOptions: lo, TLSConfig: serverTLS(c)}, b)
		case "dtls":
			s.ln = rdns.NewDTLSListener(id, s.addr, rdns.DTLSListenerOptions{ListenOptions: lo, DTLSConfig: &dtls.Config{Certificates: []tls.Certificate{serverCert}}}, b)
		case "doh", "doh-plain", "doh3":
			o := rdns.DoHListenerOptions{ListenOptions: lo, TLSConfig: serverTLS(c), HTTPProxyNet: c.proxyNet, NoTLS: kind == "doh-plain"}
			if kind == "doh3" {
				o.Transport = "quic"
			}
			s.ln, err = rdns.NewDoHListener(id, s.addr, o, b)
		case "doq":
			s.ln = rdns.NewQUICListener(id, s.addr, rdns.DoQListenerOptions{ListenOptions: lo, TLSConfig: serverTLS(c)}, b)
		case "odoh":
			s.ln, err = rdns.NewODoHListener(id, s.addr, rdns.ODoHListenerOptions{ListenOptions: lo, TLSConfig: serverTLS(c), OdohMode: c.odohMode, AllowDoH: c.allowDoH}, b)
		}
		if err != nil {
			r.Violation("rejected", fmt.Sprintf("%s listener: %v", kind, err), nil)
			return nil
		}
		go func() { s.stopped <- s.ln.Start() }()
		proto := "tcp"
		if overUDP(kind) {
			proto = "udp"
		}
		deadline := time.Now().Add(vt.HangLimit)
		for time.Now().Before(deadline) {
			if bound(proto, s.port) {
				select {
				case <-s.stopped:
					goto next
				case <-time.After(5 * time.Millisecond):
				}
				return s
			}
			select {
			case <-s.stopped:
				goto next
			case <-time.After(2 * time.Millisecond):
			}
		}
		r.Violation("no-start", kind+" listener does not open its port", nil)
		return nil
	next:
	}
	r.Inconclusive("%s listener does not start", kind)
	return nil
}

func (s *server) stop() { s.ln.Stop() }

// outcome is what a client got for one message.
type outcome struct {
	raw    []byte
	status int    // HTTP status
	ctype  string // HTTP content type
	closed bool   // the connection or stream ended without an answer
	none   bool   // nothing came
	err    string // anything else
}

func (o outcome) String() string {
	switch {
	case o.raw != nil:
		m := new(dns.Msg)
		if err := m.Unpack(o.raw); err != nil {
			return fmt.Sprintf("unreadable answer of %d bytes: %v", len(o.raw), err)
		}
		return vt.Canon(m)
	case o.status != 0:
		return fmt.Sprintf("status %d", o.status)
	case o.closed:
		return "closed without answer (" + o.err + ")"
	case o.none:
		return "no answer"
	}
	return "error " + o.err
}

func (o outcome) msg() *dns.Msg {
	if o.raw == nil {
		return nil
	}
	m := new(dns.Msg)
	if m.Unpack(o.raw) != nil {
		return nil
	}
	return m
}

type request struct {
	raw  []byte
	path string
	get  bool
	hdr  http.Header
	ctyp string
	// how long to wait for an answer that should not come
	patience func() bool // true once waiting is over
	pieces   int         // sent in so many pieces, a while apart
}

// write sends a message, in pieces.
func (q request) write(w io.Writer, b []byte) error {
	for n := q.pieces; n > 1; n-- {
		k := len(b) / n
		if _, err := w.Write(b[:k]); err != nil {
			return err
		}
		b = b[k:]
		time.Sleep(30 * time.Millisecond)
	}
	_, err := w.Write(b)
	return err
}

// client talks to a listener from a given address.
type client struct {
	s     *server
	ip    net.IP
	sni   string
	stray func(what string)

	mu   sync.Mutex
	wait map[uint16]chan outcome
	gone bool
	late int

	conn  net.Conn // udp, tcp, dot, dtls
	pc    *net.UDPConn
	qconn *quic.Conn
	hc    *http.Client
	h3    *http3.Transport
	qtr   *quic.Transport
	key   *odoh.ObliviousDoHConfigContents
}

func clientTLS(sni string) *tls.Config {
	c := &tls.Config{RootCAs: ca.Pool(), ServerName: sni}
	if sni == "" {
		c.ServerName = "127.0.0.1" // not sent
	}
	return c
}

func (s *server) target() string { return net.JoinHostPort(s.host, fmt.Sprint(s.port)) }

// haveV6 tells if there is an IPv6 loopback address.
var haveV6 = sync.OnceValue(func() bool {
	l, err := net.Listen("tcp", "[::1]:0")
	if err == nil {
		l.Close()
	}
	return err == nil
})

func dial(s *server, ip net.IP, sni string, stray func(string)) (*client, error) {
	c := &client{s: s, ip: ip, sni: sni, stray: stray, wait: map[uint16]chan outcome{}}
	target := s.target()
	if ip != nil && ip.To4() == nil {
		target = net.JoinHostPort("::1", fmt.Sprint(s.port))
	}
	ctx, cancel := context.WithTimeout(context.Background(), vt.HangLimit)
	defer cancel()
	var err error
	switch s.kind {
	case "udp":
		d := net.Dialer{LocalAddr: &net.UDPAddr{IP: ip}}
		c.conn, err = d.DialContext(ctx, "udp", target)
	case "tcp":
		d := net.Dialer{LocalAddr: &net.TCPAddr{IP: ip}}
		c.conn, err = d.DialContext(ctx, "tcp", target)
	case "dot":
		d := tls.Dialer{NetDialer: &net.Dialer{LocalAddr: &net.TCPAddr{IP: ip}}, Config: clientTLS(sni)}
		c.conn, err = d.DialContext(ctx, "tcp", target)
	case "dtls":
		c.pc, err = net.ListenUDP("udp", &net.UDPAddr{IP: ip})
		if err == nil {
			ra, _ := net.ResolveUDPAddr("udp", target)
			cfg := &dtls.Config{RootCAs: ca.Pool(), ServerName: sni}
			if sni == "" {
				cfg.InsecureSkipVerify = true
			}
			// the listener gives clients two seconds, which a busy machine may miss
			for i := 0; ; i++ {
				var dc *dtls.Conn
				dc, err = dtls.Client(c.pc, ra, cfg)
				if err == nil {
					c.conn = dc
					err = dc.HandshakeContext(ctx)
				}
				if err == nil || i == 4 {
					break
				}
				c.pc.Close()
				if c.pc, err = net.ListenUDP("udp", &net.UDPAddr{IP: ip}); err != nil {
					break
				}
			}
		}
	case "doh", "doh-plain", "odoh":
		d := &net.Dialer{LocalAddr: &net.TCPAddr{IP: ip}}
		tr := &http.Transport{
			DialContext:       func(ctx context.Context, n, a string) (net.Conn, error) { return d.DialContext(ctx, "tcp", target) },
			TLSClientConfig:   clientTLS(sni),
			ForceAttemptHTTP2: true,
		}
		c.hc = &http.Client{Transport: tr, Timeout: vt.HangLimit}
		if s.kind == "odoh" {
			err = c.odohKey()
		}
	case "doh3", "doq":
		c.pc, err = net.ListenUDP("udp", &net.UDPAddr{IP: ip})
		if err != nil {
			break
		}
		c.qtr = &quic.Transport{Conn: c.pc}
		ra, _ := net.ResolveUDPAddr("udp", target)
		tc := clientTLS(sni)
		if s.kind == "doq" {
			tc.NextProtos = []string{"doq"}
			c.qconn, err = c.qtr.Dial(ctx, ra, tc, &quic.Config{HandshakeIdleTimeout: vt.HangLimit, MaxIdleTimeout: 4 * time.Minute})
			break
		}
		c.h3 = &http3.Transport{TLSClientConfig: tc, Dial: func(ctx context.Context, _ string, tc *tls.Config, qc *quic.Config) (*quic.Conn, error) {
			return c.qtr.DialEarly(ctx, ra, tc, qc)
		}}
		c.hc = &http.Client{Transport: c.h3, Timeout: vt.HangLimit}
	}
	if err != nil {
		c.close()
		return nil, err
	}
	if c.conn != nil {
		go c.readLoop()
	}
	return c, nil
}

func (c *client) odohKey() error {
	resp, err := c.hc.Get("https://server/.well-known/odohconfigs")
	if err != nil {
		return err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return err
	}
	if resp.StatusCode != 200 {
		return fmt.Errorf("config: status %d", resp.StatusCode)
	}
	cfg, err := odoh.UnmarshalObliviousDoHConfigs(b)
	if err != nil {
		return err
	}
	if len(cfg.Configs) == 0 {
		return errors.New("no config")
	}
	c.key = &cfg.Configs[0].Contents
	return nil
}

func (c *client) close() {
	if c.conn != nil {
		c.conn.Close()
	}
	if c.qconn != nil {
		c.qconn.CloseWithError(0, "")
	}
	if c.h3 != nil {
		c.h3.Close()
	}
	if c.hc != nil {
		c.hc.CloseIdleConnections()
	}
	if c.qtr != nil {
		c.qtr.Close()
	}
	if c.pc != nil {
		c.pc.Close()
	}
}

func (c *client) framed() bool { return c.s.kind != "udp" }

// readLoop hands answers to whoever waits for their ID.
func (c *client) readLoop() {
	buf := make([]byte, 70000)
	for {
		var m []byte
		var err error
		switch c.s.kind {
		case "udp":
			var n int
			n, err = c.conn.Read(buf)
			m = append([]byte{}, buf[:n]...)
			if err != nil && !errors.Is(err, net.ErrClosed) && !errors.Is(err, io.EOF) {
				continue // port unreachable and the like
			}
		case "dtls":
			var n int
			n, err = c.conn.Read(buf)
			if err == nil {
				if n < 2 || int(binary.BigEndian.Uint16(buf)) != n-2 {
					c.stray(fmt.Sprintf("a frame of %d bytes with a wrong length", n))
					continue
				}
				m = append([]byte{}, buf[2:n]...)
			}
		default:
			var l uint16
			if err = binary.Read(c.conn, binary.BigEndian, &l); err == nil {
				m = make([]byte, l)
				_, err = io.ReadFull(c.conn, m)
			}
		}
		if err != nil {
			c.mu.Lock()
			c.gone = true
			for id, ch := range c.wait {
				ch <- outcome{closed: true, err: err.Error()}
				delete(c.wait, id)
			}
			c.mu.Unlock()
			return
		}
		if len(m) < 2 {
			c.stray(fmt.Sprintf("a message of %d bytes", len(m)))
			continue
		}
		id := binary.BigEndian.Uint16(m)
		c.mu.Lock()
		ch := c.wait[id]
		delete(c.wait, id)
		c.mu.Unlock()
		if ch == nil {
			c.stray(outcome{raw: m}.String())
			continue
		}
		ch <- outcome{raw: m}
	}
}

func frame(m []byte) []byte {
	out := make([]byte, 2+len(m))
	binary.BigEndian.PutUint16(out, uint16(len(m)))
	copy(out[2:], m)
	return out
}

// ask sends one message and waits for what comes of it.
func (c *client) ask(q request) outcome {
	switch {
	case c.conn != nil:
		id := uint16(0)
		if len(q.raw) >= 2 {
			id = binary.BigEndian.Uint16(q.raw)
		}
		ch := make(chan outcome, 4)
		c.mu.Lock()
		if c.gone {
			c.mu.Unlock()
			return outcome{closed: true, err: "before the query"}
		}
		if c.wait[id] != nil {
			c.mu.Unlock()
			return outcome{err: "ID in use"}
		}
		c.wait[id] = ch
		c.mu.Unlock()
		out := q.raw
		if c.framed() {
			out = frame(out)
		}
		if err := q.write(c.conn, out); err != nil {
			c.mu.Lock()
			delete(c.wait, id)
			c.mu.Unlock()
			return outcome{closed: true, err: err.Error()}
		}
		begin, sent := time.Now(), time.Now()
		for {
			select {
			case o := <-ch:
				return o
			case <-time.After(20 * time.Millisecond):
			}
			if q.patience != nil && q.patience() || time.Since(begin) > vt.HangLimit {
				c.mu.Lock()
				delete(c.wait, id)
				c.mu.Unlock()
				select {
				case o := <-ch:
					return o
				default:
				}
				return outcome{none: true}
			}
			// a datagram may be lost under load
			if q.patience == nil && c.s.kind == "udp" && time.Since(sent) > 10*time.Second {
				sent = time.Now()
				c.conn.Write(out)
			}
		}
	case c.qconn != nil:
		return c.askDoQ(q)
	default:
		return c.askHTTP(q)
	}
}

func (c *client) askDoQ(q request) outcome {
	ctx, cancel := context.WithTimeout(context.Background(), vt.HangLimit)
	defer cancel()
	if q.patience != nil {
		go func() {
			for ctx.Err() == nil && !q.patience() {
				time.Sleep(20 * time.Millisecond)
			}
			cancel()
		}()
	}
	st, err := c.qconn.OpenStreamSync(ctx)
	if err != nil {
		return outcome{closed: true, err: err.Error()}
	}
	stop := context.AfterFunc(ctx, func() { st.SetDeadline(time.Now()); st.CancelRead(0) })
	defer stop()
	if err := q.write(st, frame(q.raw)); err != nil {
		return outcome{closed: true, err: err.Error()}
	}
	st.Close()
	b, err := io.ReadAll(st)
	if ctx.Err() != nil {
		return outcome{none: true}
	}
	if err != nil || len(b) == 0 {
		return outcome{closed: true, err: fmt.Sprint(err)}
	}
	if len(b) < 2 || int(binary.BigEndian.Uint16(b)) != len(b)-2 {
		return outcome{err: fmt.Sprintf("stream of %d bytes with a wrong length", len(b))}
	}
	return outcome{raw: b[2:]}
}

func (c *client) askHTTP(q request) outcome {
	path := q.path
	if path == "" {
		path = "/dns-query"
	}
	scheme := "https"
	if c.s.kind == "doh-plain" {
		scheme = "http"
	}
	host := "server"
	if c.sni != "" {
		host = c.sni
	}
	body := q.raw
	ctype := "application/dns-message"
	var open func([]byte) ([]byte, error)
	if c.s.kind == "odoh" {
		ctype = "application/oblivious-dns-message"
		if q.ctyp == "" {
			oq := odoh.CreateObliviousDNSQuery(q.raw, 0)
			enc, sec, err := c.key.EncryptQuery(oq)
			if err != nil {
				return outcome{err: "encrypt: " + err.Error()}
			}
			body = enc.Marshal()
			open = func(b []byte) ([]byte, error) {
				m, err := odoh.UnmarshalDNSMessage(b)
				if err != nil {
					return nil, err
				}
				return sec.OpenAnswer(m)
			}
		}
	}
	if q.ctyp != "" {
		ctype = q.ctyp
	}
	var req *http.Request
	var err error
	if q.get {
		req, err = http.NewRequest("GET", scheme+"://"+host+path+"?dns="+base64.RawURLEncoding.EncodeToString(q.raw), nil)
	} else {
		var rd io.Reader = bytes.NewReader(body)
		if q.pieces > 1 {
			pr, pw := io.Pipe()
			go func() { pw.CloseWithError(q.write(pw, body)) }()
			rd = pr
		}
		req, err = http.NewRequest("POST", scheme+"://"+host+path, rd)
		if err == nil {
			req.Header.Set("content-type", ctype)
		}
	}
	if err != nil {
		return outcome{err: err.Error()}
	}
	for k, v := range q.hdr {
		req.Header[k] = v
	}
	resp, err := c.hc.Do(req)
	if err != nil {
		return outcome{closed: true, err: err.Error()}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return outcome{closed: true, err: err.Error()}
	}
	o := outcome{status: resp.StatusCode, ctype: resp.Header.Get("content-type")}
	if resp.StatusCode == 200 {
		if open != nil {
			if b, err = open(b); err != nil {
				return outcome{err: "open: " + err.Error()}
			}
		}
		o.raw = b
	}
	return o
}

// panics collects handler panics that net/http swallows.
type panics struct{ n atomic.Int64 }

func (p *panics) Write(b []byte) (int, error) {
	if bytes.Contains(b, []byte("panic")) {
		p.n.Add(1)
	}
	return len(b), nil
}
