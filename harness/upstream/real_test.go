package upstream

import (
	"context"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"github.com/pion/dtls/v3"
	"github.com/quic-go/quic-go"
	"github.com/quic-go/quic-go/http3"

	"verif/harness/vt"
)

// realServer runs a server of the kinds that need sockets. It returns the
// address and a function that stops it.
func (w *world) realServer(addr string) (string, func(), error) {
	switch w.kind {
	case "dtls":
		ua, _ := net.ResolveUDPAddr("udp", addr)
		ln, err := dtls.Listen("udp", ua, &dtls.Config{Certificates: []tls.Certificate{serverCert}})
		if err != nil {
			return "", nil, err
		}
		var mu sync.Mutex
		var open []net.Conn
		go func() {
			for {
				conn, err := ln.Accept()
				if err != nil {
					return
				}
				mu.Lock()
				open = append(open, conn)
				mu.Unlock()
				sc := &srvConn{w: w, out: map[uint16]int{}}
				// routedns frames messages over DTLS as over TCP
				sc.send = func(b []byte) error { _, err := conn.Write(frame(b)); return err }
				sc.close = func() { conn.Close() }
				w.mu.Lock()
				w.conns = append(w.conns, sc)
				w.mu.Unlock()
				w.r.Observe("connections "+w.kind, 1)
				go func() {
					buf := make([]byte, 65536)
					for {
						n, err := conn.Read(buf)
						if err != nil {
							return
						}
						if n < 2 || int(binary.BigEndian.Uint16(buf)) != n-2 {
							w.r.Violation("bad-wire-query", fmt.Sprintf("dtls: bad frame of %d bytes", n), w.label)
							continue
						}
						w.onQuery(sc, append([]byte(nil), buf[2:n]...))
					}
				}()
			}
		}()
		return ln.Addr().String(), func() {
			mu.Lock()
			for _, c := range open {
				c.Close()
			}
			mu.Unlock()
			ln.Close()
		}, nil
	case "dot":
		ln, err := net.Listen("tcp", addr)
		if err != nil {
			return "", nil, err
		}
		var mu sync.Mutex
		var open []net.Conn
		go func() {
			for {
				raw, err := ln.Accept()
				if err != nil {
					return
				}
				conn := tls.Server(raw, &tls.Config{Certificates: []tls.Certificate{serverCert}})
				mu.Lock()
				open = append(open, conn)
				mu.Unlock()
				sc := &srvConn{w: w, out: map[uint16]int{}}
				sc.send = func(b []byte) error { _, err := conn.Write(frame(b)); return err }
				sc.close = func() { conn.Close() }
				w.mu.Lock()
				w.conns = append(w.conns, sc)
				w.mu.Unlock()
				w.r.Observe("connections "+w.kind, 1)
				go func() {
					for {
						var l uint16
						if err := binary.Read(conn, binary.BigEndian, &l); err != nil {
							return
						}
						b := make([]byte, l)
						if _, err := io.ReadFull(conn, b); err != nil {
							return
						}
						w.onQuery(sc, b)
					}
				}()
			}
		}()
		return ln.Addr().String(), func() {
			ln.Close()
			mu.Lock()
			for _, c := range open {
				c.Close()
			}
			mu.Unlock()
		}, nil
	case "doq":
		ua, _ := net.ResolveUDPAddr("udp", addr)
		pc, err := net.ListenUDP("udp", ua)
		if err != nil {
			return "", nil, err
		}
		tr := &quic.Transport{Conn: pc}
		ln, err := tr.Listen(&tls.Config{Certificates: []tls.Certificate{serverCert}, NextProtos: []string{"doq"}}, &quic.Config{MaxIncomingStreams: w.streams})
		if err != nil {
			return "", nil, err
		}
		go func() {
			for {
				conn, err := ln.Accept(context.Background())
				if err != nil {
					return
				}
				w.r.Observe("connections "+w.kind, 1)
				go func() {
					for {
						st, err := conn.AcceptStream(context.Background())
						if err != nil {
							return
						}
						go w.doqStream(conn, st)
					}
				}()
			}
		}()
		return ln.Addr().String(), func() { ln.Close(); tr.Close(); pc.Close() }, nil
	case "doh3":
		ua, _ := net.ResolveUDPAddr("udp", addr)
		pc, err := net.ListenUDP("udp", ua)
		if err != nil {
			return "", nil, err
		}
		srv := &http3.Server{TLSConfig: http3.ConfigureTLSConfig(&tls.Config{Certificates: []tls.Certificate{serverCert}}), Handler: http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
			w.serveHTTP(nil, rw, req)
		})}
		go srv.Serve(pc)
		return pc.LocalAddr().String(), func() { srv.Close(); pc.Close() }, nil
	}
	panic(w.kind)
}

func (w *world) doqStream(conn *quic.Conn, st *quic.Stream) {
	var l uint16
	if err := binary.Read(st, binary.BigEndian, &l); err != nil {
		return
	}
	b := make([]byte, l)
	if _, err := io.ReadFull(st, b); err != nil {
		return
	}
	if rest, err := io.ReadAll(st); err != nil || len(rest) > 0 {
		if err == nil {
			w.r.Violation("bad-wire-query", fmt.Sprintf("doq: %d bytes after the query", len(rest)), w.label)
		}
		return
	}
	if id := binary.BigEndian.Uint16(b); id != 0 {
		w.r.Violation("doq-id", fmt.Sprintf("doq: query sent with ID %d, must be 0", id), w.label)
	}
	q := new(dns.Msg)
	if err := q.Unpack(b); err == nil {
		if o := q.IsEdns0(); o != nil {
			for _, e := range o.Option {
				if e.Option() == dns.EDNS0TCPKEEPALIVE {
					w.r.Violation("doq-keepalive", "doq: query sent with a TCP keepalive option", w.label)
				}
			}
		}
	}
	one := &srvConn{w: w, out: map[uint16]int{}}
	var once sync.Once
	one.send = func(m []byte) error {
		once.Do(func() {
			defer st.Close()
			if w.hostile {
				switch w.intn(12) {
				case 0: // reset in the middle
					st.Write(frame(m)[:1])
					st.CancelWrite(1)
					w.r.State("server behaviour", "doq reset")
					return
				case 1: // end before the message is complete
					st.Write(frame(m)[:2+len(m)/2])
					w.r.State("server behaviour", "doq cut")
					return
				case 2: // a keepalive option is an error
					a := new(dns.Msg)
					if a.Unpack(m) == nil {
						if a.IsEdns0() == nil {
							a.SetEdns0(1232, false)
						}
						a.IsEdns0().Option = append(a.IsEdns0().Option, &dns.EDNS0_TCP_KEEPALIVE{Code: dns.EDNS0TCPKEEPALIVE, Timeout: 10})
						for _, rr := range a.Answer {
							if t, ok := rr.(*dns.TXT); ok {
								t.Txt[0] = "keepalive"
							}
						}
						if b, err := a.Pack(); err == nil {
							m = b
						}
						w.r.State("server behaviour", "doq keepalive")
					}
				}
			}
			st.Write(frame(m))
		})
		return nil
	}
	one.close = func() { conn.CloseWithError(0, "") }
	if w.hostile {
		if c := w.callOf(q); c != nil {
			w.mu.Lock()
			c.disturb = true
			w.mu.Unlock()
		}
	}
	w.onQuery(one, b)
}

func frame(m []byte) []byte {
	b := make([]byte, 2+len(m))
	binary.BigEndian.PutUint16(b, uint16(len(m)))
	copy(b[2:], m)
	return b
}

// realClient builds the client of a socket kind.
func (w *world) realClient(id, addr string, rnd *rand.Rand) rdns.Resolver {
	var (
		cl  rdns.Resolver
		err error
	)
	_, port, _ := net.SplitHostPort(addr)
	switch w.kind {
	case "dtls":
		cl, err = rdns.NewDTLSClient(id, "dns.test:"+port, rdns.DTLSClientOptions{BootstrapAddr: "127.0.0.1", QueryTimeout: w.timeout, DTLSConfig: &dtls.Config{RootCAs: ca.Pool()}})
	case "dot":
		cl, err = rdns.NewDoTClient(id, "dns.test:"+port, rdns.DoTClientOptions{BootstrapAddr: "127.0.0.1", QueryTimeout: w.timeout, TLSConfig: &tls.Config{RootCAs: ca.Pool()}})
	case "doq":
		cl, err = rdns.NewDoQClient(id, "dns.test:"+port, rdns.DoQClientOptions{BootstrapAddr: "127.0.0.1", QueryTimeout: w.timeout, TLSConfig: &tls.Config{RootCAs: ca.Pool()}, LocalAddr: net.IP{127, 0, 0, 1}, Use0RTT: rnd.Intn(2) == 0})
	case "doh3":
		cl, err = rdns.NewDoHClient(id, "https://dns.test:"+port+"/dns-query{?dns}", rdns.DoHClientOptions{BootstrapAddr: "127.0.0.1", Transport: "quic", QueryTimeout: w.timeout, TLSConfig: &tls.Config{RootCAs: ca.Pool()}, LocalAddr: net.IP{127, 0, 0, 1}, Method: vt.Pick(rnd, "GET", "POST")})
	}
	if err != nil {
		panic(err)
	}
	return cl
}

// realKinds runs the socket transports on the real clock. Only the order of
// events is judged, never how long something took.
func realKinds(r *vt.R) {
	var wg sync.WaitGroup
	for _, kind := range []string{"dtls", "doq", "doh3"} {
		for c := 0; c < r.N(6, 60); c++ {
			if c > 0 && c%6 == 0 {
				wg.Wait()
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				realCase(r, kind, c)
			}()
		}
	}
	wg.Wait()
}

func realCase(r *vt.R, kind string, c int) {
	rnd := r.Rand("real", kind, c)
	label := fmt.Sprintf("real %s case %d", kind, c)
	w := newWorld(r, kind, label, rnd)
	w.hostile = c%2 == 1
	w.timeout = 40 * time.Second
	if w.hostile {
		w.timeout = 700 * time.Millisecond
	}
	par := 8
	if kind == "doq" {
		w.streams = int64(vt.Pick(rnd, 4, 100, 1000))
		par = vt.Pick(rnd, 8, 60)
	}
	addr, stop, err := w.realServer("127.0.0.1:0")
	if err != nil {
		r.Inconclusive("server: %v", err)
		return
	}
	defer stop()
	cl := w.realClient(fmt.Sprintf("%s-%d", kind, c), addr, rand.New(rand.NewSource(rnd.Int63())))
	n := 120
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		sem <- struct{}{}
		ca := w.newCall()
		if w.hostile && kind == "doq" && ca.q.IsEdns0() != nil && i%3 == 0 {
			ca.q.IsEdns0().Option = append(ca.q.IsEdns0().Option, &dns.EDNS0_TCP_KEEPALIVE{Code: dns.EDNS0TCPKEEPALIVE})
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.run(cl, ca)
			<-sem
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * vt.HangLimit):
		for _, x := range w.calls {
			if !x.returned {
				r.Violation("hang", fmt.Sprintf("%s call %d did not return", kind, x.n), label)
				break
			}
		}
		return
	}
	for _, x := range w.calls {
		w.judge(x)
	}
}
