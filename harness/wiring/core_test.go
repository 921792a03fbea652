package wiring

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/miekg/dns"

	"verif/harness/vt"
)

// The real program is started on a configuration file written from a random
// choice of options, in front of servers the harness runs. What each option
// must lead to is worked out from the choice, not from the program.

type upq struct {
	server int
	src    net.IP
	tcp    bool
	m      *dns.Msg
}

type handler func(server int, q *dns.Msg) *dns.Msg

// world holds the upstream servers and the configuration being written.
type world struct {
	r   *vt.R
	rnd *rand.Rand
	dir string

	conf  strings.Builder // one file
	conf2 strings.Builder // a second one, given to the program as well
	ports []string        // "udp:1234", "tcp:1234" to be bound by the program
	todo  []step
	n     int

	up []int // ports of the upstream servers, UDP and TCP

	mu   sync.Mutex
	hits map[string][]upq // by case
	h    map[string]handler
	held []net.Listener
	pcs  []net.PacketConn
	proc *program
	fd   []*program // helpers

	localhost bool // the name is known to be 127.0.0.1 only
}

type step struct {
	name string
	slow bool
	f    func()
}

const nUp = 4

func newWorld(r *vt.R, rnd *rand.Rand) *world {
	w := &world{r: r, rnd: rnd, hits: map[string][]upq{}, h: map[string]handler{}}
	if ips, err := net.LookupHost("localhost"); err == nil {
		w.localhost = len(ips) == 1 && ips[0] == "127.0.0.1"
	}
	var err error
	w.dir, err = os.MkdirTemp(os.Getenv("VERIF_WORK"), "conf")
	if err != nil {
		panic(err)
	}
	for i := 0; i < nUp; i++ {
		w.up = append(w.up, w.upstream(i))
		fmt.Fprintf(&w.conf, "[resolvers.up%d]\naddress = \"127.0.0.1:%d\"\nprotocol = \"udp\"\n\n", i, w.up[i])
		fmt.Fprintf(&w.conf, "[resolvers.upt%d]\naddress = \"127.0.0.1:%d\"\nprotocol = \"tcp\"\n\n", i, w.up[i])
	}
	return w
}

// upstream starts a server on a port free for both transports.
func (w *world) upstream(i int) int {
	for try := 0; try < 100; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		port := l.Addr().(*net.TCPAddr).Port
		pc, err := net.ListenPacket("udp", fmt.Sprintf("127.0.0.1:%d", port))
		if err != nil {
			l.Close()
			continue
		}
		w.held, w.pcs = append(w.held, l), append(w.pcs, pc)
		f := dns.HandlerFunc(func(rw dns.ResponseWriter, q *dns.Msg) { w.serve(i, rw, q) })
		for _, s := range []*dns.Server{{Listener: l, Handler: f}, {PacketConn: pc, Handler: f}} {
			started := make(chan struct{})
			s.NotifyStartedFunc = func() { close(started) }
			go s.ActivateAndServe()
			<-started
		}
		return port
	}
	panic("no port")
}

// caseOf gives the case a name belongs to: the label before "test".
func caseOf(name string) string {
	l := dns.SplitDomainName(strings.ToLower(name))
	if len(l) < 2 || l[len(l)-1] != "test" {
		if len(l) > 0 {
			return l[len(l)-1]
		}
		return "."
	}
	return l[len(l)-2]
}

func (w *world) serve(i int, rw dns.ResponseWriter, q *dns.Msg) {
	c := caseOf(q.Question[0].Name)
	var src net.IP
	_, tcp := rw.RemoteAddr().(*net.TCPAddr)
	if tcp {
		src = rw.RemoteAddr().(*net.TCPAddr).IP
	} else {
		src = rw.RemoteAddr().(*net.UDPAddr).IP
	}
	w.mu.Lock()
	w.hits[c] = append(w.hits[c], upq{i, src, tcp, q.Copy()})
	h := w.h[c]
	w.mu.Unlock()
	w.r.Observe("upstream queries", 1)
	var a *dns.Msg
	if h != nil {
		a = h(i, q)
	} else {
		a = plain(i, q)
	}
	if a != nil {
		rw.WriteMsg(a)
	}
}

// plain answers with the number of the server.
func plain(i int, q *dns.Msg) *dns.Msg {
	a := new(dns.Msg).SetReply(q)
	n := q.Question[0].Name
	switch q.Question[0].Qtype {
	case dns.TypeA:
		a.Answer = []dns.RR{vt.RR("%s 300 IN A 192.0.2.%d", n, i)}
	case dns.TypeAAAA:
		a.Answer = []dns.RR{vt.RR("%s 300 IN AAAA 2001:db8::%d", n, i)}
	default:
		a.Answer = []dns.RR{vt.RR("%s 300 IN TXT \"s%d\"", n, i)}
	}
	return a
}

// from gives the number of the server an answer of plain's came from, or -1.
func from(a *dns.Msg) int {
	if a == nil || a.Rcode != dns.RcodeSuccess || len(a.Answer) != 1 {
		return -1
	}
	switch rr := a.Answer[0].(type) {
	case *dns.A:
		return int(rr.A.To4()[3])
	case *dns.AAAA:
		return int(rr.AAAA.To16()[15])
	case *dns.TXT:
		if len(rr.Txt) == 1 && len(rr.Txt[0]) == 2 {
			return int(rr.Txt[0][1] - '0')
		}
	}
	return -1
}

// c starts a new case and gives its label.
func (w *world) c(h handler) string {
	w.n++
	c := fmt.Sprintf("c%d", w.n)
	w.mu.Lock()
	w.h[c] = h
	w.mu.Unlock()
	return c
}

func (w *world) seen(c string) []upq {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]upq(nil), w.hits[c]...)
}

func (w *world) count(c, name string) (n int) {
	for _, q := range w.seen(c) {
		if strings.EqualFold(q.m.Question[0].Name, name) {
			n++
		}
	}
	return
}

// port finds a port free for both transports. It is below the ports the
// system gives to outgoing connections.
func (w *world) port() int {
	for {
		p := 10000 + rand.Intn(22000)
		if portUsed(p) { // not even probed, another world may be about to use it
			continue
		}
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			continue
		}
		pc, err := net.ListenPacket("udp", fmt.Sprintf(":%d", p))
		l.Close()
		if err != nil {
			continue
		}
		pc.Close()
		return p
	}
}

var (
	portMu    sync.Mutex
	portsUsed = map[int]bool{}
)

func portUsed(p int) bool {
	portMu.Lock()
	defer portMu.Unlock()
	u := portsUsed[p]
	portsUsed[p] = true
	return u
}

// group writes a group of the configuration.
func (w *world) group(id, typ string, resolvers []string, lines ...string) string {
	b := &w.conf
	if w.rnd.Intn(2) == 0 {
		b = &w.conf2
	}
	fmt.Fprintf(b, "[groups.%s]\ntype = %q\n", id, typ)
	if resolvers != nil {
		fmt.Fprintf(b, "resolvers = [%s]\n", quoted(resolvers))
	}
	for _, l := range lines {
		if l != "" {
			b.WriteString(l + "\n")
		}
	}
	b.WriteString("\n")
	return id
}

func quoted(l []string) string {
	q := make([]string, len(l))
	for i := range l {
		q[i] = fmt.Sprintf("%q", l[i])
	}
	return strings.Join(q, ", ")
}

// udp writes a UDP listener in front of an element.
func (w *world) udp(target string, lines ...string) string {
	return w.listener("udp", target, lines...)
}

func (w *world) listener(proto, target string, lines ...string) string {
	p := w.port()
	return w.listenerAt(proto, fmt.Sprintf("127.0.0.1:%d", p), fmt.Sprintf("l%d", p), target, lines...)
}

func (w *world) listenerAt(proto, addr, id, target string, lines ...string) string {
	_, p, _ := net.SplitHostPort(addr)
	trans := "tcp"
	switch proto {
	case "udp", "dtls", "doq":
		trans = "udp"
	}
	for _, l := range lines {
		if l == `transport = "quic"` {
			trans = "udp"
		}
	}
	w.ports = append(w.ports, trans+":"+p)
	fmt.Fprintf(&w.conf, "[listeners.%s]\naddress = %q\nprotocol = %q\n", id, addr, proto)
	if target != "" {
		fmt.Fprintf(&w.conf, "resolver = %q\n", target)
	}
	for _, l := range lines {
		if l != "" {
			w.conf.WriteString(l + "\n")
		}
	}
	w.conf.WriteString("\n")
	return addr
}

func (w *world) step(name string, f func())     { w.todo = append(w.todo, step{name, false, f}) }
func (w *world) slowStep(name string, f func()) { w.todo = append(w.todo, step{name, true, f}) }

func (w *world) bad(key, format string, args ...any) {
	w.r.Violation("config:"+key, fmt.Sprintf(format, args...), key)
}

// check evaluates one expectation.
func (w *world) check(ok bool, key, format string, args ...any) {
	w.r.Eval(fmt.Sprintf("%s %d", key, w.n))
	w.r.State("option", key)
	if !ok {
		w.bad(key, format, args...)
	}
}

// program is a running routedns.
type program struct {
	cmd  *exec.Cmd
	out  *syncBuf
	done chan struct{}
	err  error
}

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(p []byte) (int, error) { s.mu.Lock(); defer s.mu.Unlock(); return s.b.Write(p) }
func (s *syncBuf) String() string              { s.mu.Lock(); defer s.mu.Unlock(); return s.b.String() }

func run(args ...string) *program {
	p := &program{cmd: exec.Command(os.Getenv("VERIF_BINARY"), args...), out: &syncBuf{}, done: make(chan struct{})}
	p.cmd.Stdout, p.cmd.Stderr = p.out, p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	go func() { p.err = p.cmd.Wait(); close(p.done) }()
	return p
}

func (p *program) ended(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

// bound says which of the ports ("udp:53") have a socket waiting.
func bound(ports []string) (missing []string) {
	have := map[string]bool{}
	for _, f := range []string{"udp", "udp6", "tcp", "tcp6"} {
		b, _ := os.ReadFile("/proc/net/" + f)
		for _, line := range strings.Split(string(b), "\n") {
			fs := strings.Fields(line)
			if len(fs) < 4 || !strings.Contains(fs[1], ":") {
				continue
			}
			if strings.HasPrefix(f, "tcp") && fs[3] != "0A" {
				continue
			}
			var p int
			fmt.Sscanf(fs[1][strings.LastIndex(fs[1], ":")+1:], "%x", &p)
			have[fmt.Sprintf("%s:%d", f[:3], p)] = true
		}
	}
	for _, p := range ports {
		if !have[p] {
			missing = append(missing, p)
		}
	}
	return
}

// start runs the program on the configuration and waits for its listeners.
func (w *world) start() bool {
	f1, f2 := filepath.Join(w.dir, "one.toml"), filepath.Join(w.dir, "two.toml")
	os.WriteFile(f1, []byte(w.conf.String()), 0o600)
	os.WriteFile(f2, []byte(w.conf2.String()), 0o600)
	w.proc = run(f1, f2)
	end := time.Now().Add(vt.HangLimit)
	for {
		m := bound(w.ports)
		if len(m) == 0 {
			return true
		}
		if w.proc.ended(20 * time.Millisecond) {
			w.bad("start", "the program ended on a valid configuration: %v\n%s", w.proc.err, tail(w.proc.out.String()))
			return false
		}
		if time.Now().After(end) {
			w.bad("start", "the program does not listen on %v\n%s", m, tail(w.proc.out.String()))
			return false
		}
	}
}

// stop ends the program with a signal and checks that it ends well.
func (w *world) stop(sig syscall.Signal) {
	select {
	case <-w.proc.done:
	default:
		w.proc.cmd.Process.Signal(sig)
		if !w.proc.ended(vt.HangLimit) {
			w.proc.cmd.Process.Kill()
			<-w.proc.done
			w.bad("stop", "the program did not end on signal %v", sig)
			return
		}
		w.check(w.proc.err == nil, "stop", "the program ended with %v on signal %v\n%s", w.proc.err, sig, tail(w.proc.out.String()))
	}
}

func (w *world) close() {
	for _, l := range w.held {
		l.Close()
	}
	for _, l := range w.pcs {
		l.Close()
	}
	for _, p := range w.fd {
		p.cmd.Process.Kill()
	}
	os.RemoveAll(w.dir)
}

// steps runs the expectations against the running program.
func (w *world) steps() {
	var wg sync.WaitGroup
	for _, s := range w.todo {
		if s.slow {
			wg.Add(1)
			go func() { defer wg.Done(); t := time.Now(); s.f(); slowlog(s.name, t) }()
		}
	}
	for _, s := range w.todo {
		if s.slow {
			continue
		}
		w.r.Case("%s", s.name)
		t := time.Now()
		s.f()
		slowlog(s.name, t)
		if w.proc.ended(0) {
			break
		}
	}
	wg.Wait()
	w.r.Observe("configured elements", len(w.todo))
	if w.proc.ended(0) {
		w.bad("ended", "the program ended while serving: %v\n%s", w.proc.err, tail(w.proc.out.String()))
	}
	w.todo = nil
}

func slowlog(name string, t time.Time) {
	if d := time.Since(t); os.Getenv("VERIF_SLOW") != "" && d > time.Second {
		fmt.Println("SLOW", name, d)
	}
}

func tail(s string) string {
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
		if len(s) > 4000 {
			s = s[:4000]
		}
		return s
	}
	if len(s) > 3000 {
		return s[len(s)-3000:]
	}
	return s
}

type askOpt struct {
	src  string
	net  string // "udp" or "tcp"
	wait time.Duration
}

// ask sends a query to a listener; nil if there is no answer.
func (w *world) ask(addr string, q *dns.Msg, opts ...askOpt) *dns.Msg {
	o := askOpt{net: "udp", wait: 20 * time.Second}
	for _, x := range opts {
		if x.src != "" {
			o.src = x.src
		}
		if x.net != "" {
			o.net = x.net
		}
		if x.wait != 0 {
			o.wait = x.wait
		}
	}
	d := &net.Dialer{}
	if o.src != "" {
		if o.net == "udp" {
			d.LocalAddr = &net.UDPAddr{IP: net.ParseIP(o.src)}
		} else {
			d.LocalAddr = &net.TCPAddr{IP: net.ParseIP(o.src)}
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), o.wait)
	defer cancel()
	c := &dns.Client{Net: o.net, Timeout: o.wait, Dialer: d, UDPSize: 4096}
	conn, err := c.DialContext(ctx, addr)
	if err != nil {
		return nil
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(o.wait))
	if err := conn.WriteMsg(q); err != nil {
		return nil
	}
	w.r.Observe("queries", 1)
	conn.UDPSize = 65535
	a, err := conn.ReadMsg()
	if err != nil {
		return nil
	}
	return a
}

func (w *world) a(addr, name string, opts ...askOpt) *dns.Msg {
	return w.ask(addr, vt.Query(name, dns.TypeA), opts...)
}

// link asks over a link that works. A listener gives its clients two seconds for
// the handshake and the query, which a busy machine may miss, so one that fails
// is tried again.
func (w *world) link(addr, name string) *dns.Msg {
	var a *dns.Msg
	for i := 0; i < 6; i++ {
		if a = w.a(addr, name); from(a) == 0 {
			break
		}
		time.Sleep(500 * time.Millisecond)
	}
	return a
}

// until polls until a condition holds.
func (w *world) until(f func() bool) bool {
	end := time.Now().Add(vt.HangLimit)
	for !f() {
		if time.Now().After(end) || w.proc.ended(0) {
			return false
		}
		time.Sleep(50 * time.Millisecond)
	}
	return true
}

func rcode(a *dns.Msg) string {
	if a == nil {
		return "none"
	}
	return dns.RcodeToString[a.Rcode]
}

func short(a *dns.Msg) string {
	if a == nil {
		return "no answer"
	}
	return fmt.Sprintf("%s %v", rcode(a), vt.RRStrings(a.Answer))
}

func (w *world) file(name, content string) string {
	p := filepath.Join(w.dir, name)
	tmp := p + ".tmp"
	os.WriteFile(tmp, []byte(content), 0o600)
	os.Rename(tmp, p)
	return p
}

func (w *world) chance(n int) bool { return w.rnd.Intn(n) == 0 }
func (w *world) coin() bool        { return w.rnd.Intn(2) == 0 }
