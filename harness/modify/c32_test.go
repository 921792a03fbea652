package modify

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// TestC32: logging elements let everything through as it is and log every
// query once.
func TestC32(t *testing.T) {
	r := vt.Start(t, "C32", "one query through a logging element per evaluation, eight at a time, the log read back afterwards; non-trivial always, distinct by (element, format, options, kind of result)")
	r.Need("logged queries", 1000)
	r.Need("passed through", 2000)
	r.Need("syslog requests", 500)
	r.Need("syslog answers", 500)
	r.Need("passed without a log server", 100)
	for c := 0; c < r.N(30, 600); c++ {
		queryLogCase(r, c, t.TempDir())
		syslogCase(r, c)
	}
	deadSyslog(r)
	r.Exit()
}

// passSteps makes queries that must go through unchanged both ways.
func passSteps(r *vt.R, label, what string, rnd *rand.Rand, n int, each func(s *step, res result)) []step {
	var steps []step
	for i := 0; i < n; i++ {
		q := query(rnd)
		res := outcome(rnd, q)
		s := step{q: q, ci: client(rnd)}
		s.f = func(*dns.Msg) (*dns.Msg, error) { return res.copy() }
		s.judge = func(got result, seen []sighting) {
			if same(r, "result", label, q, res, got) && passed(r, label, &s, seen, q) {
				r.Observe(what, 1)
			}
			each(&s, res)
		}
		steps = append(steps, s)
	}
	return steps
}

func kind(res result) string {
	switch {
	case res.err != nil:
		return "error"
	case res.a == nil:
		return "drop"
	}
	return fmt.Sprintf("rcode %d", res.a.Rcode)
}

func queryLogCase(r *vt.R, c int, dir string) {
	rnd := r.Rand("querylog", c)
	format := vt.Pick(rnd, rdns.LogFormatText, rdns.LogFormatJSON, "")
	file := filepath.Join(dir, "queries.log")
	label := fmt.Sprintf("query log case %d format %q", c, format)
	r.Case("%s", label)
	old := ""
	if rnd.Intn(2) == 0 { // an existing log is continued
		old = "an older line\n"
		if err := os.WriteFile(file, []byte(old), 0o644); err != nil {
			panic(err)
		}
	}
	e := newElement()
	el, err := rdns.NewQueryLogResolver("log", e, rdns.QueryLogResolverOptions{OutputFile: file, OutputFormat: format})
	if err != nil {
		r.Violation("construct", err.Error(), label)
		return
	}
	var want []string
	steps := passSteps(r, label, "passed through", rnd, 40, func(s *step, res result) {
		m := map[string]string{
			"source-ip":      s.ci.SourceIP.String(),
			"question-name":  s.q.Question[0].Name,
			"question-class": dns.Class(s.q.Question[0].Qclass).String(),
			"question-type":  dns.Type(s.q.Question[0].Qtype).String(),
		}
		if o := s.q.IsEdns0(); o != nil {
			var subnets []string
			for _, x := range o.Option {
				if sub, ok := x.(*dns.EDNS0_SUBNET); ok {
					subnets = append(subnets, sub.Address.String())
				}
			}
			if len(subnets) > 0 {
				m["ecs-addr"] = strings.Join(subnets, ",")
			}
		}
		want = append(want, line(m))
		r.Eval(fmt.Sprintf("query log %q %s ecs%v", format, kind(res), m["ecs-addr"] != ""))
	})
	e.drive(r, el, label, steps)
	b, err := os.ReadFile(file)
	if err != nil {
		r.Violation("log", err.Error(), label)
		return
	}
	text, ok := strings.CutPrefix(string(b), old)
	if !ok {
		r.Violation("log", "older lines were lost", label)
		return
	}
	var got []string
	for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		m, err := parseLog(l, format == rdns.LogFormatJSON)
		if err != nil {
			r.Violation("log-line", fmt.Sprintf("%v in %q", err, l), label)
			return
		}
		if m["time"] == "" {
			r.Violation("log-line", "no time in "+l, label)
			return
		}
		delete(m, "time")
		got = append(got, line(m))
	}
	compareLogs(r, label, want, got, "logged queries")
}

func compareLogs(r *vt.R, label string, want, got []string, what string) {
	sort.Strings(want)
	sort.Strings(got)
	for i := 0; i < max(len(want), len(got)); i++ {
		if i >= len(want) || i >= len(got) || want[i] != got[i] {
			w, g := "nothing", "nothing"
			if i < len(want) {
				w = want[i]
			}
			if i < len(got) {
				g = got[i]
			}
			r.Violation("log", fmt.Sprintf("%d lines wanted, %d found; first difference: want %s, got %s", len(want), len(got), w, g), label)
			return
		}
	}
	r.Observe(what, len(got))
}

func line(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// parseLog takes a line apart; repeated keys are joined.
func parseLog(l string, isJSON bool) (map[string]string, error) {
	m := map[string]string{}
	add := func(k, v string) {
		if old, ok := m[k]; ok {
			v = old + "," + v
		}
		m[k] = v
	}
	if isJSON {
		d := json.NewDecoder(strings.NewReader(l))
		if _, err := d.Token(); err != nil {
			return nil, err
		}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			v, err := d.Token()
			if err != nil {
				return nil, err
			}
			add(fmt.Sprint(k), fmt.Sprint(v))
		}
		return m, nil
	}
	for l != "" {
		k, rest, ok := strings.Cut(l, "=")
		if !ok {
			return nil, fmt.Errorf("no value")
		}
		var v string
		if strings.HasPrefix(rest, `"`) {
			if n, err := fmt.Sscanf(rest, "%q", &v); n != 1 {
				return nil, err
			}
			q, err := strconv.QuotedPrefix(rest)
			if err != nil {
				return nil, err
			}
			rest = rest[len(q):]
		} else {
			v, _, _ = strings.Cut(rest, " ")
			rest = rest[len(v):]
		}
		add(k, v)
		l = strings.TrimPrefix(rest, " ")
	}
	return m, nil
}

func syslogCase(r *vt.R, c int) {
	rnd := r.Rand("syslog", c)
	network := vt.Pick(rnd, "tcp", "unix")
	opt := rdns.SyslogOptions{Network: network, Priority: rnd.Intn(190), Tag: "tag" + vt.Label(rnd, 3), LogRequest: rnd.Intn(3) > 0, LogResponse: rnd.Intn(3) > 0, Verbose: rnd.Intn(2) == 0}
	label := fmt.Sprintf("syslog case %d %+v", c, opt)
	r.Case("%s", label)
	dir, err := os.MkdirTemp("", "syslog")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	addr := "127.0.0.1:0"
	if network == "unix" {
		addr = filepath.Join(dir, "s")
	}
	l, err := net.Listen(network, addr)
	if err != nil {
		panic(err)
	}
	var mu sync.Mutex
	var got []string
	done := make(chan struct{})
	const end = "type=query client=<nil> qtype=TXT qname=the.end."
	go func() {
		defer close(done)
		conn, err := l.Accept()
		if err != nil {
			return
		}
		defer conn.Close()
		s := bufio.NewScanner(conn)
		s.Buffer(nil, 1<<20)
		for s.Scan() {
			_, msg, ok := strings.Cut(s.Text(), "]: ")
			if !ok || !strings.Contains(s.Text(), opt.Tag+"[") {
				msg = "malformed " + s.Text()
			}
			if strings.HasSuffix(msg, "the.end. rcode=REFUSED") || strings.HasSuffix(msg, end) && !opt.LogResponse {
				return
			}
			if strings.Contains(msg, "the.end.") {
				continue
			}
			mu.Lock()
			got = append(got, strings.Replace(msg, "qtype=TYPE65280 ", "qtype= ", 1))
			mu.Unlock()
		}
	}()
	e := newElement()
	opt.Address = l.Addr().String()
	el := rdns.NewSyslog("sys", e, opt)
	var want []string
	nq, na := 0, 0
	steps := passSteps(r, label, "passed through", rnd, 40, func(s *step, res result) {
		name, typ := s.q.Question[0].Name, dns.TypeToString[s.q.Question[0].Qtype]
		if opt.LogRequest {
			want = append(want, fmt.Sprintf("id=sys qid=%d type=query client=%s qtype=%s qname=%s", s.q.Id, s.ci.SourceIP, typ, name))
			nq++
		}
		if opt.LogResponse && res.a != nil {
			head := fmt.Sprintf("id=sys qid=%d type=answer", s.q.Id)
			var rrs []string
			for _, rr := range res.a.Answer {
				if opt.Verbose || rr.Header().Rrtype == s.q.Question[0].Qtype {
					rrs = append(rrs, strings.ReplaceAll(rr.String(), "\t", " "))
				}
			}
			switch {
			case res.a.Rcode != 0:
				want = append(want, fmt.Sprintf("%s qtype=%s qname=%s rcode=%s", head, typ, name, dns.RcodeToString[res.a.Rcode]))
			case len(rrs) == 0:
				want = append(want, fmt.Sprintf("%s qtype=%s qname=%s rcode=NODATA", head, typ, name))
			default:
				for i, s := range rrs {
					want = append(want, fmt.Sprintf("%s answer-num=%d/%d qtype=%s qname=%s answer=%q", head, i+1, len(rrs), typ, name, s))
				}
			}
			na++
		}
		r.Eval(fmt.Sprintf("syslog %s %v%v%v %s", network, opt.LogRequest, opt.LogResponse, opt.Verbose, kind(res)))
	})
	e.drive(r, el, label, steps)
	if !opt.LogRequest && !opt.LogResponse {
		l.Close()
		return
	}
	// a last query tells where the log ends
	e.script[9999] = func(q *dns.Msg) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetRcode(q, dns.RcodeRefused)
		return a, nil
	}
	q := vt.Query("the.end.", dns.TypeTXT)
	q.Id = 9999
	if _, err := el.Resolve(q, rdns.ClientInfo{}); err != nil {
		r.Violation("result", err.Error(), label)
	}
	<-done
	l.Close()
	mu.Lock()
	defer mu.Unlock()
	before := len(want)
	compareLogs(r, label, want, got, "syslog lines")
	if before == len(got) {
		r.Observe("syslog requests", nq)
		r.Observe("syslog answers", na)
	}
}

// deadSyslog: no log server, or one that goes away, must not stop queries.
func deadSyslog(r *vt.R) {
	rnd := r.Rand("dead")
	for c := 0; c < 6; c++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		opt := rdns.SyslogOptions{Network: "tcp", Address: l.Addr().String(), LogRequest: true, LogResponse: true}
		label := fmt.Sprintf("dead syslog case %d", c)
		r.Case("%s", label)
		if c%2 == 0 {
			l.Close()
		}
		e := newElement()
		el := rdns.NewSyslog("sys", e, opt)
		if c%2 == 1 {
			conn, err := l.Accept()
			if err != nil {
				panic(err)
			}
			conn.(*net.TCPConn).SetLinger(0)
			conn.Close()
			l.Close()
		}
		steps := passSteps(r, label, "passed without a log server", rnd, 40, func(s *step, res result) { r.Eval("dead " + kind(res)) })
		e.drive(r, el, label, steps)
	}
}
