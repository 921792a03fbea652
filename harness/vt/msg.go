package vt

import (
	"fmt"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
)

// Query builds a standard query.
func Query(name string, qtype uint16) *dns.Msg {
	q := new(dns.Msg)
	q.SetQuestion(name, qtype)
	return q
}

// RR parses a record or panics; the text is the harness's own.
func RR(format string, args ...any) dns.RR {
	s := fmt.Sprintf(format, args...)
	rr, err := dns.NewRR(s)
	if err != nil {
		panic(fmt.Sprintf("bad RR %q: %v", s, err))
	}
	if rr == nil {
		panic("empty RR " + s)
	}
	return rr
}

// RRString is a record without its TTL.
func RRString(rr dns.RR) string {
	if rr == nil {
		return "<nil>"
	}
	if o, ok := rr.(*dns.OPT); ok {
		return "OPT " + strings.Join(strings.Fields(o.String()), " ")
	}
	c := dns.Copy(rr)
	c.Header().Ttl = 0
	return strings.Join(strings.Fields(c.String()), " ")
}

// RRStrings renders records with TTLs, in order.
func RRStrings(rrs []dns.RR) []string {
	out := make([]string, 0, len(rrs))
	for _, rr := range rrs {
		if rr == nil {
			out = append(out, "<nil>")
			continue
		}
		out = append(out, strings.Join(strings.Fields(rr.String()), " "))
	}
	return out
}

// Canon is a full rendering of a message except its ID.
func Canon(m *dns.Msg) string {
	if m == nil {
		return "<nil>"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "op=%d rc=%d qr=%v aa=%v tc=%v rd=%v ra=%v ad=%v cd=%v", m.Opcode, m.Rcode, m.Response, m.Authoritative, m.Truncated, m.RecursionDesired, m.RecursionAvailable, m.AuthenticatedData, m.CheckingDisabled)
	for _, q := range m.Question {
		fmt.Fprintf(&b, " Q[%s %d %d]", q.Name, q.Qtype, q.Qclass)
	}
	for i, s := range [][]dns.RR{m.Answer, m.Ns, m.Extra} {
		for _, rr := range RRStrings(s) {
			fmt.Fprintf(&b, " %d{%s}", i, rr)
		}
	}
	return b.String()
}

// CanonID includes the ID.
func CanonID(m *dns.Msg) string {
	if m == nil {
		return "<nil>"
	}
	return fmt.Sprintf("id=%d %s", m.Id, Canon(m))
}

// SameMultiset compares two string lists ignoring order.
func SameMultiset(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	x := append([]string(nil), a...)
	y := append([]string(nil), b...)
	sort.Strings(x)
	sort.Strings(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// MixCase flips the case of letters.
func MixCase(rnd *rand.Rand, s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' && rnd.Intn(2) == 0 {
			// leave escapes such as \123 and \. alone: only letters change
			b[i] = c - 32
		}
	}
	return string(b)
}

// AddECS adds an EDNS0 client subnet option.
func AddECS(q *dns.Msg, ip string, mask uint8) {
	o := q.IsEdns0()
	if o == nil {
		q.SetEdns0(1232, false)
		o = q.IsEdns0()
	}
	addr := net.ParseIP(ip)
	e := &dns.EDNS0_SUBNET{Code: dns.EDNS0SUBNET, SourceNetmask: mask, Address: addr}
	if a4 := addr.To4(); a4 != nil {
		e.Family = 1
		e.Address = a4
	} else {
		e.Family = 2
	}
	o.Option = append(o.Option, e)
}

// Func adapts a function to the resolver interface.
type Func struct {
	Name string
	F    func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error)
	mu   sync.Mutex
	hits int
}

func (f *Func) Resolve(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
	f.mu.Lock()
	f.hits++
	f.mu.Unlock()
	return f.F(q, ci)
}

func (f *Func) String() string { return f.Name }

// Hits is the number of queries seen.
func (f *Func) Hits() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.hits
}

var _ rdns.Resolver = &Func{}

// Result of a resolver call.
type Result struct {
	A   *dns.Msg
	Err error
}

// ResolveVirtual calls the resolver with a watchdog on virtual time: a call
// that does not return although every timer has had its turn never will.
func ResolveVirtual(rs rdns.Resolver, q *dns.Msg, ci rdns.ClientInfo, limit time.Duration) (Result, bool) {
	done := make(chan Result, 1)
	go func() {
		a, err := rs.Resolve(q, ci)
		done <- Result{a, err}
	}()
	tm := time.NewTimer(limit)
	defer tm.Stop()
	select {
	case res := <-done:
		return res, true
	case <-tm.C:
		return Result{}, false
	}
}

// ErrString renders an error for reports.
func ErrString(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}

// Label makes a random label.
func Label(rnd *rand.Rand, n int) string {
	const cs = "abcdefghijklmnopqrstuvwxyz0123456789"
	b := make([]byte, n)
	for i := range b {
		b[i] = cs[rnd.Intn(len(cs))]
	}
	return string(b)
}

// Pick chooses one element.
func Pick[T any](rnd *rand.Rand, xs ...T) T { return xs[rnd.Intn(len(xs))] }
