// Package lists drives the blocklist elements and compares them with plain
// reference matchers.
package lists

import (
	"fmt"
	"math/rand"
	"net"
	"strconv"
	"strings"

	"github.com/miekg/dns"

	"verif/harness/vt"
)

// labelsOf splits a name into labels, without help from the code under test.
func labelsOf(name string) []string {
	name = strings.ToLower(name)
	var out []string
	cur := ""
	for i := 0; i < len(name); i++ {
		switch {
		case name[i] == '\\' && i+1 < len(name):
			cur += name[i : i+2]
			i++
		case name[i] == '.':
			if cur != "" {
				out = append(out, cur)
			}
			cur = ""
		default:
			cur += string(name[i])
		}
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

// under: name is domain or below it; proper excludes domain itself.
func under(name, domain []string, proper bool) bool {
	if len(name) < len(domain) || proper && len(name) == len(domain) {
		return false
	}
	for i := 1; i <= len(domain); i++ {
		if name[len(name)-i] != domain[len(domain)-i] {
			return false
		}
	}
	return true
}

// list is a rule list of one format with its meaning.
type list struct {
	format string
	name   string
	lines  []string
	// match says if the message matches, and by which rules
	match func(q *dns.Msg) (rules []string, ok bool)
	// hosts only
	ip4, ip6 map[string][]string
	ptr      map[string][]string
}

func domainRule(rule string, name []string, sub bool) bool {
	rule = strings.TrimSuffix(strings.ToLower(rule), ".")
	switch {
	case strings.HasPrefix(rule, "*."):
		return under(name, labelsOf(rule[2:]), true)
	case strings.HasPrefix(rule, "."):
		return under(name, labelsOf(rule[1:]), false)
	case sub:
		return under(name, labelsOf(rule), false)
	}
	d := labelsOf(rule)
	return len(d) == len(name) && under(name, d, false)
}

var pool = []string{"a", "b", "ab", "com", "evil", "x", "www", "net"}

func randomName(rnd *rand.Rand) string {
	s := ""
	for i := 1 + rnd.Intn(4); i > 0; i-- {
		s += vt.Pick(rnd, pool...) + "."
	}
	switch rnd.Intn(20) {
	case 0:
		return "."
	case 1:
		return `a\.` + s
	case 2:
		return `*.` + s
	case 3:
		return `\..` + s
	}
	return s
}

func domainList(rnd *rand.Rand, name string, n int) *list {
	l := &list{format: vt.Pick(rnd, "domain", "domain-subdomain"), name: name}
	var rules []string
	for i := 0; i < n; i++ {
		s := strings.TrimSuffix(randomName(rnd), ".")
		if s == "" || strings.ContainsAny(s, `\*`) {
			continue
		}
		r := vt.Pick(rnd, "", "", ".", "*.") + s
		rules = append(rules, r)
		switch rnd.Intn(6) {
		case 0:
			r = vt.MixCase(rnd, r) + "."
		case 1:
			r = "  " + r + "\t"
		case 2:
			l.lines = append(l.lines, vt.Pick(rnd, "", "  ", "# comment", "# see *.evil.com for more"))
		}
		l.lines = append(l.lines, r)
	}
	sub := l.format == "domain-subdomain"
	l.match = func(q *dns.Msg) (out []string, ok bool) {
		name := labelsOf(q.Question[0].Name)
		for _, r := range rules {
			if domainRule(r, name, sub) {
				ok = true
				out = append(out, r)
				if sub && !strings.HasPrefix(r, "*") && !strings.HasPrefix(r, ".") {
					out = append(out, "."+r)
				}
			}
		}
		return
	}
	return l
}

type expr struct {
	re string
	ok func(string) bool
}

var exprs = []expr{
	{`(^|\.)evil\.com\.$`, func(s string) bool { return s == "evil.com." || strings.HasSuffix(s, ".evil.com.") }},
	{`(?i)^WWW\.`, func(s string) bool { return strings.HasPrefix(s, "www.") }},
	{`ab`, func(s string) bool { return strings.Contains(s, "ab") }},
	{`^x\.net\.$`, func(s string) bool { return s == "x.net." }},
	{`^[ab]\.[ab]\.`, func(s string) bool {
		return len(s) > 3 && (s[0] == 'a' || s[0] == 'b') && s[1] == '.' && (s[2] == 'a' || s[2] == 'b') && s[3] == '.'
	}},
	{`NET`, func(s string) bool { return false }}, // names are matched in lower case
}

func regexpList(rnd *rand.Rand, name string, n int) *list {
	l := &list{format: "regexp", name: name}
	var use []expr
	for i := 0; i < n && i < 3; i++ {
		e := vt.Pick(rnd, exprs...)
		use = append(use, e)
		l.lines = append(l.lines, vt.Pick(rnd, "", " ")+e.re)
		if rnd.Intn(3) == 0 {
			l.lines = append(l.lines, vt.Pick(rnd, "", " ", "#.*", "# any"))
		}
	}
	l.match = func(q *dns.Msg) (out []string, ok bool) {
		s := strings.ToLower(q.Question[0].Name)
		for _, e := range use {
			if e.ok(s) {
				out, ok = append(out, e.re), true
			}
		}
		return
	}
	return l
}

func reverse(ip net.IP) string {
	s := ""
	if a := ip.To4(); a != nil {
		for i := 3; i >= 0; i-- {
			s += strconv.Itoa(int(a[i])) + "."
		}
		return s + "in-addr.arpa."
	}
	for i := 15; i >= 0; i-- {
		s += fmt.Sprintf("%x.%x.", ip[i]&15, ip[i]>>4)
	}
	return s + "ip6.arpa."
}

var hostIPs = []string{"0.0.0.0", "::", "192.0.2.1", "192.0.2.2", "10.0.0.1", "2001:db8::1", "2001:db8::2"}

func hostsList(rnd *rand.Rand, name string, n int) *list {
	l := &list{format: "hosts", name: name, ip4: map[string][]string{}, ip6: map[string][]string{}, ptr: map[string][]string{}}
	blocked := map[string]bool{}
	for i := 0; i < n; i++ {
		ip := vt.Pick(rnd, hostIPs...)
		if rnd.Intn(8) == 0 {
			ip = fmt.Sprintf("192.0.2.%d", 10+rnd.Intn(40))
		}
		line := ip
		a := net.ParseIP(ip)
		for k := 1 + rnd.Intn(3); k > 0; k-- {
			s := strings.TrimSuffix(randomName(rnd), ".")
			if s == "" || strings.ContainsAny(s, `\*`) {
				continue
			}
			if len(l.ip4[s]) >= 10 || len(l.ip6[s]) >= 10 {
				continue
			}
			w := s
			if rnd.Intn(3) == 0 {
				w = vt.MixCase(rnd, s) + vt.Pick(rnd, "", ".")
			}
			line += vt.Pick(rnd, " ", "\t", "   ") + w
			blocked[s] = true
			rev := reverse(a)
			l.ptr[rev] = append(l.ptr[rev], s+".")
			if a.IsUnspecified() {
				continue
			}
			if a.To4() != nil {
				l.ip4[s] = append(l.ip4[s], a.String())
			} else {
				l.ip6[s] = append(l.ip6[s], a.String())
			}
		}
		if rnd.Intn(5) == 0 {
			line += vt.Pick(rnd, " # www.com x.net", "#ab.com", "\t# x")
		}
		if rnd.Intn(6) == 0 {
			l.lines = append(l.lines, vt.Pick(rnd, "", "# 0.0.0.0 www.com", "0.0.0.0", "   "))
		}
		l.lines = append(l.lines, vt.Pick(rnd, "", " ")+line)
	}
	l.match = func(q *dns.Msg) ([]string, bool) {
		s := strings.ToLower(q.Question[0].Name)
		if q.Question[0].Qtype == dns.TypePTR {
			return nil, len(l.ptr[s]) > 0
		}
		s = strings.TrimSuffix(s, ".")
		return []string{s}, blocked[s]
	}
	return l
}

func macList(rnd *rand.Rand, name string, n int) *list {
	l := &list{format: "mac", name: name}
	set := map[string]bool{}
	for i := 0; i < n; i++ {
		m := randomMAC(rnd)
		set[string(m)] = true
		s := net.HardwareAddr(m).String()
		if rnd.Intn(2) == 0 {
			s = strings.ToUpper(s)
		}
		l.lines = append(l.lines, s)
		if rnd.Intn(4) == 0 {
			l.lines = append(l.lines, vt.Pick(rnd, "", "# 00:00:00:00:00:00", " "))
		}
	}
	l.match = func(q *dns.Msg) ([]string, bool) {
		o := q.IsEdns0()
		if o == nil {
			return nil, false
		}
		for _, e := range o.Option {
			if e, ok := e.(*dns.EDNS0_LOCAL); ok && e.Code == 65001 && len(e.Data) == 6 && set[string(e.Data)] {
				return []string{fmt.Sprintf("%x", e.Data)}, true
			}
		}
		return nil, false
	}
	return l
}

func randomMAC(rnd *rand.Rand) []byte { return []byte{2, 0xab, 0, 0, 0, byte(rnd.Intn(12))} }

func randomList(rnd *rand.Rand, name string) *list {
	n := rnd.Intn(12)
	switch rnd.Intn(5) {
	case 0, 1:
		return domainList(rnd, name, n)
	case 2:
		return regexpList(rnd, name, n)
	case 3:
		return hostsList(rnd, name, n)
	}
	return macList(rnd, name, n)
}

func parseIP(s string) net.IP { return net.ParseIP(s) }
