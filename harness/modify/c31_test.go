package modify

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"net"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// TestC31: a script sees and makes messages as they are, one script error
// stays with its query, and scripts cannot leave their sandbox.
func TestC31(t *testing.T) {
	r := vt.Start(t, "C31", "one query through a script per evaluation: records and options of every type read and rebuilt, header fields read and set, failing scripts between working ones, parallel queries; non-trivial always, distinct by (kind of script, record or option type, mistake, size of the pool)")
	r.Need("records read and rebuilt", 500)
	r.Need("options read and rebuilt", 100)
	r.Need("messages read and set", 200)
	r.Need("messages changed by scripts", 200)
	r.Need("passed through", 300)
	r.Need("script errors", 6000)
	r.Need("answers after script errors", 150)
	r.Need("names out of reach", 20)
	r.Need("constants", 100)
	r.Need("parallel queries", 500)
	passCase(r)
	constants(r)
	sandbox(r)
	mistakes(r)
	construct(r)
	for c := 0; c < r.N(10, 200); c++ {
		recordCase(r, c)
		optionCase(r, c)
		for i := 0; i < 40; i++ {
			messageCase(r, c*40+i)
		}
	}
	vt.Virtual(t, r, func(t *testing.T) {
		for c := 0; c < r.N(20, 400); c++ {
			poolCase(r, c)
		}
	})
}

func lua(r *vt.R, label, script string, n uint, up ...rdns.Resolver) rdns.Resolver {
	el, err := rdns.NewLua("lua", rdns.LuaOptions{Script: script, Concurrency: n}, up...)
	if err != nil {
		r.Violation("construct", fmt.Sprintf("script\n%s\nfailed: %v", script, err), label)
		return nil
	}
	return el
}

// passCase: scripts that only pick a resolver are transparent.
func passCase(r *vt.R) {
	rnd := r.Rand("pass")
	for c := 0; c < r.N(10, 200); c++ {
		n := 1 + rnd.Intn(3)
		var els []*element
		var ups []rdns.Resolver
		for i := 0; i < n; i++ {
			e := newElement()
			els, ups = append(els, e), append(ups, e)
		}
		pick := rnd.Intn(n)
		label := fmt.Sprintf("pass case %d", c)
		r.Case("%s", label)
		el := lua(r, label, fmt.Sprintf(`function Resolve(msg, ci)
			if #Resolvers ~= %d then error("resolvers") end
			return Resolvers[%d]:resolve(msg, ci)
		end`, n, pick+1), uint(rnd.Intn(3)), ups...)
		if el == nil {
			return
		}
		var steps []step
		for i := 0; i < 40; i++ {
			q := query(rnd)
			res := outcome(rnd, q)
			s := step{q: q, ci: client(rnd)}
			s.f = func(*dns.Msg) (*dns.Msg, error) { return res.copy() }
			s.judge = func(got result, seen []sighting) {
				if same(r, "pass-result", label, q, res, got) && passed(r, label, &s, seen, q) {
					r.Observe("passed through", 1)
					r.Eval(fmt.Sprintf("pass %d err%v drop%v", n, res.err != nil, res.a == nil))
				}
			}
			steps = append(steps, s)
		}
		els[pick].drive(r, el, label, steps)
	}
}

// literal writes a value as Lua text.
func literal(v any) string {
	switch x := v.(type) {
	case string:
		var b strings.Builder
		b.WriteByte('"')
		for i := 0; i < len(x); i++ {
			fmt.Fprintf(&b, "\\%03d", x[i])
		}
		b.WriteByte('"')
		return b.String()
	case []byte:
		return literal(string(x))
	case net.IP:
		if x == nil {
			return "nil"
		}
		return literal(x.String())
	case []string, []uint16:
		s := reflect.ValueOf(x)
		var l []string
		for i := 0; i < s.Len(); i++ {
			l = append(l, literal(s.Index(i).Interface()))
		}
		return "{" + strings.Join(l, ", ") + "}"
	}
	return fmt.Sprint(v)
}

const library = `
local function check(what, got, want)
	if type(want) == "table" then
		if type(got) ~= "table" or #got ~= #want then error(what .. " has the wrong size") end
		for i, v in ipairs(want) do check(what .. "[" .. i .. "]", got[i], v) end
		return
	end
	if got ~= want then error(what .. " is " .. tostring(got) .. " instead of " .. tostring(want)) end
end
`

type field struct {
	name  string
	value any
}

// fill sets every field of a record that scripts can reach, and lists them.
func fill(rnd *rand.Rand, v reflect.Value) []field {
	var out []field
	for i := 0; i < v.NumField(); i++ {
		f, t := v.Field(i), v.Type().Field(i)
		if t.Name == "Hdr" || !t.IsExported() {
			continue
		}
		if t.Anonymous {
			out = append(out, fill(rnd, f)...)
			continue
		}
		var x any
		switch f.Interface().(type) {
		case string:
			x = vt.Label(rnd, 1+rnd.Intn(10)) + "."
		case uint8:
			x = uint8(rnd.Intn(256))
		case uint16:
			x = uint16(rnd.Intn(1 << 16))
		case uint32:
			x = rnd.Uint32()
		case uint64:
			x = uint64(rnd.Int63n(1 << 48))
		case net.IP:
			x = ip4(rnd)
			if t.Name == "AAAA" {
				x = ip6(rnd)
			}
		case []string:
			l := []string{}
			for n := rnd.Intn(4); n > 0; n-- {
				l = append(l, vt.Label(rnd, 1+rnd.Intn(10)))
			}
			x = l
		case []uint16:
			l := []uint16{}
			for n := rnd.Intn(4); n > 0; n-- {
				l = append(l, uint16(rnd.Intn(300)))
			}
			x = l
		default:
			continue
		}
		f.Set(reflect.ValueOf(x))
		out = append(out, field{strings.ToLower(t.Name), x})
	}
	return out
}

// recordCase reads and rebuilds one record of each type.
func recordCase(r *vt.R, c int) {
	rnd := r.Rand("record", c)
	var types []int
	for t := range dns.TypeToRR {
		if t != dns.TypeOPT && t != dns.TypeANY {
			types = append(types, int(t))
		}
	}
	sort.Ints(types)
	for _, t := range types {
		rr := dns.TypeToRR[uint16(t)]()
		*rr.Header() = dns.RR_Header{Name: vt.Label(rnd, 5) + ".test.", Rrtype: uint16(t), Class: uint16(1 + rnd.Intn(4)), Ttl: ttl(rnd)}
		fields := append(fill(rnd, reflect.ValueOf(rr).Elem()), field{"name", rr.Header().Name}, field{"class", rr.Header().Class}, field{"ttl", rr.Header().Ttl})
		name := dns.TypeToString[uint16(t)]
		label := fmt.Sprintf("record %s case %d: %s", name, c, rr)
		r.Case("%s", label)
		var check, table, set strings.Builder
		for _, f := range fields {
			fmt.Fprintf(&check, "\tcheck(%q, rr.%s, %s)\n", f.name, f.name, literal(f.value))
			fmt.Fprintf(&table, ", %s = %s", f.name, literal(f.value))
			fmt.Fprintf(&set, "\ttwo.%s = %s\n", f.name, literal(f.value))
		}
		script := fmt.Sprintf(`%s
function Resolve(msg, ci)
	local up, err = Resolvers[1]:resolve(msg, ci)
	if err ~= nil then return nil, err end
	local rr = up.answer[1]
	check("rtype", rr.rtype, %d)
%s
	local one = RR.new({rtype = %d%s})
	local two = RR.new({rtype = %d})
%s
	local out = Message.new()
	out:set_reply(msg)
	out.answer = {one, two}
	out.ns = {two, rr}
	out.extra = {one}
	return out, nil
end`, library, t, check.String(), t, table.String(), t, set.String())
		up := &vt.Func{Name: "up", F: func(q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
			a := new(dns.Msg)
			a.SetReply(q)
			a.Answer = []dns.RR{dns.Copy(rr)}
			return a, nil
		}}
		el := lua(r, label, script, 1, up)
		if el == nil {
			return
		}
		a, err := el.Resolve(query(rnd), client(rnd))
		if err != nil || a == nil {
			r.Violation("record-script", fmt.Sprintf("%v, %v\n%s", a, err, script), label)
			continue
		}
		want := rr.String()
		if len(a.Answer) != 2 || len(a.Ns) != 2 || len(a.Extra) != 1 {
			r.Violation("record-lost", vt.Canon(a), label)
			continue
		}
		ok := true
		for _, x := range []dns.RR{a.Answer[0], a.Answer[1], a.Ns[0], a.Ns[1], a.Extra[0]} {
			if x.String() != want || !sameWire(x, rr) || reflect.TypeOf(x) != reflect.TypeOf(rr) {
				ok = false
				r.Violation("record-differs", fmt.Sprintf("built %s, want %s", x, want), label)
				break
			}
		}
		if ok {
			r.Observe("records read and rebuilt", 1)
			r.Eval("record " + name)
		}
	}
}

// sameWire compares packed records, when both can be packed.
func sameWire(a, b dns.RR) bool {
	x, y := make([]byte, 65535), make([]byte, 65535)
	n, err1 := dns.PackRR(a, x, 0, nil, false)
	m, err2 := dns.PackRR(b, y, 0, nil, false)
	if err1 != nil || err2 != nil {
		return (err1 == nil) == (err2 == nil)
	}
	return string(x[:n]) == string(y[:m])
}

type optionSpec struct {
	name   string
	make   func(rnd *rand.Rand) (dns.EDNS0, []field)
	noread string // a field that is only set when made
}

func hexstr(rnd *rand.Rand) string {
	b := make([]byte, 1+rnd.Intn(16))
	rnd.Read(b)
	return hex.EncodeToString(b)
}

func algs(rnd *rand.Rand) []uint8 {
	b := make([]uint8, 1+rnd.Intn(5))
	rnd.Read(b)
	return b
}

func wide(b []uint8) []uint16 {
	var l []uint16
	for _, x := range b {
		l = append(l, uint16(x))
	}
	return l
}

var optionSpecs = []optionSpec{
	{name: "EDNS0_COOKIE", make: func(rnd *rand.Rand) (dns.EDNS0, []field) {
		s := hexstr(rnd)
		return &dns.EDNS0_COOKIE{Code: dns.EDNS0COOKIE, Cookie: s}, []field{{"cookie", s}}
	}},
	{name: "EDNS0_DAU", make: func(rnd *rand.Rand) (dns.EDNS0, []field) {
		s := algs(rnd)
		return &dns.EDNS0_DAU{Code: dns.EDNS0DAU, AlgCode: s}, []field{{"algcode", wide(s)}}
	}},
	{name: "EDNS0_DHU", make: func(rnd *rand.Rand) (dns.EDNS0, []field) {
		s := algs(rnd)
		return &dns.EDNS0_DHU{Code: dns.EDNS0DHU, AlgCode: s}, []field{{"algcode", wide(s)}}
	}},
	{name: "EDNS0_N3U", make: func(rnd *rand.Rand) (dns.EDNS0, []field) {
		s := algs(rnd)
		return &dns.EDNS0_N3U{Code: dns.EDNS0N3U, AlgCode: s}, []field{{"algcode", wide(s)}}
	}},
	{name: "EDNS0_EDE", make: func(rnd *rand.Rand) (dns.EDNS0, []field) {
		c, s := uint16(rnd.Intn(1<<16)), vt.Label(rnd, 9)
		return &dns.EDNS0_EDE{InfoCode: c, ExtraText: s}, []field{{"infocode", c}, {"extratext", s}}
	}},
	{name: "EDNS0_ESU", make: func(rnd *rand.Rand) (dns.EDNS0, []field) {
		s := "sip:" + vt.Label(rnd, 9)
		return &dns.EDNS0_ESU{Code: dns.EDNS0ESU, Uri: s}, []field{{"uri", s}}
	}},
	{name: "EDNS0_EXPIRE", make: func(rnd *rand.Rand) (dns.EDNS0, []field) {
		n := rnd.Uint32()
		return &dns.EDNS0_EXPIRE{Code: dns.EDNS0EXPIRE, Expire: n}, []field{{"expire", n}}
	}},
	{name: "EDNS0_LLQ", make: func(rnd *rand.Rand) (dns.EDNS0, []field) {
		a, b, c, d, e := uint16(rnd.Intn(1<<16)), uint16(rnd.Intn(1<<16)), uint16(rnd.Intn(1<<16)), uint64(rnd.Int63n(1<<48)), rnd.Uint32()
		return &dns.EDNS0_LLQ{Code: dns.EDNS0LLQ, Version: a, Opcode: b, Error: c, Id: d, LeaseLife: e}, []field{{"version", a}, {"opcode", b}, {"error", c}, {"id", d}, {"leaselife", e}}
	}},
	{name: "EDNS0_LOCAL", make: func(rnd *rand.Rand) (dns.EDNS0, []field) {
		c, s := uint16(65001+rnd.Intn(500)), []byte(hexstr(rnd)+"\x00\xff\"\\")
		return &dns.EDNS0_LOCAL{Code: c, Data: s}, []field{{"code", c}, {"data", s}}
	}},
	{name: "EDNS0_NSID", make: func(rnd *rand.Rand) (dns.EDNS0, []field) {
		s := hexstr(rnd)
		return &dns.EDNS0_NSID{Code: dns.EDNS0NSID, Nsid: s}, []field{{"nsid", s}}
	}},
	{name: "EDNS0_PADDING", make: func(rnd *rand.Rand) (dns.EDNS0, []field) {
		s := make([]byte, rnd.Intn(50))
		return &dns.EDNS0_PADDING{Padding: s}, []field{{"padding", s}}
	}},
	{name: "EDNS0_SUBNET", make: func(rnd *rand.Rand) (dns.EDNS0, []field) {
		s := subnet(rnd)
		s.SourceScope = uint8(rnd.Intn(20))
		return s, []field{{"family", s.Family}, {"sourcenetmask", s.SourceNetmask}, {"sourcescope", s.SourceScope}, {"address", s.Address}}
	}},
	{name: "EDNS0_TCP_KEEPALIVE", make: func(rnd *rand.Rand) (dns.EDNS0, []field) {
		n := uint16(1 + rnd.Intn(1<<15))
		return &dns.EDNS0_TCP_KEEPALIVE{Code: dns.EDNS0TCPKEEPALIVE, Timeout: n}, []field{{"timeout", n}}
	}},
	{name: "EDNS0_UL", make: func(rnd *rand.Rand) (dns.EDNS0, []field) {
		a, b := rnd.Uint32(), rnd.Uint32()
		return &dns.EDNS0_UL{Code: dns.EDNS0UL, Lease: a, KeyLease: b}, []field{{"lease", a}, {"keylease", b}}
	}},
}

// optionCase reads and rebuilds options of each kind, along with their OPT.
func optionCase(r *vt.R, c int) {
	rnd := r.Rand("option", c)
	for _, spec := range optionSpecs {
		o1, f1 := spec.make(rnd)
		o2, _ := vt.Pick(rnd, optionSpecs...).make(rnd)
		size, do := uint16(rnd.Intn(1<<16)), rnd.Intn(2) == 0
		q := vt.Query("x.test.", dns.TypeA)
		q.SetEdns0(size, do)
		q.IsEdns0().Option = []dns.EDNS0{o1, o2}
		label := fmt.Sprintf("option %s case %d: %s", spec.name, c, q.IsEdns0())
		r.Case("%s", label)
		var check, set strings.Builder
		var args []string
		for _, f := range f1 {
			fmt.Fprintf(&check, "\tcheck(%q, o.%s, %s)\n", f.name, f.name, literal(f.value))
			fmt.Fprintf(&set, "\ttwo.%s = %s\n", f.name, literal(f.value))
			args = append(args, literal(f.value))
		}
		script := fmt.Sprintf(`%s
function Resolve(msg, ci)
	local opt = msg:is_edns0()
	check("udp_size", opt.udp_size, %d)
	check("do_bit", opt.do_bit, %v)
	check("version", opt.version, 0)
	check("extended_rcode", opt.extended_rcode, 0)
	check("name", opt.name, ".")
	check("rtype", opt.rtype, TypeOPT)
	check("options", #opt.option, 2)
	local o = opt.option[1]
	check("option", o.option, %d)
%s
	local one = %s.new(%s)
	local two = %s.new()
%s
	local out = Message.new()
	out:set_reply(msg)
	out:set_edns0(%d, %v)
	out:is_edns0().option = {one, two, opt.option[2]}
	local opt2 = OPT.new(%d, %v)
	opt2.version = 3
	opt2.extended_rcode = 0x170
	opt2.option = {two, o}
	opt2.do_bit = not opt2.do_bit
	opt2.udp_size = %d
	local fresh = Message.new()
	check("no opt", fresh:is_edns0(), nil)
	out.ns = {opt2}
	return out, nil
end`, library, size, do, o1.Option(), check.String(), spec.name, strings.Join(args, ", "), spec.name, set.String(), size, do, size/2, do, size/3)
		el := lua(r, label, script, 1)
		if el == nil {
			return
		}
		a, err := el.Resolve(q.Copy(), client(rnd))
		if err != nil || a == nil {
			r.Violation("option-script", fmt.Sprintf("%v, %v\n%s", a, err, script), label)
			continue
		}
		want := new(dns.Msg)
		want.SetReply(q)
		want.SetEdns0(size, do)
		want.IsEdns0().Option = []dns.EDNS0{o1, o1, o2}
		extra := &dns.OPT{Hdr: dns.RR_Header{Name: ".", Rrtype: dns.TypeOPT}, Option: []dns.EDNS0{o1, o1}}
		extra.SetUDPSize(size / 3)
		extra.SetDo(!do)
		extra.SetVersion(3)
		extra.SetExtendedRcode(0x170)
		want.Ns = []dns.RR{extra}
		w, err1 := want.Pack()
		g, err2 := a.Pack()
		if err1 != nil {
			panic(err1)
		}
		if err2 != nil || string(w) != string(g) {
			r.Violation("option-differs", fmt.Sprintf("%v want %s\ngot %s", err2, want, a), label)
			continue
		}
		r.Observe("options read and rebuilt", 1)
		r.Eval("option " + spec.name)
	}
}

// messageCase: headers, questions and client details.
func messageCase(r *vt.R, c int) {
	rnd := r.Rand("message", c)
	q := query(rnd)
	q.Rcode = rnd.Intn(16)
	q.RecursionAvailable, q.Authoritative, q.Response = rnd.Intn(2) == 0, rnd.Intn(2) == 0, rnd.Intn(2) == 0
	ci := client(rnd)
	ci.ListenerAddr = vt.Label(rnd, 8)
	if rnd.Intn(5) == 0 {
		ci.SourceIP = nil
	}
	b := func() bool { return rnd.Intn(2) == 0 }
	want := new(dns.Msg)
	want.Id, want.Rcode = uint16(rnd.Intn(1<<16)), rnd.Intn(16)
	want.Response, want.RecursionDesired, want.RecursionAvailable, want.Authoritative, want.AuthenticatedData = b(), b(), b(), b(), b()
	want.Question = []dns.Question{{Name: vt.Label(rnd, 3) + ".", Qtype: uint16(rnd.Intn(300)), Qclass: uint16(rnd.Intn(300))}, {Name: q.Question[0].Name, Qtype: 7, Qclass: 1}}
	name, qtype := vt.Label(rnd, 5)+".", uint16(rnd.Intn(300))
	script := fmt.Sprintf(`%s
function Resolve(msg, ci)
	check("id", msg.id, %d)
	check("response", msg.response, %v)
	check("rcode", msg.rcode, %d)
	check("recursion_desired", msg.recursion_desired, %v)
	check("recursion_available", msg.recursion_available, %v)
	check("authoritative", msg.authoritative, %v)
	check("authenticated_data", msg.authenticated_data, %v)
	check("questions", #msg.questions, 1)
	check("name", msg.questions[1].name, %s)
	check("qtype", msg.questions[1].qtype, %d)
	check("qclass", msg.questions[1].qclass, %d)
	check("extra", #msg.extra, %d)
	check("answer", #msg.answer, 0)
	check("ns", #msg.ns, 0)
	check("source_ip", ci.source_ip, %s)
	check("doh_path", ci.doh_path, %s)
	check("tls_server_name", ci.tls_server_name, %s)
	check("listener", ci.listener, %s)
	check("protocol", ci.protocol, %s)
	check("listener_addr", ci.listener_addr, %s)
	local m = Message.new()
	m.id = %d
	m.response = %v
	m.rcode = %d
	m.recursion_desired = %v
	m.recursion_available = %v
	m.authoritative = %v
	m.authenticated_data = %v
	local second = Question.new(msg.questions[1].name)
	second.qtype = TypeMB
	second.qclass = ClassIN
	m.questions = {Question.new(%s, %d, %d), second}
	local asked = Message.new()
	asked:set_question(%s, %d)
	local sent, err = Resolvers[1]:resolve(asked, ci)
	check("no error", err, nil)
	m.questions[2].qtype = 7
	return m, nil
end`, library, q.Id, q.Response, q.Rcode, q.RecursionDesired, q.RecursionAvailable, q.Authoritative, q.AuthenticatedData,
		literal(q.Question[0].Name), q.Question[0].Qtype, q.Question[0].Qclass, len(q.Extra),
		literal(ci.SourceIP), literal(ci.DoHPath), literal(ci.TLSServerName), literal(ci.Listener), literal(ci.Protocol), literal(ci.ListenerAddr),
		want.Id, want.Response, want.Rcode, want.RecursionDesired, want.RecursionAvailable, want.Authoritative, want.AuthenticatedData,
		literal(want.Question[0].Name), want.Question[0].Qtype, want.Question[0].Qclass, literal(name), qtype)
	label := fmt.Sprintf("message case %d", c)
	r.Case("%s", label)
	up := &vt.Func{Name: "up", F: func(q *dns.Msg, got rdns.ClientInfo) (*dns.Msg, error) {
		if len(q.Question) != 1 || q.Question[0] != (dns.Question{Name: name, Qtype: qtype, Qclass: 1}) || !q.RecursionDesired || q.Response {
			return nil, fmt.Errorf("unexpected query %s", vt.CanonID(q))
		}
		if fmt.Sprint(got) != fmt.Sprint(ci) {
			return nil, fmt.Errorf("unexpected client %v", got)
		}
		return q, nil
	}}
	el := lua(r, label, script, 1, up)
	if el == nil {
		return
	}
	before := vt.CanonID(q)
	a, err := el.Resolve(q, ci)
	if err != nil || a == nil || vt.CanonID(a) != vt.CanonID(want) || up.Hits() != 1 {
		r.Violation("message", fmt.Sprintf("%v\nwant %s\ngot  %s", err, vt.CanonID(want), result{a, err}), label+"\n"+script)
		return
	}
	if after := vt.CanonID(q); after != before {
		r.Violation("query-changed", fmt.Sprintf("%s became %s", before, after), label)
	}
	r.Observe("messages read and set", 1)
	r.Eval("message")
	inPlace(r, rnd, label, q, ci)
}

// inPlace: what a script does to the message it is given reaches those it
// passes it on to.
func inPlace(r *vt.R, rnd *rand.Rand, label string, q *dns.Msg, ci rdns.ClientInfo) {
	want := q.Copy()
	want.Id, want.Rcode, want.RecursionDesired = uint16(rnd.Intn(1<<16)), rnd.Intn(16), !q.RecursionDesired
	want.Question[0] = dns.Question{Name: vt.Label(rnd, 6) + ".", Qtype: uint16(rnd.Intn(300)), Qclass: uint16(rnd.Intn(300))}
	set := "msg.questions = {Question.new(%s, %d, %d)}"
	if rnd.Intn(2) == 0 {
		set = "local o = msg.questions[1]\n\to.name = %s\n\to.qtype = %d\n\to.qclass = %d"
	}
	script := fmt.Sprintf(`
function Resolve(msg, ci)
	msg.id = %d
	msg.rcode = %d
	msg.recursion_desired = %v
	`+set+`
	return Resolvers[1]:resolve(msg, ci)
end`, want.Id, want.Rcode, want.RecursionDesired, literal(want.Question[0].Name), want.Question[0].Qtype, want.Question[0].Qclass)
	var seen string
	up := &vt.Func{Name: "up", F: func(got *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
		seen = vt.CanonID(got)
		return new(dns.Msg), nil
	}}
	el := lua(r, label, script, 1, up)
	if el == nil {
		return
	}
	if a, err := el.Resolve(q.Copy(), ci); a == nil || err != nil || seen != vt.CanonID(want) {
		r.Violation("changed-in-script", fmt.Sprintf("%v, %v\nwant %s\ngot  %s", a, err, vt.CanonID(want), seen), label+"\n"+script)
		return
	}
	r.Observe("messages changed by scripts", 1)
	r.Eval("in place")
}

// constants compares the names for numbers with the protocol's.
func constants(r *vt.R) {
	var b strings.Builder
	n := 0
	add := func(prefix, name string, v int) {
		fmt.Fprintf(&b, "\tcheck(%q, _G[%q], %d)\n", prefix+name, prefix+name, v)
		n++
	}
	for v, s := range dns.ClassToString {
		add("Class", s, int(v))
	}
	for v, s := range map[string]int{"A": 1, "NS": 2, "CNAME": 5, "SOA": 6, "PTR": 12, "MX": 15, "TXT": 16, "AAAA": 28, "SRV": 33, "OPT": 41, "DS": 43, "RRSIG": 46, "DNSKEY": 48, "SVCB": 64, "HTTPS": 65, "ANY": 255, "CAA": 257} {
		add("Type", v, s)
	}
	for v, s := range dns.TypeToString {
		add("Type", s, int(v))
	}
	for v, s := range map[string]int{"NOERROR": 0, "FORMERR": 1, "SERVFAIL": 2, "NXDOMAIN": 3, "NOTIMP": 4, "REFUSED": 5, "BADVERS": 16} {
		if v != "BADVERS" {
			add("Rcode", v, s)
		}
	}
	for v, s := range map[string]int{"LLQ": 1, "UL": 2, "NSID": 3, "DAU": 5, "DHU": 6, "N3U": 7, "SUBNET": 8, "EXPIRE": 9, "COOKIE": 10, "TCPKEEPALIVE": 11, "PADDING": 12, "EDE": 15} {
		add("EDNS0", v, s)
	}
	el := lua(r, "constants", library+"function Resolve(msg, ci)\n"+b.String()+"\treturn nil, nil\nend", 1)
	if el == nil {
		return
	}
	if a, err := el.Resolve(vt.Query("x.test.", 1), rdns.ClientInfo{}); a != nil || err != nil {
		r.Violation("constants", fmt.Sprint(a, err), "constants")
		return
	}
	r.Observe("constants", n)
	r.Eval("constants")
}

// sandbox: what a script must not get hold of by default. The script only
// looks at names and never calls any of them.
func sandbox(r *vt.R) {
	names := []string{"os", "io", "debug", "package", "channel", "dofile", "loadfile", "load", "loadstring", "module", "require",
		"os.execute", "os.remove", "os.rename", "os.getenv", "os.exit", "os.tmpname", "io.open", "io.popen", "io.lines", "debug.getregistry", "package.loadlib", "package.path", "package.loaded"}
	const walk = `
local function at(root, path)
	for part in string.gmatch(path, "[^.]+") do
		if type(root) ~= "table" then return nil end
		root = rawget(root, part)
	end
	return root
end
function Resolve(msg, ci)
	local path = %q
	for _, root in ipairs({_G, getfenv and getfenv(0) or _G, getfenv and getfenv(1) or _G}) do
		if at(root, path) ~= nil then return nil, Error.new("reached") end
	end
	for _, lib in ipairs({string, table, math, coroutine}) do
		if at(lib, path) ~= nil then return nil, Error.new("reached") end
	end
	return nil, Error.new("out of reach")
end`
	for _, n := range names {
		label := "sandbox " + n
		script := fmt.Sprintf(walk, n)
		for i, want := range []string{"out of reach", "reached"} {
			el, err := rdns.NewLua("lua", rdns.LuaOptions{Script: script, NoSandbox: i == 1})
			if err != nil {
				r.Violation("construct", err.Error(), label)
				return
			}
			for k := 0; k < 5; k++ {
				_, err = el.Resolve(vt.Query("x.test.", 1), rdns.ClientInfo{})
				if i == 1 && n != "os" && n != "io" && n != "os.getenv" {
					continue // only that the sandbox can be turned off at all
				}
				if err == nil || err.Error() != want {
					r.Violation("sandbox", fmt.Sprintf("%s with the sandbox off=%v: %v", n, i == 1, err), label)
				}
			}
		}
		// nor while the script loads
		if _, err := rdns.NewLua("lua", rdns.LuaOptions{Script: strings.Replace(script, "function Resolve", "local function early", 1) + "\n" +
			`local p = "` + n + `"; if at(_G, p) ~= nil then error("reached") end; function Resolve(msg, ci) return nil, nil end`}); err != nil {
			r.Violation("sandbox", "while loading: "+err.Error(), label)
		}
		r.Observe("names out of reach", 1)
		r.Eval("sandbox " + n)
	}
}

var wrong = []string{
	`return 5, nil`, `return nil, 5`, `return nil, "text"`, `return "x", nil`, `return {}, nil`, `return nil, {}`, `return true, nil`, `return nil, true`, `return 1, 2`,
	`return msg.questions[1], nil`, `return nil, msg`, `return nil, ci`, `return ci, nil`, `return Error.new("x"), nil`,
	`error("x")`, `error({})`, `local x = nil; return x.y`, `return msg.nosuch`, `msg.nosuch = 1`, `msg.id = "abc"`, `msg.response = 1`,
	`local function f() return 1 + f() end; return f()`,
	`return Resolvers[5]:resolve(msg, ci)`, `return Resolvers[1]:resolve(msg)`, `return Resolvers[1]:resolve(ci, msg)`, `return Resolvers[1]:resolve(nil, nil)`, `return Resolvers[1].resolve(msg, msg, ci)`,
	`return RR.new({})`, `return RR.new({rtype = TypeA, a = "nope"})`, `return RR.new({rtype = TypeA, nosuch = 1})`, `return RR.new({rtype = 65280})`, `return RR.new({rtype = TypeTXT, txt = "x"})`, `return RR.new({rtype = TypeTXT, txt = {1}})`, `return RR.new({rtype = TypeMX, preference = "x"})`, `return RR.new(5)`, `return RR.new({TypeA})`,
	`RR.new({rtype = TypeA}).rtype = 5`, `RR.new({rtype = TypeAPL}).prefixes = {}`,
	`msg.answer = {1}`, `msg.answer = {msg}`, `msg.extra = 5`, `msg.questions = {msg}`, `msg.questions = {1}`, `msg:set_reply(ci)`, `msg:set_question()`, `msg:set_edns0("x", 1)`, `msg.set_reply(ci, msg)`,
	`return Error.new()`, `ci.source_ip = "x"`, `return ci.nosuch`, `OPT.new(1, 2)`, `OPT.new(1, true).option = {1}`, `OPT.new(1, true).nosuch = 1`, `EDNS0_SUBNET.new(1, 24, 0, "nope")`, `EDNS0_DAU.new(5)`, `EDNS0_EDE.new("x")`, `return EDNS0_EDE.new().nosuch`,
	`return Question.new({})`, `Question.new("x.").nosuch = 5`, `return nosuchfunction()`, `return nil .. "x"`, `for i in 5 do end`,
}

// mistakes: a script error fails its own query with an error and nothing else.
func mistakes(r *vt.R) {
	var b strings.Builder
	b.WriteString("local f = {\n")
	for _, w := range wrong {
		fmt.Fprintf(&b, "function(msg, ci) %s end,\n", w)
	}
	b.WriteString("}\nfunction Resolve(msg, ci)\n local k = f[tonumber(string.match(msg.questions[1].name, '%d+'))]\n if k == nil then local a = Message.new(); a:set_reply(msg); a.answer = {RR.new({rtype=TypeA, name='x.', class=1, ttl=5, a='192.0.2.1'})}; return a, nil end\n return k(msg, ci)\nend\n")
	up := &vt.Func{Name: "up", F: func(q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) { return q, nil }}
	el := lua(r, "mistakes", b.String(), 1, up)
	if el == nil {
		return
	}
	good := func(after string) {
		q := vt.Query("good0.test.", dns.TypeA)
		a, err := el.Resolve(q, rdns.ClientInfo{})
		if err != nil || a == nil || len(a.Answer) != 1 || a.Id != q.Id {
			r.Violation("after-mistake", fmt.Sprintf("after %q a good query got %v, %v", after, a, err), after)
			return
		}
		r.Observe("answers after script errors", 1)
	}
	bad := func(i int) bool {
		a, err := el.Resolve(vt.Query(fmt.Sprintf("q%d.test.", i+1), dns.TypeA), rdns.ClientInfo{})
		if err == nil || a != nil {
			r.Violation("mistake", fmt.Sprintf("%q gave %v, %v", wrong[i], a, err), wrong[i])
			return false
		}
		r.Observe("script errors", 1)
		return true
	}
	for i := range wrong {
		r.Case("mistake %q", wrong[i])
		for k := 0; k < 3; k++ {
			if !bad(i) {
				break
			}
			good(wrong[i])
		}
		r.Eval("mistake " + wrong[i])
	}
	// again and again
	for _, w := range []string{`return nil, 5`, `return 1, 2`, `error("x")`, `return RR.new({})`} {
		for i := range wrong {
			if wrong[i] != w {
				continue
			}
			if el = lua(r, w, b.String(), 1, up); el == nil {
				return
			}
			for k := 0; k < 6000; k++ {
				if !bad(i) {
					break
				}
				if k%37 == 0 || k%50 == 0 {
					good(fmt.Sprintf("%s %d times", w, k))
					good(fmt.Sprintf("%s %d times", w, k))
				}
			}
		}
	}
}

// construct: scripts that cannot work are refused.
func construct(r *vt.R) {
	for _, s := range []string{"", "function resolve(msg, ci) end", "Resolve = 5", "function Resolve(", "error('x')", "nosuch()", "local x = os.getenv('HOME'); function Resolve() end"} {
		if _, err := rdns.NewLua("lua", rdns.LuaOptions{Script: s}); err == nil {
			r.Violation("accepted", fmt.Sprintf("script %q was accepted", s), s)
		}
		r.Eval("refused " + s)
	}
}

// poolCase: parallel queries share a fixed number of scripts without seeing
// each other.
func poolCase(r *vt.R, c int) {
	rnd := r.Rand("pool", c)
	n := 1 + rnd.Intn(6)
	label := fmt.Sprintf("pool case %d of %d", c, n)
	r.Case("%s", label)
	var mu sync.Mutex
	busy, most := 0, 0
	up := &vt.Func{Name: "up", F: func(q *dns.Msg, _ rdns.ClientInfo) (*dns.Msg, error) {
		mu.Lock()
		busy++
		most = max(most, busy)
		mu.Unlock()
		time.Sleep(time.Duration(1+q.Id%50) * time.Millisecond)
		mu.Lock()
		busy--
		mu.Unlock()
		if q.Id%7 == 0 {
			return nil, errUpstream
		}
		a := new(dns.Msg)
		a.SetReply(q)
		a.Answer = []dns.RR{vt.RR("%s 60 IN TXT \"%d\"", q.Question[0].Name, q.Id)}
		return a, nil
	}}
	el := lua(r, label, `current = nil
function Resolve(msg, ci)
	if current ~= nil then error("two queries in one script") end
	current = msg.id
	local a, err = Resolvers[1]:resolve(msg, ci)
	if current ~= msg.id then error("two queries in one script") end
	current = nil
	if msg.id % 5 == 0 then error("five") end
	return a, err
end`, uint(n), up)
	if el == nil {
		return
	}
	var wg sync.WaitGroup
	for i := 0; i < 60; i++ {
		q := vt.Query(fmt.Sprintf("n%d.test.", i), dns.TypeTXT)
		q.Id = uint16(rnd.Intn(1 << 16))
		wg.Add(1)
		go func() {
			defer wg.Done()
			a, err := el.Resolve(q, rdns.ClientInfo{})
			switch {
			case q.Id%5 == 0:
				if err == nil || !strings.Contains(err.Error(), "five") || a != nil {
					r.Violation("pool", fmt.Sprintf("query %d got %v, %v", q.Id, a, err), label)
				}
			case q.Id%7 == 0:
				if err != errUpstream || a != nil {
					r.Violation("pool", fmt.Sprintf("query %d got %v, %v", q.Id, a, err), label)
				}
			case err != nil || a == nil || a.Id != q.Id || a.Question[0] != q.Question[0] || len(a.Answer) != 1 || !strings.Contains(a.Answer[0].String(), fmt.Sprintf("%q", fmt.Sprint(q.Id))):
				r.Violation("pool", fmt.Sprintf("query %d got %v, %v", q.Id, a, err), label)
			}
			r.Observe("parallel queries", 1)
		}()
	}
	wg.Wait()
	if most > n {
		r.Violation("pool-size", fmt.Sprintf("%d scripts ran at once, at most %d should", most, n), label)
	}
	r.State("scripts at once", fmt.Sprintf("%d of %d", most, n))
	r.Eval(fmt.Sprintf("pool %d", n))
}
