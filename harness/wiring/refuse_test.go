package wiring

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"verif/harness/vt"
)

// badThing is a part of a configuration, R is the id of a resolver, L of a
// working pipeline, D a directory with files, P a free port. With a good
// alternative, that one is expected to be accepted.
type badThing struct {
	what, bad, good string
}

func grp(typ, lines string) string {
	return "[groups.g]\ntype = \"" + typ + "\"\nresolvers = [\"R\"]\n" + lines + "\n"
}

func lst(proto, lines string) string {
	return "[listeners.l]\naddress = \"127.0.0.1:P\"\nprotocol = \"" + proto + "\"\nresolver = \"R\"\n" + lines + "\n"
}

func res(proto, lines string) string {
	return "[resolvers.r]\naddress = \"127.0.0.1:P\"\nprotocol = \"" + proto + "\"\n" + lines + "\n"
}

func rte(lines string) string {
	return "[routers.g]\nroutes = [ { " + lines + ", resolver = \"R\" }, { resolver = \"R\" } ]\n"
}

const pair = "server-crt = \"D/srv.crt\"\nserver-key = \"D/srv.key\"\n"

func badThings() []badThing {
	l := []badThing{
		{"syntax", "[groups.g\n", ""},
		{"type of a value", grp("cache", `cache-size = "many"`), grp("cache", `cache-size = 10`)},
		{"type of a section", "[groups]\ng = 5\n", ""},
		{"group type", grp("no-such-type", ""), ""},
		{"group type", grp("", ""), ""},
		{"resolver protocol", res("sctp", ""), res("udp", "")},
		{"listener protocol", lst("sctp", ""), lst("udp", "")},
		{"duplicate id", "[groups.R]\ntype = \"cache\"\nresolvers = [\"L\"]\n", ""},
		{"duplicate id", "[routers.R]\nroutes = [ { resolver = \"L\" } ]\n", ""},
		{"duplicate id", "[resolvers.R]\naddress = \"127.0.0.1:53\"\nprotocol = \"udp\"\n", ""},
		{"duplicate id", "[groups.g]\ntype = \"drop\"\n[routers.g]\nroutes = [ { resolver = \"R\" } ]\n", ""},
		{"unknown resolver of a group", "[groups.g]\ntype = \"cache\"\nresolvers = [\"nowhere\"]\n", ""},
		{"unknown resolver of a group", "[groups.g]\ntype = \"round-robin\"\nresolvers = [\"R\", \"nowhere\"]\n", "[groups.g]\ntype = \"round-robin\"\nresolvers = [\"R\", \"L\"]\n"},
		{"unknown resolver of a router", "[routers.g]\nroutes = [ { resolver = \"nowhere\" } ]\n", "[routers.g]\nroutes = [ { resolver = \"R\" } ]\n"},
		{"no resolver of a route", "[routers.g]\nroutes = [ { name = \"x\" } ]\n", ""},
		{"unknown resolver of a listener", strings.Replace(lst("udp", ""), `"R"`, `"nowhere"`, 1), ""},
		{"no resolver of a listener", strings.Replace(lst("udp", ""), "resolver = \"R\"\n", "", 1), ""},
		{"cycle of one", "[groups.g]\ntype = \"cache\"\nresolvers = [\"g\"]\n", ""},
		{"cycle of two", "[groups.g]\ntype = \"cache\"\nresolvers = [\"h\"]\n[groups.h]\ntype = \"request-dedup\"\nresolvers = [\"g\"]\n", ""},
		{"cycle through a router", "[groups.g]\ntype = \"fail-back\"\nresolvers = [\"R\", \"h\"]\n[routers.h]\nroutes = [ { name = \"x\", resolver = \"R\" }, { resolver = \"g\" } ]\n", ""},
		{"cycle through a blocklist-resolver", grp("blocklist-v2", "blocklist = [\"x\"]\nblocklist-resolver = \"h\"") + "[groups.h]\ntype = \"cache\"\nresolvers = [\"g\"]\n", ""},
		{"cycle through a retry-resolver", grp("truncate-retry", "retry-resolver = \"h\"") + "[groups.h]\ntype = \"cache\"\nresolvers = [\"g\"]\n", ""},
		{"cycle through a limit-resolver", grp("rate-limiter", "requests = 5\nwindow = 5\nlimit-resolver = \"h\"") + "[groups.h]\ntype = \"cache\"\nresolvers = [\"g\"]\n", ""},

		{"ttl-select", grp("ttl-modifier", `ttl-select = "biggest"`), grp("ttl-modifier", `ttl-select = "highest"`)},
		{"retry-resolver missing", grp("truncate-retry", ""), grp("truncate-retry", `retry-resolver = "L"`)},
		{"retry-resolver unknown", grp("truncate-retry", `retry-resolver = "nowhere"`), ""},
		{"limit-resolver unknown", grp("rate-limiter", "requests = 5\nwindow = 5\nlimit-resolver = \"nowhere\""), grp("rate-limiter", "requests = 5\nwindow = 5\nlimit-resolver = \"L\"")},
		{"blocklist-resolver unknown", grp("blocklist-v2", "blocklist = [\"x\"]\nblocklist-resolver = \"nowhere\""), grp("blocklist-v2", "blocklist = [\"x\"]\nblocklist-resolver = \"L\"")},
		{"allowlist-resolver unknown", grp("blocklist-v2", "blocklist = [\"x\"]\nallowlist-resolver = \"nowhere\""), grp("blocklist-v2", "blocklist = [\"x\"]\nallowlist-resolver = \"L\"")},
		{"blocklist-resolver unknown", grp("client-blocklist", "blocklist = [\"10.0.0.0/8\"]\nblocklist-resolver = \"nowhere\""), ""},
		{"ecs-op", grp("ecs-modifier", `ecs-op = "remove"`), grp("ecs-modifier", `ecs-op = "delete"`)},
		{"ecs-address", grp("ecs-modifier", "ecs-op = \"add\"\necs-address = \"10.0.0\""), grp("ecs-modifier", "ecs-op = \"add\"\necs-address = \"10.0.0.1\"")},
		{"edns0-op", grp("edns0-modifier", `edns0-op = "remove"`), grp("edns0-modifier", `edns0-op = "delete"`)},
		{"edns0-code", grp("edns0-modifier", "edns0-op = \"delete\"\nedns0-code = 70000"), ""},
		{"priority", grp("syslog", `priority = "urgent"`), ""},
		{"cache-answer-shuffle", grp("cache", `cache-answer-shuffle = "sorted"`), grp("cache", `cache-answer-shuffle = "random"`)},
		{"cache-rcode-max-ttl", grp("cache", `cache-rcode-max-ttl = { NXDOMAIN = 5 }`), grp("cache", `cache-rcode-max-ttl = { 3 = 5 }`)},
		{"backend type", grp("cache", `backend = { type = "tape" }`), grp("cache", `backend = { type = "memory" }`)},
		{"regexp in a blocklist", grp("blocklist", `blocklist = ['(']`), grp("blocklist", `blocklist = ['()']`)},
		{"regexp in a blocklist", grp("blocklist-v2", `blocklist = ['x', '(']`), ""},
		{"regexp in an allowlist", grp("blocklist-v2", `allowlist = ['(']`), grp("blocklist-v2", `allowlist = ['()']`)},
		{"regexp in a response list", grp("response-blocklist-name", `blocklist = ['*']`), grp("response-blocklist-name", `blocklist = ['.*']`)},
		{"regexp of a replacement", grp("replace", `replace = [ { from = '(', to = 'x' } ]`), grp("replace", `replace = [ { from = 'y', to = 'x' } ]`)},
		{"domain in a blocklist", grp("blocklist-v2", "blocklist-format = \"domain\"\nblocklist = ['a.*.b']"), grp("blocklist-v2", "blocklist-format = \"domain\"\nblocklist = ['*.a.b']")},
		{"format of a blocklist", grp("blocklist-v2", "blocklist-format = \"csv\"\nblocklist = ['a']"), grp("blocklist-v2", "blocklist-format = \"hosts\"\nblocklist = ['0.0.0.0 a.test']")},
		{"format of an allowlist", grp("blocklist-v2", "allowlist-format = \"csv\"\nallowlist = ['a']"), ""},
		{"format of a list source", grp("blocklist-v2", "blocklist-source = [ { format = \"csv\", source = \"D/list\" } ]"), grp("blocklist-v2", "blocklist-source = [ { format = \"domain\", source = \"D/list\" } ]")},
		{"format of a blocklist", grp("blocklist", "format = \"csv\"\nblocklist = ['a']"), ""},
		{"format of a client list", grp("client-blocklist", "blocklist-format = \"domain\"\nblocklist = ['a']"), grp("client-blocklist", "blocklist-format = \"cidr\"\nblocklist = ['10.0.0.0/8']")},
		{"network in a client list", grp("client-blocklist", "blocklist = ['10.0.0.0/64']"), ""},
		{"network in a response list", grp("response-blocklist-ip", "blocklist = ['10.0.0.0.1/8']"), grp("response-blocklist-ip", "blocklist = ['10.0.0.1/8']")},
		{"hosts in a blocklist", grp("blocklist-v2", "blocklist-format = \"mac\"\nblocklist = ['zz:yy']"), grp("blocklist-v2", "blocklist-format = \"mac\"\nblocklist = ['01:23:45:67:89:ab']")},
		{"missing list file", grp("blocklist", "source = \"D/none\""), grp("blocklist", "source = \"D/list\"")},
		{"missing list file", grp("blocklist-v2", "blocklist-source = [ { source = \"D/none\" } ]"), ""},
		{"missing list file, all the same", grp("blocklist-v2", "blocklist-source = [ { source = \"D/none\" }, { source = \"D/list\" } ]"), grp("blocklist-v2", "blocklist-source = [ { source = \"D/none\", allow-failure = true }, { source = \"D/list\" } ]")},
		{"missing allowlist file", grp("blocklist-v2", "allowlist-source = [ { source = \"D/none\" } ]"), grp("blocklist-v2", "allowlist-source = [ { source = \"D/none\", allow-failure = true } ]")},
		{"missing client list file", grp("client-blocklist", "blocklist-source = [ { source = \"D/none\" } ]"), grp("client-blocklist", "blocklist-source = [ { source = \"D/none\", allow-failure = true } ]")},
		{"missing response list file", grp("response-blocklist-ip", "blocklist-source = [ { source = \"D/none\" } ]"), grp("response-blocklist-ip", "blocklist-source = [ { source = \"D/none\", allow-failure = true } ]")},
		{"missing response list file", grp("response-blocklist-name", "blocklist-source = [ { source = \"D/none\" } ]"), grp("response-blocklist-name", "blocklist-source = [ { source = \"D/none\", allow-failure = true } ]")},
		{"unreachable list", grp("blocklist-v2", "blocklist-source = [ { source = \"http://127.0.0.1:P/list\" } ]"), grp("blocklist-v2", "blocklist-source = [ { source = \"http://127.0.0.1:P/list\", allow-failure = true } ]")},
		{"scheme of a list", grp("blocklist-v2", "blocklist-source = [ { source = \"ftp://127.0.0.1/list\" } ]"), ""},
		{"scheme of a list", grp("client-blocklist", "blocklist-source = [ { source = \"ftp://127.0.0.1/list\" } ]"), ""},
		{"list and source", grp("blocklist", "blocklist = ['a']\nsource = \"D/list\""), ""},
		{"list and source", grp("blocklist-v2", "blocklist = ['a']\nblocklist-source = [ { source = \"D/list\" } ]"), ""},
		{"allowlist and source", grp("blocklist-v2", "allowlist = ['a']\nallowlist-source = [ { source = \"D/list\" } ]"), ""},
		{"list and source", grp("client-blocklist", "blocklist = ['10.0.0.0/8']\nblocklist-source = [ { source = \"D/nets\" } ]"), grp("client-blocklist", "blocklist-source = [ { source = \"D/nets\" } ]")},
		{"list and source", grp("response-blocklist-ip", "blocklist = ['10.0.0.0/8']\nblocklist-source = [ { source = \"D/nets\" } ]"), ""},
		{"list and source", grp("response-blocklist-name", "blocklist = ['a']\nblocklist-source = [ { source = \"D/list\" } ]"), ""},
		{"location-db missing", grp("client-blocklist", "blocklist-format = \"location\"\nlocation-db = \"D/none\"\nblocklist = ['1']"), ""},
		{"static record", "[groups.g]\ntype = \"static-responder\"\nanswer = [\"IN A 1.2.3\"]\n", "[groups.g]\ntype = \"static-responder\"\nanswer = [\"IN A 1.2.3.4\"]\n"},
		{"static record", "[groups.g]\ntype = \"static-responder\"\nns = [\"IN NOTYPE x\"]\n", ""},
		{"static template", "[groups.g]\ntype = \"static-template\"\nanswer = [\"{{ .Question IN A 1.2.3.4\"]\n", "[groups.g]\ntype = \"static-template\"\nanswer = [\"{{ .Question }} IN A 1.2.3.4\"]\n"},
		{"error text template", grp("blocklist-v2", "blocklist = ['a']\nedns0-ede = { code = 15, text = \"{{ .Question\" }"), grp("blocklist-v2", "blocklist = ['a']\nedns0-ede = { code = 15, text = \"{{ .Question }}\" }")},
		{"error text template", "[groups.g]\ntype = \"static-responder\"\nedns0-ede = { code = 15, text = \"{{ nofunc }}\" }\n", ""},
		{"log file", grp("query-log", "output-file = \"D/none/x/log\""), grp("query-log", "output-file = \"D/log\"")},
		{"log format", grp("query-log", "output-format = \"xml\""), grp("query-log", "output-format = \"json\"")},
		{"script missing", grp("lua", ""), ""},
		{"script file missing", grp("lua", "lua-script-source = \"D/none.lua\""), grp("lua", "lua-script-source = \"D/ok.lua\"")},
		{"script syntax", grp("lua", "lua-script = 'function Resolve('"), ""},
		{"script without Resolve", grp("lua", "lua-script = 'x = 1'"), grp("lua", "lua-script = 'function Resolve(m, ci) return Resolvers[1]:resolve(m, ci) end'")},
		{"script that fails", grp("lua", "lua-script = 'error(\"x\")'"), ""},
		{"dns64-prefix", grp("dns64", `dns64-prefix = ["64:ff9b::/95"]`), grp("dns64", `dns64-prefix = ["64:ff9b::/96"]`)},
		{"dns64-prefix", grp("dns64", `dns64-prefix = ["10.0.0.0/8"]`), ""},
		{"dns64-prefix", grp("dns64", `dns64-prefix = ["64:ff9b::"]`), ""},

		{"route type", rte(`types = ["A", "BOGUS"]`), rte(`types = ["A", "MX"]`)},
		{"route type", rte(`type = "BOGUS"`), rte(`type = "A"`)},
		{"route class", rte(`class = "XX"`), rte(`class = "CH"`)},
		{"route name", rte(`name = '('`), rte(`name = '^x'`)},
		{"route source", rte(`source = "10.0.0.0"`), rte(`source = "10.0.0.0/8"`)},
		{"route ecs-source", rte(`ecs-source = "10.0.0.0/99"`), rte(`ecs-source = "10.0.0.0/9"`)},
		{"route weekday", rte(`weekdays = ["mon", "day"]`), rte(`weekdays = ["mon", "tue"]`)},
		{"route after", rte(`after = "25:00"`), rte(`after = "23:00"`)},
		{"route before", rte(`before = "10:99"`), rte(`before = "10:59"`)},
		{"route before", rte(`before = "noon"`), ""},
		{"route after", rte(`after = "24:00"`), rte(`after = "0:00"`)},
		{"route before", rte(`before = "10:60"`), ""},
		{"route before", rte(`before = "-1:00"`), ""},
		{"route doh-path", rte(`doh-path = '('`), rte(`doh-path = 'x'`)},
		{"route listener", rte(`listener = '('`), rte(`listener = 'x'`)},
		{"route servername", rte(`servername = '['`), rte(`servername = 'x'`)},

		{"allowed-net", lst("udp", `allowed-net = ["10.0.0.1"]`), lst("udp", `allowed-net = ["10.0.0.1/32"]`)},
		{"allowed-net", lst("tcp", `allowed-net = ["10.0.0.0/8", "x"]`), ""},
		{"ip-version", lst("udp", "ip-version = 5"), lst("udp", "ip-version = 4")},
		{"netns and xsocket", lst("udp", "netns = \"a\"\nxsocket = \"D/x\""), ""},
		{"netns and xsocket", res("udp", "netns = \"a\"\nxsocket = \"D/x\""), ""},
		{"no-tls with quic", lst("doh", pair+"transport = \"quic\"\nno-tls = true"), lst("doh", pair+"no-tls = true")},
		{"transport", lst("doh", pair+"transport = \"sctp\""), lst("doh", pair+"transport = \"tcp\"")},
		{"trusted-proxy", lst("doh", pair+"frontend = { trusted-proxy = \"10.0.0.1\" }"), lst("doh", pair+"frontend = { trusted-proxy = \"10.0.0.1/32\" }")},
		{"odoh-mode", lst("odoh", pair+`odoh-mode = "relay"`), lst("odoh", pair+`odoh-mode = "proxy"`)},
		{"key-seed", lst("odoh", pair+`key-seed = "xyz"`), lst("odoh", pair+`key-seed = "00112233445566778899aabbccddeeff"`)},
		{"doh method", strings.Replace(res("doh", `doh = { method = "PUT" }`), `"127.0.0.1:P"`, `"https://127.0.0.1:P/dns-query"`, 1), strings.Replace(res("doh", `doh = { method = "GET" }`), `"127.0.0.1:P"`, `"https://127.0.0.1:P/dns-query{?dns}"`, 1)},
		{"transport of a resolver", strings.Replace(res("doh", `transport = "sctp"`), `"127.0.0.1:P"`, `"https://127.0.0.1:P/dns-query"`, 1), ""},
		{"resolver address", "[resolvers.r]\naddress = \"127.0.0.1:x\"\nprotocol = \"udp\"\n", ""},
		{"resolver address", "[resolvers.r]\naddress = \"127.0.0.1:99999\"\nprotocol = \"tcp\"\n", ""},
		{"local-address", res("udp", `local-address = "localhost"`), res("udp", `local-address = "127.0.0.1"`)},
		{"local-address", res("dot", `local-address-v4 = "10.0.0"`), res("dot", `local-address-v4 = "10.0.0.1"`)},
		{"local-address", res("tcp", `local-address-v6 = "[::1]"`), res("tcp", `local-address-v6 = "::1"`)},
		{"edns0-udp-size", res("udp", "edns0-udp-size = 70000"), res("udp", "edns0-udp-size = 1400")},
		{"bootstrap-address", res("dtls", `bootstrap-address = "nohost"`), res("dtls", `bootstrap-address = "127.0.0.1"`)},
		{"resolver address", "[resolvers.r]\naddress = \"127.0.0.1:\"\nprotocol = \"doq\"\n", ""},
		{"resolver address", "[resolvers.r]\naddress = \"127.0.0.1:-1\"\nprotocol = \"dot\"\n", ""},
		{"resolver address", "[resolvers.r]\naddress = \"[::1:53\"\nprotocol = \"udp\"\n", "[resolvers.r]\naddress = \"[::1]:53\"\nprotocol = \"udp\"\n"},
		{"bootstrap-resolver protocol", "[bootstrap-resolver]\naddress = \"127.0.0.1:P\"\nprotocol = \"sctp\"\n", "[bootstrap-resolver]\naddress = \"127.0.0.1:P\"\nprotocol = \"udp\"\n"},
	}
	for _, typ := range []string{"blocklist", "blocklist-v2", "replace", "ttl-modifier", "request-dedup", "fastest-tcp", "ecs-modifier", "edns0-modifier", "syslog", "cache", "prefetch", "response-blocklist-ip", "response-blocklist-name", "client-blocklist", "response-minimize", "response-collapse", "rate-limiter", "query-log", "dnssec-validator", "dns64", "truncate-retry"} {
		l = append(l,
			badThing{"two resolvers of " + typ, fmt.Sprintf("[groups.g]\ntype = %q\nresolvers = [\"R\", \"L\"]\nretry-resolver = \"Q\"\n", typ), ""},
			badThing{"no resolver of " + typ, fmt.Sprintf("[groups.g]\ntype = %q\nretry-resolver = \"Q\"\n", typ), ""})
	}
	for i, host := range []string{"-a.test", "a-.test", "a..test", ".test", "a.-.test", "a_b.test", "a.123", "a b.test", "*.test", strings.Repeat("a.", 128) + "test"} {
		p := []string{"udp", "tcp", "dot", "doq", "dtls"}[i%5]
		l = append(l, badThing{"host " + host[:min(len(host), 10)], fmt.Sprintf("[resolvers.r]\naddress = \"%s:853\"\nprotocol = %q\n", host, p), "[resolvers.r]\naddress = \"a-1.2b.test:853\"\nprotocol = \"dot\"\n"})
	}
	for _, typ := range []string{"round-robin", "fail-rotate", "fail-back", "random", "fastest", "load-balance"} {
		l = append(l, badThing{"no resolver of " + typ, fmt.Sprintf("[groups.g]\ntype = %q\n", typ), fmt.Sprintf("[groups.g]\ntype = %q\nresolvers = [\"R\"]\n", typ)})
	}
	for _, p := range []string{"dot", "doh", "doq", "dtls", "odoh", "admin"} {
		l = append(l,
			badThing{p + " with a missing key", lst(p, "server-crt = \"D/srv.crt\"\nserver-key = \"D/none.key\""), lst(p, pair)},
			badThing{p + " with a missing certificate", lst(p, "server-crt = \"D/none.crt\"\nserver-key = \"D/srv.key\""), ""},
			badThing{p + " with another key", lst(p, "server-crt = \"D/srv.crt\"\nserver-key = \"D/bad.key\""), ""},
			badThing{p + " mutual-tls without authority", lst(p, pair+"mutual-tls = true"), lst(p, pair+"mutual-tls = true\nca = \"D/ca1/ca.pem\"")},
			badThing{p + " with a missing authority", lst(p, pair+"mutual-tls = true\nca = \"D/none.pem\""), ""},
			badThing{p + " with an authority that is none", lst(p, pair+"mutual-tls = true\nca = \"D/list\""), ""})
		if p == "admin" {
			continue
		}
		r := res(p, "LINES")
		if p == "doh" {
			r = strings.Replace(r, `"127.0.0.1:P"`, `"https://127.0.0.1:P/dns-query"`, 1)
		}
		if p == "odoh" {
			r = strings.Replace(r, "address = \"127.0.0.1:P\"", "target = \"https://127.0.0.1:P/dns-query\"", 1)
		}
		f := func(s string) string { return strings.Replace(r, "LINES", s, 1) }
		l = append(l,
			badThing{p + " resolver with a missing authority", f(`ca = "D/none.pem"`), f(`ca = "D/ca1/ca.pem"`)},
			badThing{p + " resolver with an authority that is none", f(`ca = "D/list"`), ""},
			badThing{p + " resolver with a missing certificate", f("client-crt = \"D/none.crt\"\nclient-key = \"D/cli.key\""), f("client-crt = \"D/cli.crt\"\nclient-key = \"D/cli.key\"")},
			badThing{p + " resolver with another key", f("client-crt = \"D/cli.crt\"\nclient-key = \"D/bad.key\""), ""})
	}
	return l
}

func TestC38(t *testing.T) {
	r := vt.Start(t, "C38", "one evaluation per start of the program with a configuration that is wrong in one place, or right; distinct by the place and the surrounding configuration")
	for n := 0; n < r.N(2, 40); n++ {
		rnd := r.Rand("world", n)
		w := newWorld(r, rnd)
		w.pki()
		w.file("list", "a.test\nb.test\n")
		w.file("nets", "10.0.0.0/8\n")
		w.file("ok.lua", "function Resolve(m, ci) return Resolvers[1]:resolve(m, ci) end\n")
		type job struct {
			b    badThing
			bad  bool
			port int
			conf [2]string
			args []string
		}
		var jobs []job
		for i, b := range badThings() {
			for _, bad := range []bool{true, false} {
				s := b.good
				if bad {
					s = b.bad
				}
				if s == "" {
					continue
				}
				port := w.port()
				s = strings.NewReplacer(`"R"`, fmt.Sprintf("%q", "r-one"), ".R]", ".r-one]", `"L"`, `"l-one"`, `"Q"`, `"q-one"`, "D/", w.dir+"/", ":P", fmt.Sprintf(":%d", w.port())).Replace(s)
				base := fmt.Sprintf("[resolvers.r-one]\naddress = \"127.0.0.1:%d\"\nprotocol = \"udp\"\n[groups.l-one]\ntype = %q\nresolvers = [\"r-one\"]\n[groups.q-one]\ntype = \"drop\"\n[listeners.base]\naddress = \"127.0.0.1:%d\"\nprotocol = \"tcp\"\nresolver = \"l-one\"\n",
					w.up[0], vt.Pick(rnd, "cache", "request-dedup", "round-robin"), port)
				j := job{b: b, bad: bad, port: port}
				// the faulty part in any of the files, or in the only one
				name := fmt.Sprintf("c%d-%v", i, bad)
				switch rnd.Intn(3) {
				case 0:
					j.args = []string{w.file(name, base+"\n"+s)}
				case 1:
					j.args = []string{w.file(name+"-1", base), w.file(name+"-2", s)}
				default:
					j.args = []string{w.file(name+"-1", s), w.file(name+"-2", base)}
				}
				jobs = append(jobs, j)
			}
		}
		for i, args := range [][]string{{}, {filepath.Join(w.dir, "no-such-file")}, {"-l", "9", w.file("base", "")}, {w.dir}, {"--nosuchflag"}, {"fd-server"}, {"fd-server", "--mode", "999", filepath.Join(w.dir, "s")}, {"fd-server", filepath.Join(w.dir, "none", "s")}} {
			jobs = append(jobs, job{b: badThing{what: fmt.Sprintf("arguments %d", i)}, bad: true, args: args})
		}
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		for _, j := range jobs {
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				p := run(j.args...)
				defer p.cmd.Process.Kill()
				text := func() string {
					s := ""
					for _, a := range j.args {
						b, _ := os.ReadFile(a)
						s += "--- " + a + "\n" + string(b)
					}
					return s
				}
				served, ended := false, false
				for i := 0; i < 600; i++ {
					if ended = p.ended(100 * time.Millisecond); ended {
						break
					}
					if j.port == 0 {
						continue
					}
					if c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", j.port)); err == nil {
						c.Close()
						served = true
						break
					}
				}
				r.Eval(fmt.Sprintf("%s %v %s", j.b.what, j.bad, text()))
				r.State("part", j.b.what)
				if j.bad {
					r.Observe("faulty configurations", 1)
					code := -1
					if ended {
						code = p.cmd.ProcessState.ExitCode()
					}
					out := p.out.String()
					switch {
					case served || !ended:
						r.Violation("refuse:"+j.b.what, fmt.Sprintf("the program started (listener up: %v)", served), text())
					case code != 1 || strings.Contains(out, "panic:") || strings.Contains(out, "goroutine "):
						r.Violation("refuse-crash:"+j.b.what, fmt.Sprintf("exit status %d: %s", code, tail(out)), text())
					case strings.TrimSpace(out) == "":
						r.Violation("refuse-silent:"+j.b.what, "the program ended without a message", text())
					}
					return
				}
				r.Observe("valid configurations", 1)
				if ended || !served {
					r.Violation("accept:"+j.b.what, fmt.Sprintf("the program did not start: %s", tail(p.out.String())), text())
					return
				}
				c := w.c(nil)
				if a := w.a(fmt.Sprintf("127.0.0.1:%d", j.port), "x."+c+".test.", askOpt{net: "tcp"}); from(a) != 0 {
					r.Violation("accept:"+j.b.what, fmt.Sprintf("got %s", short(a)), text())
				}
			}()
		}
		wg.Wait()
		w.close()
	}
	r.Need("faulty configurations", 300)
	r.Need("valid configurations", 120)
	r.Exit()
}
