package lists

import (
	"bufio"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

// TestC19: lists are replaced as a whole, and only by complete ones.
func TestC19(t *testing.T) {
	r := vt.Start(t, "C19", "one probe of the rules in force per evaluation while lists are reloaded, fail and recover; non-trivial when the list in force was a reloaded one, distinct by (element, loader, format, kind of reload before it)")
	r.Need("probes", 20000)
	r.Need("reloads taken over", 1000)
	r.Need("reloads that failed", 1000)
	r.Need("databases closed", 300)
	r.Need("downloads cut short", 100)
	r.Need("starts from the cache file", 15)
	r.Need("starts that failed", 20)
	r.Need("concurrent matches", 20000)
	reloadRaces(t, r)
	dir := t.TempDir()
	if err := writePlaces(dir); err != nil {
		r.Inconclusive("location file: %v", err)
	}
	vt.Virtual(t, r, func(t *testing.T) {
		for c := 0; c < r.N(150, 4000); c++ {
			reloadCase(r, c)
		}
		for c := 0; c < r.N(100, 2500); c++ {
			loaderCase(r, c, dir)
		}
		os.RemoveAll(dir)
	})
}

// script is a loader whose every load is decided by the case.
type script struct {
	mu   sync.Mutex
	next func() (lines []string, err error, delay time.Duration)
	done func()
}

func (s *script) Load() ([]string, error) {
	s.mu.Lock()
	lines, err, d := s.next()
	s.mu.Unlock()
	time.Sleep(d)
	s.mu.Lock()
	s.done()
	s.mu.Unlock()
	return lines, err
}

// mortal stops a loader from being used after its case is over; the elements
// themselves reload for as long as the process lives.
type mortal struct {
	rdns.BlocklistLoader
	r     *vt.R
	dead  atomic.Bool
	loads atomic.Int64
}

func (m *mortal) Load() ([]string, error) {
	if m.dead.Load() {
		time.Sleep(100 * 365 * 24 * time.Hour)
	}
	if m.loads.Add(1) > 5000 { // virtual time stands still meanwhile
		m.r.Violation("endless", "a list is loaded again and again without a pause", m.r.CurCase())
		m.r.Exit()
	}
	return m.BlocklistLoader.Load()
}

// version n of a list: rules for a moving window of names, so that any mix of
// two versions shows.
func versionNames(n int) (out []int) {
	for i := 0; i < 6; i++ {
		if (n>>i)&1 == 1 || i == n%6 {
			out = append(out, i)
		}
	}
	return
}

func versionLines(format string, n int) (lines []string) {
	for _, i := range versionNames(n) {
		switch format {
		case "domain", "domain-subdomain":
			lines = append(lines, fmt.Sprintf("n%d.test", i))
		case "regexp":
			lines = append(lines, fmt.Sprintf(`^n%d\.test\.$`, i))
		case "hosts":
			lines = append(lines, fmt.Sprintf("0.0.0.0 n%d.test", i))
		case "mac":
			lines = append(lines, fmt.Sprintf("02:00:00:00:00:%02x", i))
		case "cidr":
			lines = append(lines, fmt.Sprintf("192.0.2.%d/32", i))
		case "location":
			lines = append(lines, fmt.Sprint(100+i))
		case "asn":
			lines = append(lines, fmt.Sprint(70000+i))
		}
	}
	return
}

func inVersion(n, i int) bool {
	for _, k := range versionNames(n) {
		if k == i {
			return true
		}
	}
	return false
}

// subject is one element with a list, and a way to ask if number i is on it.
type subject struct {
	kind, format string
	hit          func(i int) (bool, error)
	build        func(loader rdns.BlocklistLoader, refresh time.Duration) error
}

// placesFile locates the addresses the subjects are asked for.
var placesFile string

func writePlaces(dir string) error {
	m := newMMDB()
	for i := 0; i < 6; i++ {
		m.add(net.IP{192, 0, 2, byte(i)}, 32, mmMap("country", mmMap("geoname_id", mmUint(uint32(100+i))),
			"autonomous_system_number", mmUint(uint32(70000+i)), "autonomous_system_organization", mmString("org")))
	}
	placesFile = filepath.Join(dir, "places.mmdb")
	return os.WriteFile(placesFile, m.bytes("City"), 0o600)
}

func newSubject(rnd *rand.Rand, id string) *subject {
	s := &subject{kind: vt.Pick(rnd, "blocklist", "allowlist", "response-ip", "response-name", "client")}
	up := &vt.Func{Name: "up", F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetReply(q)
		a.Answer = append(a.Answer, vt.RR("q.test. 60 IN A %s", ci.SourceIP), vt.RR("q.test. 60 IN CNAME %s", ci.DoHPath))
		return a, nil
	}}
	var g rdns.Resolver
	ask := func(i int) (*dns.Msg, error) {
		name := fmt.Sprintf("n%d.test.", i)
		if s.format == "domain-subdomain" {
			name = "below." + name
		}
		q := vt.Query(name, dns.TypeA)
		q.SetEdns0(1232, false)
		q.IsEdns0().Option = append(q.IsEdns0().Option, &dns.EDNS0_LOCAL{Code: 65001, Data: []byte{2, 0, 0, 0, 0, byte(i)}})
		return g.Resolve(q, rdns.ClientInfo{SourceIP: net.IP{192, 0, 2, byte(i)}, DoHPath: name})
	}
	code := dns.RcodeNameError
	s.hit = func(i int) (bool, error) {
		a, err := ask(i)
		if err != nil || a == nil {
			return false, fmt.Errorf("query failed: %v", err)
		}
		if a.Rcode != code && a.Rcode != 0 {
			return false, fmt.Errorf("rcode %d", a.Rcode)
		}
		return (a.Rcode == code) != (s.kind == "allowlist"), nil
	}
	names := func(l rdns.BlocklistLoader) (rdns.BlocklistDB, error) {
		db, err := newDB(&list{format: s.format, name: id}, l)
		if err == nil && rnd.Intn(2) == 0 {
			return rdns.NewMultiDB(db)
		}
		return db, err
	}
	ips := func(l rdns.BlocklistLoader) (rdns.IPBlocklistDB, error) {
		var db rdns.IPBlocklistDB
		var err error
		switch s.format {
		case "location":
			db, err = rdns.NewGeoIPDB(id, l, placesFile)
		case "asn":
			db, err = rdns.NewASNDB(id, l, placesFile)
		default:
			db, err = rdns.NewCidrDB(id, l)
		}
		if err != nil {
			return nil, err
		}
		if rnd.Intn(2) == 0 {
			return rdns.NewMultiIPDB(db)
		}
		return db, nil
	}
	switch s.kind {
	case "blocklist":
		s.format = vt.Pick(rnd, "domain", "domain-subdomain", "regexp", "hosts", "mac")
		s.build = func(l rdns.BlocklistLoader, refresh time.Duration) error {
			db, err := names(l)
			if err != nil {
				return err
			}
			g, err = rdns.NewBlocklist(id, up, rdns.BlocklistOptions{BlocklistDB: db, BlocklistRefresh: refresh})
			return err
		}
	case "allowlist":
		s.format = vt.Pick(rnd, "domain", "domain-subdomain", "regexp", "hosts", "mac")
		s.build = func(l rdns.BlocklistLoader, refresh time.Duration) error {
			db, err := names(l)
			if err != nil {
				return err
			}
			all, err := rdns.NewRegexpDB("all", rdns.NewStaticLoader([]string{"."}))
			if err != nil {
				return err
			}
			g, err = rdns.NewBlocklist(id, up, rdns.BlocklistOptions{BlocklistDB: all, AllowlistDB: db, AllowlistRefresh: refresh})
			return err
		}
	case "response-name":
		s.format = vt.Pick(rnd, "domain", "domain-subdomain", "regexp", "hosts")
		s.build = func(l rdns.BlocklistLoader, refresh time.Duration) error {
			db, err := names(l)
			if err != nil {
				return err
			}
			g, err = rdns.NewResponseBlocklistName(id, up, rdns.ResponseBlocklistNameOptions{BlocklistDB: db, BlocklistRefresh: refresh})
			return err
		}
	case "response-ip":
		s.format = vt.Pick(rnd, "cidr", "location", "asn")
		s.build = func(l rdns.BlocklistLoader, refresh time.Duration) error {
			db, err := ips(l)
			if err != nil {
				return err
			}
			g, err = rdns.NewResponseBlocklistIP(id, up, rdns.ResponseBlocklistIPOptions{BlocklistDB: db, BlocklistRefresh: refresh})
			return err
		}
	case "client":
		code = dns.RcodeRefused
		s.format = vt.Pick(rnd, "cidr", "location", "asn")
		s.build = func(l rdns.BlocklistLoader, refresh time.Duration) error {
			db, err := ips(l)
			if err != nil {
				return err
			}
			g, err = rdns.NewClientBlocklist(id, up, rdns.ClientBlocklistOptions{BlocklistDB: db, BlocklistRefresh: refresh})
			return err
		}
	}
	return s
}

// probe asks for all numbers and compares with the version in force, -1 for
// none. Probing takes no virtual time.
func (s *subject) probe(r *vt.R, label string, version int, why string) bool {
	for i := 0; i < 6; i++ {
		got, err := s.hit(i)
		if err != nil {
			r.Violation("probe", fmt.Sprintf("%s %s: %v", s.kind, s.format, err), label)
			return false
		}
		want := version >= 0 && inVersion(version, i)
		r.Observe("probes", 1)
		r.Eval(fmt.Sprintf("%s %s %s", s.kind, s.format, why))
		if got != want {
			var all []bool
			for k := 0; k < 6; k++ {
				h, _ := s.hit(k)
				all = append(all, h)
			}
			r.Violation("rules", fmt.Sprintf("%s (%s): entry %d on the list: %v, expected version %d with %v; matches now %v; %s", s.kind, s.format, i, got, version, versionNames(max(version, 0)), all, why), label)
			return false
		}
	}
	return true
}

// badLines cannot be parsed in the format; nil if everything can.
func badLines(format string) []string {
	switch format {
	case "domain", "domain-subdomain":
		return []string{"n0.test", "a.*.test"}
	case "regexp":
		return []string{`^n0\.test\.$`, "("}
	case "mac":
		return []string{"02:00:00:00:00:00", "02-00"}
	case "cidr":
		return []string{"192.0.2.0/32", "192.0.2.0/33"}
	case "location":
		return []string{"100", "x1"}
	case "asn":
		return []string{"70000", "AS70001"}
	}
	return nil
}

func reloadCase(r *vt.R, c int) {
	rnd := r.Rand("reload", c)
	world := r.Rand("reload-world", c)
	label := fmt.Sprintf("reload case %d", c)
	r.Case("%s", label)
	s := newSubject(rnd, fmt.Sprintf("reload-%d", c%20))
	// state: version in force and the one that comes next
	var mu sync.Mutex
	version, pending, loads := -1, -1, 0
	why := "first"
	loader := &script{}
	loader.next = func() ([]string, error, time.Duration) {
		mu.Lock()
		defer mu.Unlock()
		loads++
		d := time.Duration(2*world.Intn(3000)) * time.Millisecond
		if loads > 1 {
			switch world.Intn(4) {
			case 0:
				pending, why = -2, "failed load"
				return nil, errors.New("not now"), d
			case 1:
				if b := badLines(s.format); b != nil {
					pending, why = -2, "unusable list"
					return b, nil, d
				}
			}
		}
		pending, why = world.Intn(64), "reload"
		return versionLines(s.format, pending), nil, d
	}
	loader.done = func() {
		mu.Lock()
		defer mu.Unlock()
		if pending >= 0 {
			version = pending
			if loads > 1 {
				r.Observe("reloads taken over", 1)
			}
		} else {
			r.Observe("reloads that failed", 1)
		}
	}
	m := &mortal{BlocklistLoader: loader, r: r}
	defer m.dead.Store(true)
	if err := s.build(m, 10*time.Second); err != nil {
		r.Violation("rejected", err.Error(), label)
		return
	}
	for i := 0; i < 60; i++ {
		time.Sleep(time.Duration(1+2*rnd.Intn(2500)) * time.Millisecond)
		if time.Now().UnixMilli()%2 == 0 {
			time.Sleep(time.Millisecond)
		}
		mu.Lock()
		v, w := version, why
		mu.Unlock()
		if !s.probe(r, label, v, w) {
			return
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if loads < 5 {
		r.Violation("not-reloaded", fmt.Sprintf("%s was loaded %d times in 150 s with a refresh of 10 s", s.kind, loads), label)
	}
}

// countDB counts its uses, to see databases used after they were closed.
type countDB struct {
	r      *vt.R
	label  string
	n      *atomic.Int64
	gen    int64
	closed atomic.Int64
	inuse  atomic.Int64
}

func (d *countDB) Reload() (rdns.IPBlocklistDB, error) {
	if d.closed.Load() != 0 {
		d.r.Violation("reload-closed", "a closed database was reloaded", d.label)
	}
	n := d.n.Add(1)
	if n%3 == 0 {
		return nil, errors.New("not now")
	}
	return &countDB{r: d.r, label: d.label, n: d.n, gen: n}, nil
}
func (d *countDB) Match(ip net.IP) (*rdns.BlocklistMatch, bool) {
	d.inuse.Add(1)
	defer d.inuse.Add(-1)
	for i := 0; i < 3; i++ {
		if d.closed.Load() != 0 {
			d.r.Violation("use-after-close", "a database was used after it was closed", d.label)
		}
		runtime.Gosched()
	}
	d.r.Observe("concurrent matches", 1)
	return nil, false
}
func (d *countDB) Close() error {
	if d.inuse.Load() != 0 {
		d.r.Violation("use-after-close", "a database was closed while in use", d.label)
	}
	if d.closed.Add(1) > 1 {
		d.r.Violation("closed-twice", "a database was closed twice", d.label)
	}
	d.r.Observe("databases closed", 1)
	return nil
}
func (d *countDB) String() string { return "count" }

// reloadRaces reloads every millisecond while many queries match, in real time
// for the race detector.
func reloadRaces(t *testing.T, r *vt.R) {
	label := "reload races"
	r.Case("%s", label)
	up := &vt.Func{Name: "up", F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetReply(q)
		a.Answer = append(a.Answer, vt.RR("q.test. 60 IN A 192.0.2.1"), vt.RR("q.test. 60 IN CNAME n1.test."))
		return a, nil
	}}
	n := new(atomic.Int64)
	rip, err1 := rdns.NewResponseBlocklistIP("race1", up, rdns.ResponseBlocklistIPOptions{BlocklistDB: &countDB{r: r, label: label, n: n}, BlocklistRefresh: time.Millisecond})
	cip, err2 := rdns.NewClientBlocklist("race2", up, rdns.ClientBlocklistOptions{BlocklistDB: &countDB{r: r, label: label, n: n}, BlocklistRefresh: time.Millisecond})
	db, err3 := rdns.NewDomainDB("d", rdns.NewStaticLoader([]string{"x.test"}))
	db2, _ := rdns.NewDomainDB("d", rdns.NewStaticLoader([]string{"x.test"}))
	bl, err4 := rdns.NewBlocklist("race3", up, rdns.BlocklistOptions{BlocklistDB: db, BlocklistRefresh: time.Millisecond, AllowlistDB: db2, AllowlistRefresh: time.Millisecond})
	rn, err5 := rdns.NewResponseBlocklistName("race4", up, rdns.ResponseBlocklistNameOptions{BlocklistDB: db, BlocklistRefresh: time.Millisecond})
	if err := errors.Join(err1, err2, err3, err4, err5); err != nil {
		r.Violation("rejected", err.Error(), label)
		return
	}
	deadline := time.Now().Add(vt.HangLimit)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; time.Now().Before(deadline); i++ {
				if i > 1500 && n.Load() > 1200 {
					return
				}
				for _, g := range []rdns.Resolver{rip, cip, bl, rn} {
					g.Resolve(vt.Query("q.test.", dns.TypeA), rdns.ClientInfo{SourceIP: net.IP{10, 0, 0, 1}})
				}
			}
		}()
	}
	wg.Wait()
}

// loaderCase drives the HTTP and file loaders through failures and restarts.
func loaderCase(r *vt.R, c int, root string) {
	rnd := r.Rand("loader", c)
	label := fmt.Sprintf("loader case %d", c)
	r.Case("%s", label)
	dir := filepath.Join(root, fmt.Sprint("c", c))
	if err := os.MkdirAll(dir, 0o700); err != nil {
		r.Inconclusive("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	useHTTP := rnd.Intn(3) > 0
	allow := rnd.Intn(2) == 0
	cacheDir := ""
	if useHTTP && rnd.Intn(2) == 0 {
		cacheDir = dir
	}
	noDir := useHTTP && cacheDir == "" && rnd.Intn(3) == 0 // a cache directory that isn't there
	url := fmt.Sprintf("http://lists.test/%d.txt", c)
	cacheFile := filepath.Join(dir, fmt.Sprintf("%x", sha256.Sum256([]byte(url))))
	file := filepath.Join(dir, "list.txt")
	// what the source does now
	var mu sync.Mutex
	mode, source := "ok", rnd.Intn(64)
	format := ""
	content := func() string { return strings.Join(versionLines(format, source), "\n") + "\n" }
	tr := &http.Transport{DisableKeepAlives: true, DialContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
		mu.Lock()
		defer mu.Unlock()
		if mode == "refuse" {
			return nil, errors.New("refused")
		}
		cl, sv := vt.MemPipe(false)
		m, body := mode, content()
		go func() {
			defer func() {
				if m != "stall" {
					sv.Close()
				}
			}()
			req, err := http.ReadRequest(bufio.NewReader(sv))
			if err != nil {
				return
			}
			req.Body.Close()
			switch m {
			case "error":
				fmt.Fprintf(sv, "HTTP/1.1 %d X\r\nContent-Length: %d\r\n\r\n%s", []int{404, 500, 301, 403}[len(body)%4], len(body), body)
			case "short":
				fmt.Fprintf(sv, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(body)+50, body[:len(body)/2])
				r.Observe("downloads cut short", 1)
			case "short-chunked":
				fmt.Fprintf(sv, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n", len(body)/2, body[:len(body)/2])
				r.Observe("downloads cut short", 1)
			case "stall":
				fmt.Fprintf(sv, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(body)+50, body[:len(body)/2])
				time.Sleep(3 * time.Hour)
				sv.Close()
			default:
				fmt.Fprintf(sv, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(body))
				sv.Write([]byte(body[:len(body)/3]))
				time.Sleep(500 * time.Millisecond)
				sv.Write([]byte(body[len(body)/3:]))
			}
		}()
		return cl, nil
	}}
	http.DefaultTransport = tr
	setSource := func(m string, v int) {
		mu.Lock()
		defer mu.Unlock()
		mode, source = m, v
		if useHTTP {
			return
		}
		os.Remove(file)
		switch m {
		case "empty":
			os.WriteFile(file, nil, 0o600)
		case "ok":
			os.WriteFile(file, []byte(content()), 0o600)
		case "error": // a directory opens, but cannot be read
			os.Mkdir(file, 0o700)
		}
	}
	stored := -1 // in the cache file
	for start := 0; start < 3; start++ {
		s := newSubject(rnd, fmt.Sprintf("loader-%d", c%20))
		mu.Lock()
		format = s.format
		mu.Unlock()
		if start > 0 && cacheDir != "" {
			// the format may have changed with the subject: write the file as
			// that subject's own previous run would have
			if stored >= 0 {
				os.WriteFile(cacheFile, []byte(strings.Join(versionLines(format, stored), "\n")+"\n"), 0o600)
			}
		}
		modes := []string{"ok", "ok", "refuse", "error", "short", "short-chunked", "stall"}
		if !useHTTP {
			modes = []string{"ok", "ok", "missing", "error", "empty"}
		}
		m := vt.Pick(rnd, modes...)
		setSource(m, rnd.Intn(64))
		var loader rdns.BlocklistLoader
		if useHTTP {
			into := cacheDir
			if noDir {
				into = filepath.Join(dir, "missing")
				r.Observe("lists with an unusable cache directory", 1)
			}
			loader = rdns.NewHTTPLoader(url, rdns.HTTPLoaderOptions{CacheDir: into, AllowFailure: allow})
		} else {
			loader = rdns.NewFileLoader(file, rdns.FileLoaderOptions{AllowFailure: allow})
		}
		live := &mortal{BlocklistLoader: loader, r: r}
		defer live.dead.Store(true)
		begin := time.Now()
		err := s.build(live, time.Hour)
		if time.Since(begin) > 2*time.Hour {
			r.Violation("start-hangs", fmt.Sprintf("a list server that is %q held up the start for %v", m, time.Since(begin)), label)
			return
		}
		version := -1
		switch {
		case cacheDir != "" && stored >= 0:
			version = stored
			r.Observe("starts from the cache file", 1)
		case m == "ok":
			version = source
			if cacheDir != "" {
				stored = source
			}
		case m == "empty":
		case !allow:
			r.Observe("starts that failed", 1)
			if err == nil {
				r.Violation("start", fmt.Sprintf("a list that is %q did not fail the start", m), label)
				return
			}
			continue
		}
		if err != nil {
			r.Violation("start", fmt.Sprintf("the start failed with a list that is %q, allow-failure %v, cached %d: %v", m, allow, stored, err), label)
			return
		}
		desc := fmt.Sprintf("http %v allow %v cache %v", useHTTP, allow, cacheDir != "")
		if !s.probe(r, label, version, desc+" start "+m) {
			return
		}
		for i := 0; i < 6; i++ {
			m = vt.Pick(rnd, modes...)
			if m == "stall" && rnd.Intn(2) == 0 {
				m = "ok"
			}
			setSource(m, rnd.Intn(64))
			mu.Lock()
			now := source
			mu.Unlock()
			time.Sleep(2*time.Hour + time.Minute) // at least one complete reload, even after a stall
			if m == "ok" {
				version = now
				if cacheDir != "" {
					stored = now
				}
				r.Observe("reloads taken over", 1)
			} else if m == "empty" {
				version = -1
				r.Observe("lists emptied", 1)
			} else {
				r.Observe("reloads that failed", 1)
			}
			if !s.probe(r, label, version, desc+" "+m) {
				return
			}
			if cacheDir != "" {
				b, _ := os.ReadFile(cacheFile)
				want := ""
				if stored >= 0 {
					want = strings.Join(versionLines(format, stored), "\n") + "\n"
				}
				if string(b) != want {
					r.Violation("cache-file", fmt.Sprintf("the cache file holds %q, the last complete download was %q (last: %s)", b, want, m), label)
					return
				}
			}
		}
		// without this the old element would go on writing the cache file
		setSource("refuse", 0)
		live.dead.Store(true)
		time.Sleep(2 * time.Hour)
	}
}
