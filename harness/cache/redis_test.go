package cache

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"
	"github.com/redis/go-redis/v9"

	"verif/harness/vt"
)

// fakeRedis speaks enough of the protocol, on virtual time.
type fakeRedis struct {
	mu   sync.Mutex
	data map[string]rval
	mode string // "", "hang", "error", "close", "garbage"
	gets int
	sets int
}

type rval struct {
	v   []byte
	exp time.Time
}

func (f *fakeRedis) dial(ctx context.Context, network, addr string) (net.Conn, error) {
	f.mu.Lock()
	mode := f.mode
	f.mu.Unlock()
	if mode == "down" {
		return nil, fmt.Errorf("connection refused")
	}
	c, s := net.Pipe()
	go f.serve(s)
	return c, nil
}

func (f *fakeRedis) setMode(m string) { f.mu.Lock(); f.mode = m; f.mu.Unlock() }

func (f *fakeRedis) serve(c net.Conn) {
	defer c.Close()
	rd := bufio.NewReader(c)
	for {
		args, err := readCmd(rd)
		if err != nil {
			return
		}
		f.mu.Lock()
		mode := f.mode
		f.mu.Unlock()
		cmd := strings.ToUpper(args[0])
		if cmd == "HELLO" || cmd == "CLIENT" {
			io.WriteString(c, "-ERR unknown command\r\n")
			continue
		}
		switch mode {
		case "hang":
			continue
		case "error":
			io.WriteString(c, "-ERR injected\r\n")
			continue
		case "close":
			return
		}
		io.WriteString(c, f.exec(cmd, args[1:], mode))
	}
}

func (f *fakeRedis) exec(cmd string, args []string, mode string) string {
	f.mu.Lock()
	defer f.mu.Unlock()
	now := time.Now()
	for k, v := range f.data {
		if !v.exp.IsZero() && !now.Before(v.exp) {
			delete(f.data, k)
		}
	}
	switch cmd {
	case "GET":
		f.gets++
		v, ok := f.data[args[0]]
		if !ok {
			return "$-1\r\n"
		}
		b := v.v
		if mode == "garbage" {
			b = append([]byte(nil), b...)
			switch f.gets % 4 {
			case 0:
				b = b[:15] // in the middle of the message header
			case 1:
				b = nil
			case 2:
				b[0] = 99 // some other version
			case 3:
				b = b[:9]
			}
		}
		return fmt.Sprintf("$%d\r\n%s\r\n", len(b), b)
	case "SET":
		f.sets++
		e := rval{v: []byte(args[1])}
		for i := 2; i < len(args); i++ {
			n := int64(0)
			if i+1 < len(args) {
				n, _ = strconv.ParseInt(args[i+1], 10, 64)
			}
			switch strings.ToUpper(args[i]) {
			case "EX":
				e.exp = now.Add(time.Duration(n) * time.Second)
			case "PX":
				e.exp = now.Add(time.Duration(n) * time.Millisecond)
			}
		}
		f.data[args[0]] = e
		return "+OK\r\n"
	case "DEL", "UNLINK":
		n := 0
		for _, k := range args {
			if _, ok := f.data[k]; ok {
				delete(f.data, k)
				n++
			}
		}
		return fmt.Sprintf(":%d\r\n", n)
	case "SCAN":
		// in small pages, as a real server does
		cur, _ := strconv.Atoi(args[0])
		pat := "*"
		for i := 1; i+1 < len(args); i++ {
			if strings.ToUpper(args[i]) == "MATCH" {
				pat = args[i+1]
			}
		}
		// the cursor is a hash range: deletions do not make it skip keys
		var ks []string
		next := cur + 1
		for k := range f.data {
			h := 0
			for _, ch := range k {
				h = (h*31 + int(ch)) & 7
			}
			if h == cur && redisMatch(pat, k) {
				ks = append(ks, k)
			}
		}
		if next == 8 {
			next = 0
		}
		sort.Strings(ks)
		var b strings.Builder
		n := strconv.Itoa(next)
		fmt.Fprintf(&b, "*2\r\n$%d\r\n%s\r\n*%d\r\n", len(n), n, len(ks))
		for _, k := range ks {
			fmt.Fprintf(&b, "$%d\r\n%s\r\n", len(k), k)
		}
		return b.String()
	case "DBSIZE":
		return fmt.Sprintf(":%d\r\n", len(f.data))
	case "FLUSHDB", "FLUSHALL":
		f.data = map[string]rval{}
		return "+OK\r\n"
	case "PING":
		return "+PONG\r\n"
	}
	return "-ERR unknown command\r\n"
}

// redisMatch is the server's pattern matching.
func redisMatch(p, s string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '*':
			for i := 0; i <= len(s); i++ {
				if redisMatch(p[1:], s[i:]) {
					return true
				}
			}
			return false
		case '?':
			if s == "" {
				return false
			}
			p, s = p[1:], s[1:]
		case '[':
			if s == "" {
				return false
			}
			end := strings.IndexByte(p[1:], ']')
			if end < 0 {
				end = len(p) - 2
			}
			set := p[1 : 1+end]
			not := strings.HasPrefix(set, "^")
			set = strings.TrimPrefix(set, "^")
			in := false
			for i := 0; i < len(set); i++ {
				switch {
				case set[i] == '\\' && i+1 < len(set):
					i++
					in = in || set[i] == s[0]
				case i+2 < len(set) && set[i+1] == '-':
					in = in || min(set[i], set[i+2]) <= s[0] && s[0] <= max(set[i], set[i+2])
					i += 2
				default:
					in = in || set[i] == s[0]
				}
			}
			if in == not {
				return false
			}
			p, s = p[min(end+2, len(p)):], s[1:]
		default:
			if p[0] == '\\' && len(p) > 1 {
				p = p[1:]
			}
			if s == "" || p[0] != s[0] {
				return false
			}
			p, s = p[1:], s[1:]
		}
	}
	return s == ""
}

func readCmd(rd *bufio.Reader) ([]string, error) {
	line, err := rd.ReadString('\n')
	if err != nil {
		return nil, err
	}
	n, err := strconv.Atoi(strings.TrimSpace(line[1:]))
	if err != nil {
		return nil, err
	}
	var out []string
	for i := 0; i < n; i++ {
		l, err := rd.ReadString('\n')
		if err != nil {
			return nil, err
		}
		m, err := strconv.Atoi(strings.TrimSpace(l[1:]))
		if err != nil {
			return nil, err
		}
		b := make([]byte, m+2)
		if _, err := io.ReadFull(rd, b); err != nil {
			return nil, err
		}
		out = append(out, string(b[:m]))
	}
	return out, nil
}

func newRedisBackend(f *fakeRedis, prefix string, sync bool) rdns.CacheBackend {
	return rdns.NewRedisBackend(rdns.RedisBackendOptions{
		RedisOptions: redis.Options{Addr: "fake:6379", Dialer: f.dial, Protocol: 2, DisableIndentity: true, ContextTimeoutEnabled: true},
		KeyPrefix:    prefix,
		SyncSet:      sync,
	})
}

// TestC07: the Redis backend serves what was stored, and a broken server only
// costs cache hits.
func TestC07(t *testing.T) {
	r := vt.Start(t, "C07", "random histories of two routedns instances sharing a Redis server that is slow, failing, closing, or returning damaged values part of the time; non-trivial when an answer was produced, distinct by (source, question key, rcode, age)")
	r.Need("answers from cache", 1500)
	r.Need("required hits", 800)
	r.Need("queries during faults", 800)
	r.Need("flushes", 30)
	r.Need("concurrent histories", 10)
	r.Need("queries in bursts during faults", 1000)
	vt.Virtual(t, r, func(t *testing.T) {
		for c := 0; c < r.N(50, 1000); c++ {
			redisCase(r, c)
		}
		for c := 0; c < r.N(20, 300); c++ {
			redisConcurrent(r, c)
		}
		for c := 0; c < r.N(6, 60); c++ {
			redisBurst(r, c)
		}
	})
}

func redisCase(r *vt.R, c int) {
	rnd := r.Rand("redis", c)
	f := &fakeRedis{data: map[string]rval{}}
	opt := randOptions(rnd)
	w := newWorld(rnd, opt)
	w.slack = time.Second
	prefix := vt.Pick(rnd, "rdns:", "routedns-", "p", "c[ab]:", "d?:", "e*:", "f\\:", "g[^h]:", "[i")
	foreign := []string{"someone:else", "x" + prefix + "y", strings.ToUpper(prefix) + "y", "ca:y", "cb:y", "dx:y", "ex:y", "f:y", "gx:y", "i", "iy", prefix[:len(prefix)-1]}
	for _, k := range foreign {
		f.data[k] = rval{v: []byte("x")}
	}
	mk := func(i int) *rdns.Cache {
		o := opt
		o.FlushQuery = "flush.cache."
		o.Backend = newRedisBackend(f, prefix, rnd.Intn(2) == 0)
		return rdns.NewCache(fmt.Sprintf("redis%d-%d", c, i), w, o)
	}
	caches := []*rdns.Cache{mk(0), mk(1)}
	other := rdns.CacheOptions{Backend: newRedisBackend(f, "zz-"+prefix, true)}
	w2 := &stamp{ttl: 3600}
	strange := rdns.NewCache(fmt.Sprintf("redis%d-other", c), w2, other)
	stored := map[string]*produced{}
	for i := 0; i < 250; i++ {
		if rnd.Intn(3) == 0 {
			time.Sleep(steps[rnd.Intn(len(steps))])
		}
		if rnd.Intn(25) == 0 {
			f.setMode(vt.Pick(rnd, "", "", "", "", "", "hang", "error", "close", "garbage", "down"))
			if f.mode == "" {
				// connections that broke meanwhile may still be in the pools
				for j := 0; j < 12; j++ {
					caches[j%2].Resolve(vt.Query(fmt.Sprintf("prime%d-%d.", i, j), dns.TypeA), rdns.ClientInfo{DoHPath: "prime"})
					time.Sleep(time.Second)
				}
			}
		}
		faulty := f.mode != ""
		label := fmt.Sprintf("redis case %d op %d mode %q", c, i, f.mode)
		r.Case("%s", label)
		cache := caches[rnd.Intn(2)]
		if rnd.Intn(100) == 0 {
			if a, err := cache.Resolve(vt.Query("flush.cache.", dns.TypeA), rdns.ClientInfo{}); err != nil || a == nil {
				r.Violation("flush-reply", fmt.Sprint(err), label)
			}
			synctest.Wait()
			stored = map[string]*produced{}
			if !faulty {
				f.mu.Lock()
				for k := range f.data {
					if strings.HasPrefix(k, prefix) {
						r.Violation("flush", "key left after a flush: "+k, label)
					}
				}
				for _, k := range foreign {
					if _, ok := f.data[k]; !ok && !strings.HasPrefix(k, prefix) {
						r.Violation("flush-foreign", fmt.Sprintf("flushing %q removed the key %q", prefix, k), label)
					}
				}
				f.mu.Unlock()
				r.Observe("flushes", 1)
			}
			continue
		}
		if rnd.Intn(20) == 0 && !faulty {
			// another prefix never sees these entries
			a, err := strange.Resolve(vt.Query("a.example.", dns.TypeTXT), rdns.ClientInfo{})
			if err != nil || stampOf(a) == "" || len(a.Answer) != 1 || strings.HasPrefix(stampOf(a), "v") {
				r.Violation("prefix", "a cache with another prefix got "+vt.Canon(a), label)
			}
		}
		q := randQuery(rnd, true)
		if rnd.Intn(3) != 0 {
			q = randQuery(rand.New(rand.NewSource(int64(c*100+rnd.Intn(5)))), true)
			q.Id = uint16(rnd.Intn(65536))
		}
		q0 := q.Copy()
		k := keyOf(q0)
		tok := nextToken()
		label += " " + k
		start := time.Now()
		res, ok := vt.ResolveVirtual(cache, q, rdns.ClientInfo{DoHPath: tok}, time.Minute)
		if !ok {
			r.Violation("hang", "the query never completes", label)
			return
		}
		now := time.Now()
		synctest.Wait() // background writes, unless the server hangs
		w.judge(r, q0, tok, res, now, label)
		w.mu.Lock()
		asked := w.calls[tok]
		w.mu.Unlock()
		if faulty {
			r.Observe("queries during faults", 1)
			if now.Sub(start) > 2*time.Second {
				r.Violation("slow", fmt.Sprintf("the query took %v with the cache server in state %q", now.Sub(start), f.mode), label)
			}
		}
		sk := fmt.Sprint(k, q0.IsEdns0() != nil) // whether they share an entry is not specified
		if p := stored[sk]; p != nil && !faulty {
			if start.Sub(p.at)+2*time.Second < p.life {
				r.Observe("required hits", 1)
				if asked > 0 {
					r.Violation("not-reused", fmt.Sprintf("%s: an answer stored %v ago with %v to live was not reused", k, start.Sub(p.at), p.life), label)
				}
			}
		}
		if asked > 0 {
			w.mu.Lock()
			ps := w.byKey[k]
			if len(ps) > 0 && ps[len(ps)-1].token == tok && ps[len(ps)-1].store {
				stored[sk] = ps[len(ps)-1]
				if faulty {
					delete(stored, sk) // may or may not have been written
				}
			}
			w.mu.Unlock()
		}
		if faulty && rnd.Intn(2) == 0 {
			time.Sleep(200 * time.Millisecond)
		}
		scribble(res.A)
		scribble(q)
	}
	// leave no client running into the next case
	f.setMode("")
	time.Sleep(time.Second)
}

func redisConcurrent(r *vt.R, c int) {
	rnd := r.Rand("redisc", c)
	f := &fakeRedis{data: map[string]rval{}}
	opt := randOptions(rnd)
	w := newWorld(rand.New(rand.NewSource(rnd.Int63())), opt)
	w.slack = time.Second
	w.delay = true
	o := opt
	o.Backend = newRedisBackend(f, "p:", c%2 == 0)
	cache := rdns.NewCache(fmt.Sprintf("redisc%d", c), w, o)
	label := fmt.Sprintf("redis concurrent case %d", c)
	r.Case("%s", label)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		grnd := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 60; i++ {
				if grnd.Intn(2) == 0 {
					time.Sleep(steps[grnd.Intn(10)])
				}
				q := randQuery(rand.New(rand.NewSource(int64(c*100+grnd.Intn(6)))), true)
				q.Id = uint16(grnd.Intn(65536))
				q0 := q.Copy()
				tok := fmt.Sprintf("rc%dg%di%d", c, g, i)
				a, err := cache.Resolve(q, rdns.ClientInfo{DoHPath: tok})
				w.judge(r, q0, tok, vt.Result{A: a, Err: err}, time.Now(), label)
				scribble(a)
				scribble(q)
			}
		}(g)
	}
	wg.Wait()
	time.Sleep(time.Second)
	r.Observe("concurrent histories", 1)
}

// redisBurst: many queries at once while the server does not answer, then
// again when it does.
func redisBurst(r *vt.R, c int) {
	rnd := r.Rand("burst", c)
	f := &fakeRedis{data: map[string]rval{}}
	up := &stamp{ttl: 3600}
	n := vt.Pick(rnd, 300, 700)
	cache := rdns.NewCache(fmt.Sprintf("redisburst%d", c), up, rdns.CacheOptions{Backend: newRedisBackend(f, "b:", rnd.Intn(4) == 0)})
	mode := []string{"hang", "hang", "down"}[c%3]
	f.setMode(mode)
	label := fmt.Sprintf("burst case %d mode %q of %d", c, mode, n)
	r.Case("%s", label)
	ask := func(i int) (time.Duration, *dns.Msg, error) {
		begin := time.Now()
		a, err := cache.Resolve(vt.Query(fmt.Sprintf("b%d.example.", i), dns.TypeTXT), rdns.ClientInfo{})
		return time.Since(begin), a, err
	}
	var wg sync.WaitGroup
	var worst atomic.Int64
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			d, a, err := ask(i)
			if err != nil || a == nil || stampOf(a) == "" {
				r.Violation("no-answer", fmt.Sprintf("%s %v", vt.Canon(a), err), label)
			}
			for {
				w := worst.Load()
				if int64(d) <= w || worst.CompareAndSwap(w, int64(d)) {
					break
				}
			}
		}()
	}
	wg.Wait()
	r.Observe("queries in bursts during faults", n)
	if d := time.Duration(worst.Load()); d > 3*time.Second {
		r.Violation("slow", fmt.Sprintf("a query took %v with the cache server in state %q and %d at once", d, mode, n), label)
	}
	r.State("longest wait in a burst (s)", fmt.Sprint(mode, " ", time.Duration(worst.Load())/time.Second))
	r.Eval(fmt.Sprintf("burst %s %d", mode, n))
	// used again afterwards
	f.setMode("")
	hits := 0
	for i := 0; i < 60; i++ {
		before := up.count()
		ask(i % 5)
		if up.count() == before {
			hits++
		}
		time.Sleep(time.Second)
	}
	if hits == 0 {
		r.Violation("not-reused", "no answer came from the cache in the minute after the server recovered", label)
	}
}
