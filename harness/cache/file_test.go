package cache

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

func workDir() string {
	d := os.Getenv("VERIF_WORK")
	if d == "" {
		d = os.TempDir()
	}
	return d
}

// TestC06: what is in the cache survives a restart, and a damaged file only
// costs entries.
func TestC06(t *testing.T) {
	r := vt.Start(t, "C06", "histories with restarts at random points, between which the file is left alone, cut, damaged or given foreign records; non-trivial when an answer was given after a restart, distinct by (source, question key, rcode, age)")
	r.Need("restarts", 150)
	r.Need("required hits", 2000)
	r.Need("damaged files", 60)
	r.Need("answers from cache", 2000)
	r.Need("leftovers", 100)
	vt.Virtual(t, r, func(t *testing.T) {
		for c := 0; c < r.N(60, 1500); c++ {
			restartCase(r, c)
		}
		for c := 0; c < r.N(84, 800); c++ {
			damagedCase(r, c)
		}
		for c := 0; c < r.N(30, 400); c++ {
			reloadOrder(r, c)
		}
		for c := 0; c < r.N(30, 300); c++ {
			leftovers(r, c)
		}
		savers(r, r.N(12, 200))
	})
}

func restartCase(r *vt.R, c int) {
	rnd := r.Rand("restart", c)
	dir, err := os.MkdirTemp(workDir(), "c06-")
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "cache.json")
	mode := os.FileMode(0)
	if rnd.Intn(3) == 0 {
		mode = vt.Pick(rnd, os.FileMode(0o644), 0o640, 0o666, 0o600)
		os.WriteFile(file, nil, mode)
		os.Chmod(file, mode)
	}
	opt := randOptions(rnd)
	opt.PrefetchTrigger, opt.PrefetchEligible = 20, 30
	prefetch := rnd.Intn(2) == 0
	if !prefetch {
		opt.PrefetchTrigger, opt.PrefetchEligible = 0, 0
	}
	w := newWorld(rnd, opt)
	stored := map[string]*produced{}
	interval := time.Duration(0)
	if rnd.Intn(2) == 0 {
		interval = time.Duration(1+rnd.Intn(100)) * time.Second
	}
	for life := 0; life < 4; life++ {
		backend := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: file, SaveInterval: interval})
		o := opt
		o.Backend = backend
		cache := rdns.NewCache(fmt.Sprintf("file%d-%d", c, life), w, o)
		for i := 0; i < 70; i++ {
			if rnd.Intn(4) == 0 {
				time.Sleep(steps[rnd.Intn(len(steps))])
			}
			q := randQuery(rnd, true)
			if rnd.Intn(2) == 0 {
				q = randQuery(rand.New(rand.NewSource(int64(c*100+rnd.Intn(8)))), true)
				q.Id = uint16(rnd.Intn(65536))
			}
			q0 := q.Copy()
			k := keyOf(q0)
			tok := nextToken()
			label := fmt.Sprintf("restart case %d life %d op %d %s", c, life, i, k)
			r.Case("%s", label)
			now := time.Now()
			res, ok := vt.ResolveVirtual(cache, q, rdns.ClientInfo{DoHPath: tok}, time.Hour)
			if !ok {
				r.Violation("hang", "the query never completes", label)
				return
			}
			synctest.Wait()
			w.judge(r, q0, tok, res, now, label)
			w.mu.Lock()
			asked := w.calls[tok]
			if p := stored[k]; p != nil && now.Sub(p.at) < p.life {
				r.Observe("required hits", 1)
				// with prefetch an upstream query may happen on a hit
				if asked > 0 && !prefetch {
					r.Violation("not-reused", fmt.Sprintf("%s: an answer fetched %v ago with %v to live was not reused", k, now.Sub(p.at), p.life), label)
				}
				if asked > 0 && prefetch && res.A != nil && res.Err == nil && w.explainAt(p, res.A, q0, tok, now, 0) != "" {
					r.Violation("not-reused", fmt.Sprintf("%s: an answer fetched %v ago with %v to live was not reused", k, now.Sub(p.at), p.life), label)
				}
				if left, has := minLeft(p.msg); prefetch && has && p.msg.Rcode == dns.RcodeSuccess {
					left -= uint32(now.Sub(p.at) / time.Second)
					if p.minTTL > 30 && left < 20 && asked == 0 {
						r.Violation("no-prefetch", fmt.Sprintf("%s with %d s left was not refreshed", k, left), label)
					}
				}
			}
			if asked > 0 {
				ps := w.byKey[k]
				if len(ps) > 0 && ps[len(ps)-1].token == tok && ps[len(ps)-1].store {
					np := ps[len(ps)-1]
					stored[k] = np
					if prefetch {
						// On a hit it depends on the TTL whether the refresh
						// replaces the entry.
						for _, old := range ps[:len(ps)-1] {
							if res.A == nil || w.explainAt(old, res.A, q0, tok, now, 0) == "" {
								stored[k] = nil
							}
						}
					}
				}
			}
			w.mu.Unlock()
		}
		// a store in this instant counts
		if rnd.Intn(3) != 0 || interval == 0 {
			if err := backend.Close(); err != nil {
				r.Violation("save", "saving the cache failed: "+err.Error(), nil)
			}
		} else {
			time.Sleep(interval + time.Second) // killed after an interval save
		}
		r.Observe("restarts", 1)
		fi, err := os.Stat(file)
		if err != nil {
			r.Violation("save", "no cache file after saving: "+err.Error(), nil)
			return
		}
		want := os.FileMode(0o600)
		if mode != 0 {
			want = mode
		}
		if fi.Mode().Perm() != want {
			r.Violation("mode", fmt.Sprintf("the cache file has mode %v, expected %v", fi.Mode().Perm(), want), fmt.Sprintf("restart case %d", c))
		}
		if ents, _ := os.ReadDir(dir); len(ents) != 1 {
			r.Violation("leftover", fmt.Sprintf("%d files in the directory after saving", len(ents)), fmt.Sprintf("restart case %d", c))
		}
		// Instances of earlier lives still run in this process; only one of
		// them may write the file.
		next := filepath.Join(dir, fmt.Sprintf("cache%d.json", life))
		os.Rename(file, next)
		file = next
		if rnd.Intn(2) == 0 {
			time.Sleep(steps[rnd.Intn(len(steps))])
		}
		// the earlier instance would recreate its file
		if interval > 0 {
			sub := filepath.Join(dir, fmt.Sprintf("life%d", life))
			os.Mkdir(sub, 0o700)
			n2 := filepath.Join(sub, "cache.json")
			os.Rename(file, n2)
			dir, file = sub, n2
		}
	}
}

// fills gives every cache an id of its own, as a configuration does.
var fills atomic.Int64

// fill stores n stamped answers and saves them.
func fill(file string, n int, tag string, ttl uint32) ([]byte, error) {
	up := &vt.Func{Name: "up", F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		a := new(dns.Msg)
		a.SetReply(q)
		a.Answer = append(a.Answer, vt.RR("%s %d IN TXT \"%s %s\"", q.Question[0].Name, ttl, tag, q.Question[0].Name))
		return a, nil
	}}
	b := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: file})
	c := rdns.NewCache(fmt.Sprintf("fill%d", fills.Add(1)), up, rdns.CacheOptions{Backend: b})
	for i := 0; i < n; i++ {
		c.Resolve(vt.Query(fmt.Sprintf("f%d.%s.example.", i, tag), dns.TypeTXT), rdns.ClientInfo{})
	}
	if err := b.Close(); err != nil {
		return nil, err
	}
	return os.ReadFile(file)
}

func damagedCase(r *vt.R, c int) {
	rnd := r.Rand("damaged", c)
	dir, _ := os.MkdirTemp(workDir(), "c06d-")
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "cache.json")
	n := 1 + rnd.Intn(40)
	good, err := fill(file, n, "t", 3600)
	if err != nil {
		r.Violation("save", err.Error(), nil)
		return
	}
	kind := []string{"cut", "flip", "foreign", "garbage", "empty", "lines", "append"}[c%7]
	bad := append([]byte(nil), good...)
	lines := bytes.SplitAfter(good, []byte("\n"))
	mustHave := 0 // how many of the n must still be there
	faithful := true
	switch kind {
	case "cut":
		bad = bad[:rnd.Intn(len(bad))]
	case "flip":
		for i := 0; i < 1+rnd.Intn(8); i++ {
			bad[rnd.Intn(len(bad))] ^= byte(1 << rnd.Intn(8))
		}
		faithful = false
	case "foreign":
		// records of another version between ours
		var b bytes.Buffer
		for _, l := range lines {
			if rnd.Intn(2) == 0 {
				b.WriteString(vt.Pick(rnd, "{}\n", `{"Key":{"Question":{"Name":"x.example."}},"Answer":{"Msg":"AAAA"}}`+"\n", `{"Other":true,"Answer":{}}`+"\n", `{"Key":{"Question":{"Name":""}},"Answer":{"Msg":""}}`+"\n"))
			}
			b.Write(l)
		}
		bad = b.Bytes()
		mustHave = n
	case "garbage":
		bad = make([]byte, rnd.Intn(5000))
		rnd.Read(bad)
		faithful = false
	case "empty":
		bad = nil
	case "lines":
		rnd.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
		bad = bytes.Join(lines[:rnd.Intn(len(lines)+1)], nil)
	case "append":
		bad = append(bad, []byte(vt.Pick(rnd, "garbage", "{", "\x00\x00\x00", "]"))...)
		mustHave = n
	}
	os.WriteFile(file, bad, 0o600)
	label := fmt.Sprintf("damaged case %d kind %s records %d", c, kind, n)
	r.Case("%s", label)
	asked := 0
	up := &vt.Func{Name: "up2", F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
		asked++
		a := new(dns.Msg)
		a.SetReply(q)
		a.Answer = append(a.Answer, vt.RR("%s 3600 IN TXT \"fresh %s\"", q.Question[0].Name, q.Question[0].Name))
		return a, nil
	}}
	time.Sleep(time.Duration(rnd.Intn(100)) * time.Second)
	b := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: file})
	cache := rdns.NewCache(fmt.Sprintf("dmg%d", c), up, rdns.CacheOptions{Backend: b})
	for round := 0; round < 2; round++ {
		hits := 0
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("f%d.t.example.", i)
			before := asked
			a, err := cache.Resolve(vt.Query(name, dns.TypeTXT), rdns.ClientInfo{})
			if err != nil || a == nil {
				r.Violation("no-answer", fmt.Sprintf("%v %v", a, err), label)
				continue
			}
			if asked == before {
				hits++
				r.Observe("answers from cache", 1)
			}
			if faithful {
				s := stampOf(a)
				if s != "t "+name && s != "fresh "+name {
					r.Violation("unfaithful", fmt.Sprintf("%s got %s", name, vt.Canon(a)), label)
				}
			}
			r.Eval(fmt.Sprintf("%s %d %v", kind, i, asked == before))
		}
		if round == 0 && hits < mustHave {
			r.Violation("lost", fmt.Sprintf("%d of %d intact records were not loaded", mustHave-hits, mustHave), label)
		}
		if round == 1 && hits < n && faithful {
			r.Violation("not-reused", fmt.Sprintf("only %d of %d entries are reused", hits, n), label)
		}
	}
	// and the next save is whole again
	if err := b.Close(); err != nil {
		r.Violation("save", err.Error(), label)
	}
	b2 := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: file})
	if faithful && b2.Size() != b.Size() {
		r.Violation("lost", fmt.Sprintf("%d entries saved, %d loaded", b.Size(), b2.Size()), label)
	}
	r.Observe("damaged files", 1)
}

// reloadOrder: with less room after a restart the most recently used survive.
func reloadOrder(r *vt.R, c int) {
	rnd := r.Rand("order", c)
	dir, _ := os.MkdirTemp(workDir(), "c06o-")
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "cache.json")
	up := &stamp{ttl: 100000}
	b := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: file})
	cache := rdns.NewCache(fmt.Sprintf("ord%d", c), up, rdns.CacheOptions{Backend: b})
	var order []string
	use := func(k string) {
		for i, x := range order {
			if x == k {
				order = append(order[:i], order[i+1:]...)
				break
			}
		}
		order = append([]string{k}, order...)
		cache.Resolve(vt.Query(k, dns.TypeTXT), rdns.ClientInfo{})
	}
	n := 2 + rnd.Intn(20)
	for i := 0; i < 60; i++ {
		use(fmt.Sprintf("o%d.example.", rnd.Intn(n)))
	}
	if err := b.Close(); err != nil {
		r.Violation("save", err.Error(), nil)
		return
	}
	room := 1 + rnd.Intn(len(order))
	b2 := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: file, Capacity: room})
	cache2 := rdns.NewCache(fmt.Sprintf("ordb%d", c), up, rdns.CacheOptions{Backend: b2})
	label := fmt.Sprintf("order case %d entries %d room %d", c, len(order), room)
	r.Case("%s", label)
	if b2.Size() != room {
		r.Violation("size", fmt.Sprintf("%d entries loaded with room for %d of %d", b2.Size(), room, len(order)), label)
	}
	for i := 0; i < room; i++ {
		before := up.count()
		cache2.Resolve(vt.Query(order[i], dns.TypeTXT), rdns.ClientInfo{})
		if up.count() != before {
			r.Violation("order", fmt.Sprintf("the %d. most recently used entry did not survive with room for %d", i+1, room), label)
		}
		r.Observe("required hits", 1)
	}
	r.Eval(label)
}

// leftovers: starting removes old temporary files and nothing else.
func leftovers(r *vt.R, c int) {
	rnd := r.Rand("left", c)
	dir, _ := os.MkdirTemp(workDir(), "c06l-")
	defer os.RemoveAll(dir)
	// what an interrupted save leaves behind is known only by making one: see
	// the crash monitor. Here: files that are none of our business.
	old := time.Now().Add(-48 * time.Hour)
	keep := []string{"routedns2", "routedns-tmp-1", "routedns20240101", "cache.json.bak", "routedns.toml", "tmp-1", "x.routedns-tmp-1", ".routedns-tm", ".routedns", "README"}
	for _, k := range keep {
		os.WriteFile(filepath.Join(dir, k), []byte("mine"), 0o644)
		os.Chtimes(filepath.Join(dir, k), old, old)
	}
	// young temporary files belong to a save under way in another process
	young := filepath.Join(dir, fmt.Sprintf(".routedns-tmp-%d", rnd.Intn(1e9)))
	os.WriteFile(young, []byte("x"), 0o600)
	at := time.Now().Add(-time.Duration(rnd.Intn(50)) * time.Minute)
	os.Chtimes(young, at, at)
	// a link or directory of that name is not a temporary file
	target := filepath.Join(dir, "README")
	link := filepath.Join(dir, ".routedns-tmp-77")
	os.Symlink(target, link)
	sub := filepath.Join(dir, ".routedns-tmp-88")
	os.Mkdir(sub, 0o700)
	os.Chtimes(sub, old, old)
	stale := filepath.Join(dir, ".routedns-tmp-123456789")
	os.WriteFile(stale, []byte("x"), 0o600)
	os.Chtimes(stale, old, old)
	label := fmt.Sprintf("leftovers case %d", c)
	r.Case("%s", label)
	if c%2 == 0 {
		rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: filepath.Join(dir, "cache.json")})
	} else {
		rdns.NewHTTPLoader("http://127.0.0.1:1/list", rdns.HTTPLoaderOptions{CacheDir: dir})
	}
	synctest.Wait()
	for _, k := range append(keep, filepath.Base(young), filepath.Base(link), filepath.Base(sub)) {
		if _, err := os.Lstat(filepath.Join(dir, k)); err != nil {
			r.Violation("foreign-file", "starting removed "+k, label)
		}
	}
	if b, _ := os.ReadFile(target); string(b) != "mine" {
		r.Violation("foreign-file", "starting changed a file behind a link", label)
	}
	if _, err := os.Lstat(stale); err == nil {
		r.Violation("stale-temp", "a temporary file left two days ago was not removed", label)
	}
	r.Observe("leftovers", len(keep)+3)
	r.Eval(strings.Join([]string{label}, ""))
}

// savers: concurrent saves and queries; whoever reads the file sees a whole one.
func savers(r *vt.R, cases int) {
	for c := 0; c < cases; c++ {
		rnd := r.Rand("savers", c)
		dir, _ := os.MkdirTemp(workDir(), "c06s-")
		file := filepath.Join(dir, "cache.json")
		up := &stamp{ttl: 100000}
		b := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: file, SaveInterval: time.Millisecond})
		cache := rdns.NewCache(fmt.Sprintf("sav%d", c), up, rdns.CacheOptions{Backend: b})
		label := fmt.Sprintf("savers case %d", c)
		r.Case("%s", label)
		first := 5 + rnd.Intn(300)
		for i := 0; i < first; i++ {
			cache.Resolve(vt.Query(fmt.Sprintf("s%d.example.", i), dns.TypeTXT), rdns.ClientInfo{})
		}
		b.Close()
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 15; i++ {
					switch g {
					case 0, 1:
						if err := b.Close(); err != nil {
							r.Violation("save", err.Error(), label)
						}
					case 2:
						for j := 0; j < 10; j++ {
							cache.Resolve(vt.Query(fmt.Sprintf("t%d-%d.example.", i, j), dns.TypeTXT), rdns.ClientInfo{})
						}
						time.Sleep(time.Millisecond)
					case 3:
						n := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: file}).Size()
						if n < first {
							r.Violation("torn", fmt.Sprintf("a reader saw %d entries while never fewer than %d were saved", n, first), label)
						}
						r.Eval(fmt.Sprintf("savers %d", n))
						time.Sleep(time.Millisecond)
					}
				}
			}(g)
		}
		wg.Wait()
		// stop the interval saves of this instance: it keeps failing quietly
		os.RemoveAll(dir)
		break1ms(dir)
	}
}

// break1ms lets pending saves of a finished case fail.
func break1ms(dir string) { time.Sleep(5 * time.Millisecond) }
