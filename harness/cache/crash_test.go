package cache

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
	"github.com/miekg/dns"

	"verif/harness/vt"
)

func init() {
	if os.Getenv("VERIF_HELPER") != "" {
		runtime.LockOSThread() // the save happens on the main thread
	}
}

func TestMain(m *testing.M) {
	if h := os.Getenv("VERIF_HELPER"); h != "" {
		helper(h)
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// helper is the process that gets killed: it prepares, waits for a go-ahead,
// and replaces the file. Exit 0: replaced, 3: it reported a failure.
func helper(h string) {
	const prSetPtracer = 0x59616d61
	syscall.RawSyscall6(syscall.SYS_PRCTL, prSetPtracer, ^uintptr(0), 0, 0, 0, 0)
	parts := strings.Split(h, "|")
	file, tag := parts[1], parts[2]
	n, _ := strconv.Atoi(parts[3])
	var save func() error
	switch parts[0] {
	case "cache":
		up := &vt.Func{Name: "up", F: func(q *dns.Msg, ci rdns.ClientInfo) (*dns.Msg, error) {
			a := new(dns.Msg)
			a.SetReply(q)
			a.Answer = append(a.Answer, vt.RR("%s 3600000 IN TXT \"%s %s\" \"%s\"", q.Question[0].Name, tag, q.Question[0].Name, strings.Repeat("x", 200)))
			return a, nil
		}}
		b := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: file})
		c := rdns.NewCache("helper", up, rdns.CacheOptions{Backend: b})
		for i := 0; i < n; i++ {
			c.Resolve(vt.Query(fmt.Sprintf("f%d.%s.example.", i, tag), dns.TypeTXT), rdns.ClientInfo{})
		}
		save = b.Close
	case "list":
		l := rdns.NewHTTPLoader(parts[4], rdns.HTTPLoaderOptions{CacheDir: filepath.Dir(file)})
		if _, err := os.Stat(file); err == nil {
			l.Load() // the first load comes from disk
		}
		save = func() error { _, err := l.Load(); return err }
	}
	os.Stdout.WriteString("READY\n")
	var b [1]byte
	for {
		k, err := syscall.Read(0, b[:])
		if k == 1 {
			break
		}
		if err != syscall.EINTR {
			os.Exit(9)
		}
	}
	if err := save(); err != nil {
		os.Exit(3)
	}
	os.Exit(0)
}

type outcome struct {
	code   int // exit code, -1 killed
	trace  string
	reason string
}

const traced = "write,pwrite64,writev,pwritev,openat,open,creat,rename,renameat,renameat2,fsync,fdatasync,fchmod,fchmodat,chmod,close,unlink,unlinkat,ftruncate,truncate,link,linkat,symlinkat,copy_file_range,sendfile,fallocate"

// runHelper starts the helper, attaches the tracer with an injection, and lets
// it go.
func runHelper(h, inject string) outcome {
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_HELPER="+h, "GOMAXPROCS=2", "VERIF_REPORT=", "GORACE=", "TMPDIR=/nonexistent")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		return outcome{code: -9, reason: err.Error()}
	}
	defer cmd.Wait()
	defer cmd.Process.Kill()
	buf := make([]byte, 6)
	if _, err := io.ReadFull(out, buf); err != nil {
		return outcome{code: -9, reason: "helper did not start: " + err.Error()}
	}
	log := filepath.Join(workDir(), fmt.Sprintf("trace-%d", cmd.Process.Pid))
	defer os.Remove(log)
	args := []string{"-f", "-y", "-s", "40", "-o", log, "-e", "trace=" + traced}
	if inject != "" {
		args = append(args, "-e", "inject="+inject)
	}
	args = append(args, "-p", strconv.Itoa(cmd.Process.Pid))
	st := exec.Command("strace", args...)
	errp, _ := st.StderrPipe()
	if err := st.Start(); err != nil {
		return outcome{code: -9, reason: "tracer: " + err.Error()}
	}
	// it says so when it is attached
	line := make([]byte, 0, 256)
	one := make([]byte, 1)
	for !bytes.Contains(line, []byte("attached")) {
		if _, err := errp.Read(one); err != nil {
			return outcome{code: -9, reason: "tracer did not attach: " + string(line)}
		}
		line = append(line, one[0])
	}
	for i := 0; i < 200 && !allTraced(cmd.Process.Pid); i++ {
		time.Sleep(5 * time.Millisecond)
	}
	go io.Copy(io.Discard, errp)
	in.Write([]byte("g"))
	done := make(chan struct{})
	timer := time.AfterFunc(vt.HangLimit, func() { cmd.Process.Kill() })
	cmd.Wait()
	timed := !timer.Stop()
	go func() { st.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		st.Process.Kill()
		<-done
	}
	tr, _ := os.ReadFile(log)
	o := outcome{code: cmd.ProcessState.ExitCode(), trace: string(tr)}
	if timed {
		o.reason = "the save did not finish"
		o.code = -9
	}
	return o
}

// allTraced: every thread of the process has a tracer.
func allTraced(pid int) bool {
	ts, err := os.ReadDir(fmt.Sprintf("/proc/%d/task", pid))
	if err != nil {
		return true
	}
	for _, t := range ts {
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/task/%s/status", pid, t.Name()))
		if err == nil && strings.Contains(string(b), "TracerPid:\t0\n") {
			return false
		}
	}
	return true
}

type scenario struct {
	kind     string // cache or list
	old, new int    // entries before and added
}

// TestC05: whatever instant the process dies or a write fails at, the file is
// the old one or the new one, whole.
func TestC05(t *testing.T) {
	r := vt.Start(t, "C05", "for each scenario every traced system call of the save is a crash point at which the process is killed, and a point at which the call fails; non-trivial and distinct by (scenario, injection, call index)")
	r.Need("killed", 60)
	r.Need("failed calls", 30)
	r.Need("durability traces", 6)
	scen := []scenario{{"cache", 0, 5}, {"cache", 5, 5}, {"cache", 5, 600}, {"cache", 600, 5}, {"list", 0, 50}, {"list", 50, 50}, {"list", 20, 9000}, {"list", 9000, 20}}
	if r.Thorough() {
		scen = append(scen, scenario{"cache", 2000, 2000}, scenario{"cache", 0, 3000}, scenario{"list", 30000, 30000}, scenario{"list", 0, 40000})
	}
	srv := &listServer{body: map[string]string{}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Inconclusive("no loopback: %v", err)
		r.Exit()
	}
	go http.Serve(l, srv)
	srv.base = "http://" + l.Addr().String()
	if out, err := exec.Command("strace", "-V").CombinedOutput(); err != nil {
		r.Inconclusive("no strace: %v %s", err, out)
		r.Exit()
	}
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for si, s := range scen {
		wg.Add(1)
		go func() {
			defer wg.Done()
			crashScenario(r, srv, si, s, sem)
		}()
	}
	wg.Wait()
	r.Exit()
}

type listServer struct {
	mu   sync.Mutex
	base string
	body map[string]string
}

func (s *listServer) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	s.mu.Lock()
	b := s.body[q.URL.Path]
	s.mu.Unlock()
	io.WriteString(w, b)
}

func rulesText(tag string, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "%s-%d.example.com\n", tag, i)
	}
	return b.String()
}

func crashScenario(r *vt.R, srv *listServer, si int, s scenario, sem chan struct{}) {
	base, err := os.MkdirTemp(workDir(), "c05-")
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	defer os.RemoveAll(base)
	// the file as it was before
	var oldContent []byte
	url := fmt.Sprintf("%s/l%d", srv.base, si)
	name := "cache.json"
	gold := filepath.Join(base, "gold")
	os.Mkdir(gold, 0o700)
	if s.kind == "list" {
		srv.mu.Lock()
		srv.body[fmt.Sprintf("/l%d", si)] = rulesText("old", s.old)
		srv.mu.Unlock()
		ld := rdns.NewHTTPLoader(url, rdns.HTTPLoaderOptions{CacheDir: gold})
		ld.Load()
		es, _ := os.ReadDir(gold)
		if len(es) != 1 {
			r.Violation("no-cache", fmt.Sprintf("a downloaded list left %d files in the cache directory", len(es)), nil)
			return
		}
		name = es[0].Name()
		oldContent, _ = os.ReadFile(filepath.Join(gold, name))
		srv.mu.Lock()
		srv.body[fmt.Sprintf("/l%d", si)] = rulesText("new", s.new)
		srv.mu.Unlock()
	} else if s.old > 0 {
		if oldContent, err = fill(filepath.Join(gold, name), s.old, "old", 3600000); err != nil {
			r.Violation("save", err.Error(), nil)
			return
		}
	}
	fresh := s.old == 0
	run := func(inject, label string, kill bool) (outcome, bool) {
		sem <- struct{}{}
		defer func() { <-sem }()
		dir, _ := os.MkdirTemp(base, "run-")
		defer os.RemoveAll(dir)
		file := filepath.Join(dir, name)
		if !fresh {
			os.WriteFile(file, oldContent, 0o640)
		}
		h := fmt.Sprintf("%s|%s|new|%d|%s", s.kind, file, s.new, url)
		o := runHelper(h, inject)
		if o.code == -9 {
			r.Inconclusive("%s: %s", label, o.reason)
			return o, false
		}
		r.Case("%s", label)
		// what is there now
		b, err := os.ReadFile(file)
		var state string
		switch {
		case err != nil && fresh:
			state = "old"
		case err != nil:
			r.Violation("lost", fmt.Sprintf("the file is gone: %v", err), label)
			return o, false
		case !fresh && bytes.Equal(b, oldContent):
			state = "old"
		default:
			state = describe(s, b, dir)
		}
		if state != "old" && state != "new" {
			r.Violation("torn", "after the crash the file is neither the old nor the new one: "+state, label)
		}
		if o.code == 0 && state != "new" && s.kind == "cache" {
			r.Violation("lying", "the save reported success but the file is the old one", label)
		}
		if state == "new" && (strings.HasPrefix(inject, "fsync:error") || strings.HasPrefix(inject, "fdatasync:error")) {
			r.Violation("not-durable", "the new file was put in place although syncing it failed", label)
		}
		if !kill && !strings.HasPrefix(inject, "unlink") {
			if es, _ := os.ReadDir(dir); len(es) > 1 || len(es) == 1 && es[0].Name() != name {
				r.Violation("leftover", fmt.Sprintf("a failed or finished save left %d files behind", len(es)), label)
			}
		}
		if state == "new" && !fresh {
			if fi, err := os.Stat(file); err == nil && fi.Mode().Perm() != 0o640 {
				r.Violation("mode", fmt.Sprintf("the file had mode 0640 and now has %v", fi.Mode().Perm()), label)
			}
		}
		r.State("(scenario, outcome, state)", fmt.Sprint(si, o.code, state))
		r.Eval(label)
		return o, true
	}
	tag := fmt.Sprintf("%s old=%d new=%d", s.kind, s.old, s.new)
	// without faults: it works, and the data is on disk before the name is
	o, ok := run("", tag+" no fault", false)
	if !ok {
		return
	}
	if o.code != 0 {
		r.Violation("save", fmt.Sprintf("saving failed with exit %d\n%s", o.code, o.trace), tag)
		return
	}
	durable(r, o.trace, name, tag)
	calls := countCalls(o.trace)
	r.Note(tag, fmt.Sprintf("%v", calls))
	// kill at each call: the tracer counts each kind of call separately
	var wg sync.WaitGroup
	for call, n := range calls {
		step := 1
		if !r.Thorough() && n > 60 {
			step = (n + 59) / 60
		}
		for k := 1; k <= n; k += step {
			wg.Add(1)
			go func() {
				defer wg.Done()
				o, ok := run(fmt.Sprintf("%s:signal=SIGKILL:when=%d", call, k), fmt.Sprintf("%s killed at %s %d", tag, call, k), true)
				if ok && o.code == -1 {
					r.Observe("killed", 1)
				}
			}()
		}
	}
	// fail each call that can fail
	for call, errno := range map[string]string{"write": "ENOSPC", "fsync": "EIO", "fdatasync": "EIO", "renameat": "EACCES", "rename": "EACCES", "renameat2": "EACCES", "fchmod": "EPERM", "openat": "EMFILE", "close": "EIO", "unlinkat": "EPERM"} {
		n := calls[call]
		st := 1
		if !r.Thorough() && n > 60 {
			st = (n + 59) / 60
		}
		for k := 1; k <= n; k += st {
			wg.Add(1)
			go func() {
				defer wg.Done()
				_, ok := run(fmt.Sprintf("%s:error=%s:when=%d", call, errno, k), fmt.Sprintf("%s %s %d fails with %s", tag, call, k, errno), false)
				if ok {
					r.Observe("failed calls", 1)
				}
			}()
		}
	}
	wg.Wait()
}

// describe says whether the content is the complete new file.
func describe(s scenario, b []byte, dir string) string {
	if s.kind == "list" {
		if string(b) == rulesText("new", s.new) {
			return "new"
		}
		return fmt.Sprintf("%d bytes, expected %d", len(b), len(rulesText("new", s.new)))
	}
	// loaded the way a restart loads it
	tmp, _ := os.MkdirTemp(workDir(), "c05v-")
	defer os.RemoveAll(tmp)
	f := filepath.Join(tmp, "cache.json")
	os.WriteFile(f, b, 0o600)
	bk := rdns.NewMemoryBackend(rdns.MemoryBackendOptions{Filename: f})
	if n := bk.Size(); n != s.old+s.new {
		return fmt.Sprintf("%d bytes with %d usable entries, expected %d", len(b), n, s.old+s.new)
	}
	return "new"
}

var callRe = regexp.MustCompile(`^(\d+)\s+(\w+)\((.*)$`)

func countCalls(trace string) map[string]int {
	// per thread, take the busiest for each call
	per := map[string]map[string]int{}
	for _, l := range strings.Split(trace, "\n") {
		m := callRe.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		if per[m[1]] == nil {
			per[m[1]] = map[string]int{}
		}
		per[m[1]][m[2]]++
	}
	out := map[string]int{}
	for _, p := range per {
		for c, n := range p {
			if n > out[c] {
				out[c] = n
			}
		}
	}
	return out
}

var fdRe = regexp.MustCompile(`^\d+<([^>]*)>`)
var pathRe = regexp.MustCompile(`"([^"]*)"`)

// durable checks the order of calls in a trace: a file that is given the
// target's name has been synced since it was last written to, and the target
// itself is never opened for writing.
func durable(r *vt.R, trace, name, label string) {
	dirty := map[string]bool{}
	renamed := false
	for _, l := range strings.Split(trace, "\n") {
		m := callRe.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		call, rest := m[2], m[3]
		fd := ""
		if x := fdRe.FindStringSubmatch(rest); x != nil {
			fd = strings.TrimSuffix(x[1], "(deleted)")
		}
		switch call {
		case "write", "pwrite64", "writev", "pwritev", "ftruncate", "copy_file_range", "sendfile", "fallocate":
			if call == "copy_file_range" || call == "sendfile" {
				if all := regexp.MustCompile(`\d+<([^>]*)>`).FindAllStringSubmatch(rest, -1); len(all) > 1 && call == "copy_file_range" {
					fd = all[1][1]
				}
			}
			dirty[filepath.Base(fd)] = true
		case "fsync", "fdatasync":
			if !strings.Contains(rest, "= -1") {
				dirty[filepath.Base(fd)] = false
			}
		case "rename", "renameat", "renameat2":
			ps := pathRe.FindAllStringSubmatch(rest, -1)
			if len(ps) == 2 && filepath.Base(ps[1][1]) == name {
				renamed = true
				src := filepath.Base(ps[0][1])
				if d, seen := dirty[src]; !seen {
					r.Inconclusive("%s: no write to %s seen in the trace", label, src)
				} else if d {
					r.Violation("not-durable", "the new content was given its name before it was synced to disk: a machine crash can leave an empty file\n"+trace, label)
				}
			}
		}
	}
	if !renamed {
		// replaced in some other way: the crash points decide
		r.Observe("not replaced by rename", 1)
	}
	r.Observe("durability traces", 1)
}
