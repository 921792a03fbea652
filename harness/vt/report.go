// Package vt holds what the monitors share: the run report, deterministic
// randomness, recording upstreams, message generators and canonical forms.
package vt

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log/slog"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	rdns "github.com/folbricht/routedns"
)

// Violation is one observed breach of the property, with enough to replay it.
type Violation struct {
	Key    string `json:"key"`    // stable identity of what failed, for the known-findings file
	Detail string `json:"detail"` // what was observed and what was expected
	Case   any    `json:"case,omitempty"`
}

// Report is what a run writes for the runner.
type Report struct {
	Property     string            `json:"property"`
	Seed         int64             `json:"seed"`
	Tier         string            `json:"tier"`
	Evaluations  int64             `json:"evaluations"`
	Distinct     int               `json:"distinct"`
	Rule         string            `json:"rule"`
	Samples      []any             `json:"samples"`
	Observed     map[string]int64  `json:"observed"`
	States       map[string]int    `json:"states"`
	Violations   []Violation       `json:"violations"`
	ViolationsN  int64             `json:"violations_total"`
	Inconclusive []string          `json:"inconclusive"`
	Notes        map[string]string `json:"notes,omitempty"`
	Complete     bool              `json:"complete"`
}

// R collects what a monitor observes during one run.
type R struct {
	mu       sync.Mutex
	rep      Report
	distinct map[uint64]struct{}
	states   map[string]map[uint64]struct{}
	vkeys    map[string]int
	minObs   map[string]int64
	path     string
	casePath string
	curCase  atomic.Value
	caseFile *os.File
}

// Start opens the report for a property. The runner passes the seed, tier and
// report path in the environment; run by hand, it prints to stdout.
func Start(t testing.TB, prop, rule string) *R {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	r := &R{
		distinct: make(map[uint64]struct{}),
		states:   make(map[string]map[uint64]struct{}),
		vkeys:    make(map[string]int),
		minObs:   make(map[string]int64),
		path:     os.Getenv("VERIF_REPORT"),
	}
	r.rep = Report{Property: prop, Seed: seed, Tier: tier, Rule: rule, Observed: map[string]int64{}, Notes: map[string]string{}}
	if r.path != "" {
		r.caseFile, _ = os.Create(r.path + ".case")
	}
	if os.Getenv("VERIF_LOG") == "" {
		rdns.Log = slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelError + 4}))
	}
	return r
}

// Seed of the run.
func (r *R) Seed() int64 { return r.rep.Seed }

// Thorough reports whether this is the deep tier.
func (r *R) Thorough() bool { return r.rep.Tier == "thorough" }

// N picks the amount of work for the tier.
func (r *R) N(quick, thorough int) int {
	if s := os.Getenv("VERIF_N"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return n
		}
	}
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Rand returns a generator that depends only on the run seed and the name.
func (r *R) Rand(parts ...any) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, r.rep.Seed, "|")
	for _, p := range parts {
		fmt.Fprint(h, p, "|")
	}
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Case notes the case being run, so that a crash can be attributed to it.
func (r *R) Case(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	r.curCase.Store(s)
	if r.caseFile != nil {
		b := make([]byte, 0, len(s)+64)
		b = append(b, s...)
		b = append(b, '\n')
		for len(b) < 512 {
			b = append(b, ' ')
		}
		r.caseFile.WriteAt(b, 0)
	}
}

// CurCase returns the last case noted.
func (r *R) CurCase() string {
	s, _ := r.curCase.Load().(string)
	return s
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

// Eval counts one evaluation of the oracle. A non-empty key says the case was
// non-trivial and what distinguishes it from others.
func (r *R) Eval(key string) {
	r.mu.Lock()
	r.rep.Evaluations++
	if key != "" {
		r.distinct[hash64(key)] = struct{}{}
	}
	r.mu.Unlock()
}

// Observe adds to a named event counter.
func (r *R) Observe(name string, n int) {
	r.mu.Lock()
	r.rep.Observed[name] += int64(n)
	r.mu.Unlock()
}

// State records a distinct state or interleaving seen.
func (r *R) State(kind, key string) {
	r.mu.Lock()
	m := r.states[kind]
	if m == nil {
		m = make(map[uint64]struct{})
		r.states[kind] = m
	}
	m[hash64(key)] = struct{}{}
	r.mu.Unlock()
}

// Need says the run means nothing unless the counter reaches min.
func (r *R) Need(name string, min int64) {
	r.mu.Lock()
	r.minObs[name] = min
	r.mu.Unlock()
}

// Sample keeps a few actual cases for the evidence.
func (r *R) Sample(v any) {
	r.mu.Lock()
	if len(r.rep.Samples) < 6 {
		r.rep.Samples = append(r.rep.Samples, v)
	}
	r.mu.Unlock()
}

// Note adds a free-form remark to the evidence.
func (r *R) Note(k, v string) {
	r.mu.Lock()
	r.rep.Notes[k] = v
	r.mu.Unlock()
}

// Violation records a breach. The same key is recorded at most three times.
func (r *R) Violation(key, detail string, c any) {
	r.mu.Lock()
	r.rep.ViolationsN++
	n := r.vkeys[key]
	r.vkeys[key] = n + 1
	if n < 3 && len(r.rep.Violations) < 60 {
		if c == nil {
			if s := r.CurCase(); s != "" {
				c = s
			}
		}
		if len(detail) > 6000 {
			detail = detail[:6000] + " ..."
		}
		r.rep.Violations = append(r.rep.Violations, Violation{Key: key, Detail: detail, Case: c})
	}
	first := n == 0
	r.mu.Unlock()
	if first {
		r.write(false)
		if r.path == "" {
			fmt.Printf("VIOL %s: %s (case %v)\n", key, detail, c)
		}
	}
}

// Violations returns how many breaches were seen so far.
func (r *R) Violations() int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.rep.ViolationsN
}

// Inconclusive says the run could not decide something.
func (r *R) Inconclusive(format string, args ...any) {
	r.mu.Lock()
	if len(r.rep.Inconclusive) < 20 {
		r.rep.Inconclusive = append(r.rep.Inconclusive, fmt.Sprintf(format, args...))
	}
	r.mu.Unlock()
	r.write(false)
}

func (r *R) write(complete bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	rep := r.rep
	rep.Complete = complete
	rep.Distinct = len(r.distinct)
	rep.States = map[string]int{}
	for k, m := range r.states {
		rep.States[k] = len(m)
	}
	b, err := json.MarshalIndent(rep, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "report:", err)
		return
	}
	if r.path == "" {
		if complete {
			fmt.Println(string(b))
		}
		return
	}
	tmp := r.path + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err == nil {
		os.Rename(tmp, r.path)
	}
}

// Done finishes the report.
func (r *R) Done() {
	r.mu.Lock()
	var names []string
	for n := range r.minObs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if r.rep.Observed[n] < r.minObs[n] {
			r.rep.Inconclusive = append(r.rep.Inconclusive, fmt.Sprintf("observed only %d of %q, need %d", r.rep.Observed[n], n, r.minObs[n]))
		}
	}
	if r.rep.Evaluations == 0 {
		r.rep.Inconclusive = append(r.rep.Inconclusive, "nothing was evaluated")
	}
	r.mu.Unlock()
	r.write(true)
}

// Exit finishes the report and ends the process without waiting for
// background goroutines of the code under test, which never end.
func (r *R) Exit() {
	r.Done()
	// Give the race detector's reporter a moment of scheduling.
	os.Stdout.Sync()
	os.Exit(42) // the testing package does not allow 0
}

// HangLimit is how long an operation may take on the real clock before it
// counts as hung. It is far above every bound the code itself promises.
const HangLimit = 60 * time.Second
