// Package vt is the run-time monitoring frame of the checks: it enumerates
// cases that are a pure function of (property, seed, case id), runs the real
// code under each of them, records what the monitors saw, and reports
// violations with the id that replays them.
package vt

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
	_ "time/tzdata" // for zones
)

// Violation is one refutation of the property, with its replay coordinates.
type Violation struct {
	Case   string `json:"case"`
	Key    string `json:"key"`
	Detail string `json:"detail"`
}

// Result is what a worker hands to its parent.
type Result struct {
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct_nontrivial"`
	Events      map[string]int `json:"events"`
	Samples     []string       `json:"samples"`
	Violations  []Violation    `json:"violations"`
	Done        bool           `json:"done"`
	Required    map[string]int `json:"required"`
	Missing     []string       `json:"missing"`
}

// Run is the state of one worker.
type Run struct {
	Prop     string
	Tier     string
	Seed     int64
	Only     string
	Scratch  string
	Shard    int // this worker and how many share the cases
	Shards   int
	Times    map[string]time.Duration // per group of cases, if wanted
	Progress []byte                   // shared memory: [0:8] counter, [8:12] len, [12:] case id

	mu       sync.Mutex
	evals    int
	states   map[uint64]struct{}
	events   map[string]int
	samples  []string
	viol     []Violation
	seenKeys map[string]int
	required map[string]int
}

// NewRun returns a run.
func NewRun(prop, tier string, seed int64) *Run {
	return &Run{Prop: prop, Tier: tier, Seed: seed, states: map[uint64]struct{}{}, events: map[string]int{}, seenKeys: map[string]int{}, required: map[string]int{}}
}

// N picks the amount of work for the tier.
func (r *Run) N(quick, thorough int) int {
	if r.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Require states that the run must have observed at least n of the event,
// otherwise it is inconclusive.
func (r *Run) Require(event string, n int) { r.required[event] = n }

// C is the context of one case.
type C struct {
	R      *Run
	ID     string
	Rng    *rand.Rand
	mu     sync.Mutex
	failed int
}

// Hash64 is a stable string hash.
func Hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (r *Run) note(id string) {
	if r.Progress == nil {
		return
	}
	n := len(id)
	if n > len(r.Progress)-16 {
		n = len(r.Progress) - 16
	}
	binary.LittleEndian.PutUint32(r.Progress[8:], uint32(n))
	copy(r.Progress[12:], id[:n])
	binary.LittleEndian.PutUint64(r.Progress, binary.LittleEndian.Uint64(r.Progress)+1)
}

// Case runs one case of the workload. A panic that escapes from the code
// under observation is itself a violation.
func (r *Run) Case(id string, f func(c *C)) {
	if r.Only != "" && r.Only != id {
		return
	}
	if r.Shards > 1 && int(Hash64(id)%uint64(r.Shards)) != r.Shard {
		return
	}
	r.mu.Lock()
	r.note(id)
	r.evals++
	r.mu.Unlock()
	c := &C{R: r, ID: id, Rng: rand.New(rand.NewSource(int64(Hash64(fmt.Sprintf("%d/%s/%s", r.Seed, r.Prop, id)))))}
	defer func() {
		if p := recover(); p != nil {
			c.Fail("panic:"+PanicSite(), "panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	time.Local = zones[Hash64("zone/"+id)%uint64(len(zones))]
	start := time.Now()
	f(c)
	if r.Times != nil {
		r.mu.Lock()
		r.Times[strings.SplitN(id, "/", 2)[0]] += time.Since(start)
		r.mu.Unlock()
	}
}

// zones are the local time zones of the process cases run in.
var zones = func() []*time.Location {
	out := []*time.Location{time.UTC}
	for _, n := range []string{"Europe/Berlin", "America/New_York", "Pacific/Kiritimati"} {
		l, err := time.LoadLocation(n)
		if err != nil {
			panic(err)
		}
		out = append(out, l)
	}
	return out
}()

// PanicSite names the innermost go-hbci function on the panicking stack.
func PanicSite() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	frames := runtime.CallersFrames(pcs[:n])
	for {
		fr, more := frames.Next()
		if strings.Contains(fr.Function, "mitch000001/go-hbci/") {
			i := strings.LastIndex(fr.Function, "go-hbci/")
			return fr.Function[i+len("go-hbci/"):]
		}
		if !more {
			return "harness"
		}
	}
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Fail records a violation; key identifies the class of failure.
func (c *C) Fail(key, format string, args ...interface{}) {
	c.mu.Lock()
	c.failed++
	n := c.failed
	c.mu.Unlock()
	if n > 5 {
		return
	}
	d := fmt.Sprintf(format, args...)
	if len(d) > 6000 {
		d = d[:6000] + "..."
	}
	r := c.R
	r.mu.Lock()
	defer r.mu.Unlock()
	r.seenKeys[key]++
	if r.seenKeys[key] <= 3 && len(r.viol) < 200 {
		r.viol = append(r.viol, Violation{Case: c.ID, Key: key, Detail: d})
	}
}

// Failed tells whether the case has failed already.
func (c *C) Failed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.failed > 0 }

// State records a distinct non-trivial state or behaviour the monitors saw.
func (c *C) State(format string, args ...interface{}) {
	h := Hash64(fmt.Sprintf(format, args...))
	c.R.mu.Lock()
	c.R.states[h] = struct{}{}
	c.R.mu.Unlock()
}

// Count counts an observed event.
func (c *C) Count(event string, n int) {
	c.R.mu.Lock()
	c.R.events[event] += n
	c.R.mu.Unlock()
}

// Sample keeps a few readable examples of what was observed.
func (c *C) Sample(format string, args ...interface{}) {
	c.R.mu.Lock()
	defer c.R.mu.Unlock()
	if len(c.R.samples) < 12 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		c.R.samples = append(c.R.samples, s)
	}
}

// Finish writes the result for the parent.
func (r *Run) Finish(path string) error {
	res := Result{Evaluations: r.evals, Distinct: len(r.states), Events: r.events, Samples: r.samples, Violations: r.viol, Done: true}
	res.Required = r.required
	states := make([]byte, 0, 8*len(r.states))
	for s := range r.states {
		states = binary.LittleEndian.AppendUint64(states, s)
	}
	if err := os.WriteFile(path+".states", states, 0o644); err != nil {
		return err
	}
	b, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

// Try runs f and converts a panic into an error string; ok is false then.
func Try(f func()) (site string, msg string, ok bool) {
	defer func() {
		if p := recover(); p != nil {
			site, msg, ok = PanicSite(), fmt.Sprintf("%v\n%s", p, trimStack(debug.Stack())), false
		}
	}()
	f()
	return "", "", true
}
