package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// Obs collects what one case exercised.
type Obs struct {
	labels     map[string]int
	nontrivial bool
	scratch    string
}

// Label counts the case as belonging to a class.
func (o *Obs) Label(format string, a ...interface{}) {
	s := format
	if len(a) > 0 {
		s = fmt.Sprintf(format, a...)
	}
	o.labels[s]++
}

// LabelIf counts the case as belonging to a class when cond holds.
func (o *Obs) LabelIf(cond bool, s string) {
	if cond {
		o.labels[s]++
	}
}

// NonTrivial marks the case as non-trivial by the rule of the check.
func (o *Obs) NonTrivial(cond bool) {
	if cond {
		o.nontrivial = true
	}
}

// Check is one generated check: a generator of cases and a deterministic verdict on a case.
type Check struct {
	Prop, Name      string
	Quick, Thorough int
	Rule            string
	Race            bool // needs the race detector
	Solo            bool // run in one worker only (enumerations)
	gen             func(t *rapid.T) interface{}
	run             func(raw json.RawMessage, o *Obs) error
}

var registry = map[string][]*Check{}

// Register adds a check; C must survive a JSON round trip.
func Register[C any](c Check, gen func(*rapid.T) C, run func(C, *Obs) error) {
	k := c
	k.gen = func(t *rapid.T) interface{} { return gen(t) }
	k.run = func(raw json.RawMessage, o *Obs) error {
		var v C
		if err := json.Unmarshal(raw, &v); err != nil {
			return fmt.Errorf("harness: cannot decode case: %w", err)
		}
		return run(v, o)
	}
	registry[c.Prop] = append(registry[c.Prop], &k)
}

// infraError marks a problem of the harness, not of the code under test.
type infraError struct{ err error }

func (e infraError) Error() string { return "harness: " + e.err.Error() }

// safeRun runs one case and turns a panic into a failure.
func safeRun(c *Check, raw json.RawMessage, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if ie, ok := r.(infraError); ok {
				err = ie
				return
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return c.run(raw, o)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "nginx-go-crossplane") || strings.Contains(lines[i], "/repo/") {
			out = append(out, lines[i])
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// ---------------------------------------------------------------- results

type Failure struct {
	Prop  string          `json:"property"`
	Check string          `json:"check"`
	Seed  uint64          `json:"seed"`
	Error string          `json:"error"`
	Case  json.RawMessage `json:"case"`
	Note  string          `json:"note,omitempty"`
}

type CheckResult struct {
	Name     string            `json:"name"`
	Evals    int               `json:"evals"`
	NonTriv  int               `json:"nontriv"`
	Hashes   []uint64          `json:"hashes"`
	Labels   map[string]int    `json:"labels"`
	Samples  []json.RawMessage `json:"samples"`
	Fail     *Failure          `json:"fail,omitempty"`
	InfraErr string            `json:"infra,omitempty"`
	Seconds  float64           `json:"seconds"`
}

type WorkerResult struct {
	Results []CheckResult `json:"results"`
	Done    bool          `json:"done"`
}

// ---------------------------------------------------------------- rapid adapter

type tbImpl struct {
	failed bool
	msgs   []string
}

func (t *tbImpl) Helper()                                  {}
func (t *tbImpl) Name() string                             { return "verif" }
func (t *tbImpl) Logf(format string, args ...interface{})  {}
func (t *tbImpl) Log(args ...interface{})                  {}
func (t *tbImpl) Skipf(format string, args ...interface{}) { runtime.Goexit() }
func (t *tbImpl) Skip(args ...interface{})                 { runtime.Goexit() }
func (t *tbImpl) SkipNow()                                 { runtime.Goexit() }
func (t *tbImpl) Errorf(format string, args ...interface{}) {
	t.failed = true
	t.msgs = append(t.msgs, fmt.Sprintf(format, args...))
}
func (t *tbImpl) Error(args ...interface{}) {
	t.failed = true
	t.msgs = append(t.msgs, fmt.Sprint(args...))
}
func (t *tbImpl) Fatalf(format string, args ...interface{}) {
	t.Errorf(format, args...)
	runtime.Goexit()
}
func (t *tbImpl) Fatal(args ...interface{}) { t.Error(args...); runtime.Goexit() }
func (t *tbImpl) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tbImpl) Fail()                     { t.failed = true }
func (t *tbImpl) Failed() bool              { return t.failed }

// ---------------------------------------------------------------- in-flight record

// inflight keeps the case being run in a file, so that the parent can attribute a crash or hang.
type inflight struct {
	f     *os.File
	since atomic.Int64 // unix nanoseconds at which the current case started, 0 if none
}

func newInflight(path string) (*inflight, error) {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o600)
	if err != nil {
		return nil, err
	}
	return &inflight{f: f}, nil
}

func (i *inflight) start(c *Check, raw []byte) {
	if i == nil {
		return
	}
	head := fmt.Sprintf("%s\n%s\n%d\n", c.Prop, c.Name, len(raw))
	_, _ = i.f.WriteAt(append([]byte(head), raw...), 0)
	i.since.Store(time.Now().UnixNano())
}

func (i *inflight) end() {
	if i != nil {
		i.since.Store(0)
	}
}

func readInflight(path string) (prop, name string, raw []byte, ok bool) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	parts := strings.SplitN(string(b), "\n", 4)
	if len(parts) < 4 {
		return
	}
	var n int
	if _, err := fmt.Sscan(parts[2], &n); err != nil || n > len(parts[3]) {
		return
	}
	return parts[0], parts[1], []byte(parts[3][:n]), true
}

const (
	exitHang   = 77
	exitMemory = 78
)

var (
	hangLimit = 40 * time.Second // for one case
	memLimit  = uint64(3 << 30)
)

// confirmHang is the limit when a case that did not terminate is run again.
const confirmHang = 80 * time.Second

func (i *inflight) watch() {
	go func() {
		n := 0
		for {
			time.Sleep(100 * time.Millisecond)
			s := i.since.Load()
			if s != 0 && time.Since(time.Unix(0, s)) > hangLimit {
				buf := make([]byte, 1<<16)
				fmt.Fprintf(os.Stderr, "case does not terminate\n%s\n", buf[:runtime.Stack(buf, true)])
				os.Exit(exitHang)
			}
			if n++; n%3 == 0 {
				var m runtime.MemStats
				runtime.ReadMemStats(&m)
				if m.HeapAlloc > memLimit {
					fmt.Fprintf(os.Stderr, "case uses more than %d bytes\n", memLimit)
					os.Exit(exitMemory)
				}
			}
		}
	}()
}

// ---------------------------------------------------------------- running one check in one shard

func mixSeed(parts ...interface{}) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	s := h.Sum64()
	// finalise
	s ^= s >> 33
	s *= 0xff51afd7ed558ccd
	s ^= s >> 33
	if s == 0 {
		s = 1
	}
	return s
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	_, _ = h.Write(b)
	return h.Sum64()
}

func runShard(c *Check, n int, seed uint64, inf *inflight) (res CheckResult) {
	res = CheckResult{Name: c.Name, Labels: map[string]int{}}
	start := time.Now()
	defer func() { res.Seconds = time.Since(start).Seconds() }()

	seen := map[uint64]bool{}
	var fail *Failure
	prop := func(t *rapid.T) {
		v := c.gen(t)
		raw, err := json.Marshal(v)
		if err != nil {
			res.InfraErr = "cannot encode case: " + err.Error()
			return
		}
		o := &Obs{labels: map[string]int{}}
		inf.start(c, raw)
		err = safeRun(c, raw, o)
		inf.end()
		if ie, ok := err.(infraError); ok {
			res.InfraErr = ie.Error()
			return
		}
		if fail == nil {
			res.Evals++
			for k := range o.labels {
				res.Labels[k]++
			}
			if o.nontrivial {
				h := hash64(raw)
				if !seen[h] {
					seen[h] = true
					res.NonTriv++
					res.Hashes = append(res.Hashes, h)
					if len(res.Samples) < 2 && len(raw) < 4000 || len(res.Samples) == 0 && len(raw) < 20000 {
						res.Samples = append(res.Samples, raw)
					}
				}
			}
		}
		if err != nil {
			fail = &Failure{Prop: c.Prop, Check: c.Name, Seed: seed, Error: err.Error(), Case: raw}
			t.Fatalf("%s", firstLine(err.Error()))
		}
	}

	setFlag("rapid.checks", fmt.Sprint(n))
	setFlag("rapid.seed", fmt.Sprint(seed))
	setFlag("rapid.nofailfile", "true")
	shrink := "20s"
	if v := os.Getenv("VERIF_SHRINK"); v != "" {
		shrink = v
	}
	setFlag("rapid.shrinktime", shrink)
	tb := &tbImpl{}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, prop)
	}()
	<-done
	res.Fail = fail
	if fail == nil && tb.failed && res.InfraErr == "" {
		res.InfraErr = "rapid: " + strings.Join(tb.msgs, "; ")
	}
	return res
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
