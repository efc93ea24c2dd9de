package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

func setFlag(name, v string) {
	if err := flag.Set(name, v); err != nil {
		panic(infraError{err})
	}
}

func main() {
	testing.Init()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|replay|list ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.CommandLine
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", 1, "seed")
	shard := fs.Int("shard", 0, "shard")
	shards := fs.Int("shards", 8, "shards")
	out := fs.String("out", "", "worker result file")
	inf := fs.String("inflight", "", "in-flight case file")
	root := fs.String("root", "/verif", "root of the verification tree")
	raceBin := fs.String("racebin", "", "binary built with the race detector")
	only := fs.String("only", "", "run only this check")
	scale := fs.Float64("scale", 1, "multiply the number of cases")
	_ = fs.Parse(os.Args[2:])

	switch cmd {
	case "list":
		for _, p := range sortedKeys(registry) {
			for _, c := range registry[p] {
				fmt.Printf("%s %s quick=%d thorough=%d rule=%s\n", p, c.Name, c.Quick, c.Thorough, c.Rule)
			}
		}
	case "worker":
		worker(*prop, *only, *tier, *seed, *shard, *shards, *out, *inf, *root, *scale)
	case "replay":
		os.Exit(replay(fs.Arg(0)))
	case "check":
		os.Exit(parent(*prop, *only, *tier, *seed, *shards, *root, *raceBin, *scale))
	default:
		os.Exit(2)
	}
}

func numCases(c *Check, tier string, scale float64) int {
	n := c.Quick
	if tier == "thorough" {
		n = c.Thorough
		if n == 0 {
			n = 20 * c.Quick
		}
	}
	return int(float64(n)*scale + 0.5)
}

// ---------------------------------------------------------------- worker

func worker(prop, only, tier string, seed uint64, shard, shards int, out, infPath, root string, scale float64) {
	inf, err := newInflight(infPath)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	inf.watch()
	var wr WorkerResult
	flush := func() {
		b, err := json.Marshal(wr)
		if err == nil {
			err = os.WriteFile(out, b, 0o600)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	for _, c := range registry[prop] {
		if only != "" && c.Name != only || c.Race != raceEnabled {
			continue
		}
		if shard == 0 {
			r := runCorpus(c, root, inf)
			wr.Results = append(wr.Results, r)
			flush()
			if r.Fail != nil {
				break
			}
		}
		n := numCases(c, tier, scale)
		if c.Solo {
			if shard != 0 {
				continue
			}
		} else {
			n = (n + shards - 1) / shards
		}
		if n == 0 {
			continue
		}
		r := runShard(c, n, mixSeed(seed, "/", c.Prop, "/", c.Name, "/", shard), inf)
		wr.Results = append(wr.Results, r)
		flush()
		if r.Fail != nil || r.InfraErr != "" {
			break
		}
	}
	wr.Done = true
	flush()
}

// runCorpus replays the saved cases of a check.
func runCorpus(c *Check, root string, inf *inflight) (res CheckResult) {
	res = CheckResult{Name: c.Name, Labels: map[string]int{}}
	start := time.Now()
	defer func() { res.Seconds = time.Since(start).Seconds() }()
	files, _ := filepath.Glob(filepath.Join(root, "corpus", c.Prop, c.Name+"-*.json"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			res.InfraErr = err.Error()
			return res
		}
		var fl Failure
		if err := json.Unmarshal(b, &fl); err != nil {
			res.InfraErr = f + ": " + err.Error()
			return res
		}
		o := &Obs{labels: map[string]int{}}
		inf.start(c, fl.Case)
		err = safeRun(c, fl.Case, o)
		inf.end()
		if ie, ok := err.(infraError); ok {
			res.InfraErr = ie.Error()
			return res
		}
		res.Evals++
		res.Labels["saved case"]++
		if o.nontrivial {
			res.NonTriv++
			res.Hashes = append(res.Hashes, hash64(fl.Case))
		}
		if err != nil {
			res.Fail = &Failure{Prop: c.Prop, Check: c.Name, Error: err.Error(), Case: fl.Case, Note: "saved case " + filepath.Base(f)}
			return res
		}
	}
	return res
}

// ---------------------------------------------------------------- replay

func findCheck(prop, name string) *Check {
	for _, c := range registry[prop] {
		if c.Name == name {
			return c
		}
	}
	return nil
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	c := findCheck(f.Prop, f.Check)
	if c == nil {
		fmt.Fprintf(os.Stderr, "no check %s/%s\n", f.Prop, f.Check)
		return 3
	}
	inf, err := newInflight(filepath.Join(os.TempDir(), fmt.Sprintf("verif-replay-%d", os.Getpid())))
	if err == nil {
		defer os.Remove(inf.f.Name())
		inf.watch()
	}
	hangLimit = confirmHang
	n := 1
	if c.Race {
		n = 20
	}
	for i := 0; i < n; i++ {
		o := &Obs{labels: map[string]int{}}
		inf.start(c, f.Case)
		err = safeRun(c, f.Case, o)
		inf.end()
		if err != nil {
			fmt.Printf("property %s, check %s: FAILS\ncase: %s\n%s\n", f.Prop, f.Check, clip(string(f.Case), 4000), err)
			return 1
		}
	}
	fmt.Printf("property %s, check %s: holds for this case\n", f.Prop, f.Check)
	return 0
}

// ---------------------------------------------------------------- parent

type shardOutcome struct {
	shard   int
	bin     string
	res     WorkerResult
	haveRes bool
	exit    int
	signal  string
	stderr  string
	infFile string
	timeout bool
	dropped bool // stopped because another worker has found a failure
}

func (o *shardOutcome) bad() bool {
	if !o.haveRes || !o.res.Done || o.exit != 0 {
		return true
	}
	for _, r := range o.res.Results {
		if r.Fail != nil || r.InfraErr != "" {
			return true
		}
	}
	return false
}

func parent(prop, only, tier string, seed uint64, shards int, root, raceBin string, scale float64) int {
	start := time.Now()
	checks := registry[prop]
	if len(checks) == 0 {
		fmt.Fprintf(os.Stderr, "no checks for %s\n", prop)
		return 3
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	tmp, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)

	bins := []string{}
	for _, c := range checks {
		b := self
		if c.Race {
			b = raceBin
			if b == "" {
				fmt.Fprintln(os.Stderr, "no race-enabled binary given")
				return 3
			}
		}
		if !contains(bins, b) {
			bins = append(bins, b)
		}
	}

	limit := 780 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()

	var outcomes []*shardOutcome
	var failures []*Failure
	var infra []string
	for attempt := 0; ; attempt++ {
		outcomes, infra = nil, nil
		for _, b := range bins {
			outcomes = append(outcomes, runWorkers(ctx, b, prop, only, tier, seed, shards, root, tmp, scale)...)
			if anyBad(outcomes) {
				break
			}
		}
		found := false
		for _, o := range outcomes {
			for _, r := range o.res.Results {
				found = found || r.Fail != nil
			}
		}
		again := false
		for _, o := range outcomes {
			hang := o.exit == exitHang || o.exit == exitMemory
			if !o.bad() || o.haveRes && o.res.Done && o.exit == 0 || o.dropped || hang && (found || len(failures) > 0) {
				continue
			}
			f, msg := diagnose(o, prop, seed, root, tmp)
			if f != nil {
				failures = append(failures, f)
			} else if msg != "" {
				infra = append(infra, msg)
				again = again || hang
			}
		}
		// the machine may have been held up
		if !again || found || len(failures) > 0 || attempt > 0 {
			break
		}
		fmt.Fprintln(os.Stderr, "again, after:", infra)
	}

	// merge
	merged := map[string]*CheckResult{}
	var order []string
	hashes := map[string]map[uint64]bool{}
	for _, o := range outcomes {
		for i := range o.res.Results {
			r := &o.res.Results[i]
			m := merged[r.Name]
			if m == nil {
				m = &CheckResult{Name: r.Name, Labels: map[string]int{}}
				merged[r.Name] = m
				hashes[r.Name] = map[uint64]bool{}
				order = append(order, r.Name)
			}
			m.Evals += r.Evals
			if r.Seconds > m.Seconds {
				m.Seconds = r.Seconds
			}
			for k, v := range r.Labels {
				m.Labels[k] += v
			}
			for _, h := range r.Hashes {
				hashes[r.Name][h] = true
			}
			if len(m.Samples) < 2 {
				m.Samples = append(m.Samples, r.Samples...)
			}
			if r.Fail != nil {
				failures = append(failures, r.Fail)
			}
			if r.InfraErr != "" {
				infra = append(infra, r.Name+": "+r.InfraErr)
			}
		}
	}

	evals, distinct := 0, 0
	rules := []string{}
	detail := map[string]interface{}{}
	samples := []interface{}{}
	for _, name := range order {
		m := merged[name]
		c := findCheck(prop, name)
		evals += m.Evals
		distinct += len(hashes[name])
		rules = append(rules, name+": "+c.Rule)
		detail[name] = map[string]interface{}{
			"evaluations": m.Evals, "distinct_nontrivial": len(hashes[name]), "classes": m.Labels,
			"slowest_shard_s": float64(int(m.Seconds*100)) / 100,
		}
		for i, s := range m.Samples {
			if i < 2 {
				samples = append(samples, map[string]interface{}{"check": name, "case": clipJSON(s)})
			}
		}
	}
	cov := map[string]interface{}{
		"evaluations": evals, "distinct_nontrivial": distinct,
		"rule": strings.Join(rules, " | "), "samples": samples, "checks": detail, "workers": shards,
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": levelOf(prop), "coverage": cov,
		"assumptions": assumptionsOf(prop), "violations": len(failures),
		"wall_s": float64(int(time.Since(start).Seconds()*100)) / 100,
	}
	if exhaustiveOf(prop) {
		cov["exhaustive"] = true
	}
	_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		infra = append(infra, err.Error())
	}

	if len(failures) > 0 {
		// the smallest case tells most
		sort.SliceStable(failures, func(i, j int) bool { return len(failures[i].Case) < len(failures[j].Case) })
		f := failures[0]
		dir := filepath.Join(root, "replays")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", prop, f.Check, hash64(f.Case)))
		b, _ := json.MarshalIndent(f, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		fmt.Printf("check %s: %s\ncase: %s\n", f.Check, clip(f.Error, 3000), clip(string(f.Case), 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	if len(infra) > 0 {
		for _, m := range infra {
			fmt.Fprintln(os.Stderr, "ERROR:", m)
		}
		return 3
	}
	fmt.Printf("%s: held on %d cases (%d distinct non-trivial) in %.1fs\n", prop, evals, distinct, time.Since(start).Seconds())
	return 0
}

func anyBad(os []*shardOutcome) bool {
	for _, o := range os {
		if o.bad() {
			return true
		}
	}
	return false
}

func runWorkers(ctx context.Context, bin, prop, only, tier string, seed uint64, shards int, root, tmp string, scale float64) []*shardOutcome {
	outs := make([]*shardOutcome, shards)
	var wg sync.WaitGroup
	limit := ctx
	ctx, cancel := context.WithCancel(ctx)
	defer cancel()
	var once sync.Once
	var stopping atomic.Bool
	stop := func() {
		time.AfterFunc(12*time.Second, func() {
			stopping.Store(true)
			cancel()
		})
	}
	for i := 0; i < shards; i++ {
		o := &shardOutcome{shard: i, bin: bin}
		outs[i] = o
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			dir := filepath.Join(tmp, fmt.Sprintf("w%d-%s", i, filepath.Base(bin)))
			if err := os.MkdirAll(dir, 0o755); err != nil {
				o.stderr = err.Error()
				o.exit = 3
				return
			}
			res := filepath.Join(dir, "result.json")
			o.infFile = filepath.Join(dir, "inflight")
			scratch := filepath.Join(dir, "scratch")
			_ = os.MkdirAll(scratch, 0o777)
			args := []string{
				"worker", "-prop", prop, "-tier", tier, "-seed", strconv.FormatUint(seed, 10),
				"-shard", strconv.Itoa(i), "-shards", strconv.Itoa(shards), "-out", res, "-inflight", o.infFile, "-root", root,
				"-scale", fmt.Sprint(scale),
			}
			if only != "" {
				args = append(args, "-only", only)
			}
			cmd := exec.CommandContext(ctx, bin, args...)
			prepareCmd(cmd, prop, dir, scratch)
			var stderr bytes.Buffer
			cmd.Stderr = &tailWriter{buf: &stderr}
			err := cmd.Run()
			o.stderr = stderr.String()
			o.timeout = limit.Err() != nil
			o.dropped = stopping.Load() && !o.timeout
			if err != nil {
				o.exit = -1
				if ee, ok := err.(*exec.ExitError); ok {
					o.exit = ee.ExitCode()
					if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
						o.signal = ws.Signal().String()
					}
				} else {
					o.stderr += err.Error()
				}
			}
			if b, err := os.ReadFile(res); err == nil && json.Unmarshal(b, &o.res) == nil {
				o.haveRes = true
			}
			if o.bad() {
				once.Do(stop)
			}
		}(i)
	}
	wg.Wait()
	return outs
}

// prepareCmd gives a worker a scratch directory as its working directory; workers that let the code under
// test write to files run as an unprivileged user.
func prepareCmd(cmd *exec.Cmd, prop, dir, scratch string) {
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+scratch, "TMPDIR="+scratch, "GOTRACEBACK=all",
		"GORACE=halt_on_error=1 exitcode=66")
	if runtime.NumCPU() > 2 {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=4")
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{}
	if unprivileged[prop] && os.Getuid() == 0 {
		const nobody = 65534
		if chownAll(nobody, dir, scratch) == nil && os.Chmod(filepath.Dir(dir), 0o755) == nil {
			cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: true}
		}
	}
}

func chownAll(uid int, paths ...string) error {
	for _, p := range paths {
		if err := os.Chown(p, uid, uid); err != nil {
			return err
		}
	}
	return nil
}

// tailWriter keeps the first 64 KiB and the last 64 KiB.
type tailWriter struct {
	buf  *bytes.Buffer
	head int
}

func (w *tailWriter) Write(p []byte) (int, error) {
	if w.buf.Len() < 1<<20 {
		w.buf.Write(p)
	}
	return len(p), nil
}

const pkgPath = "github.com/nginxinc/nginx-go-crossplane"

// crossplaneFrame tells whether a trace goes through the code under test.
func crossplaneFrame(trace string) bool {
	for _, l := range strings.Split(trace, "\n") {
		if strings.HasPrefix(l, pkgPath) && !strings.HasPrefix(l, pkgPath+"/verif") {
			return true
		}
		if strings.HasPrefix(strings.TrimSpace(l), pkgPath+".") {
			return true
		}
	}
	return false
}

// diagnose decides what the abnormal end of a worker means.
func diagnose(o *shardOutcome, prop string, seed uint64, root, tmp string) (*Failure, string) {
	p, name, raw, ok := readInflight(o.infFile)
	desc := fmt.Sprintf("worker %d: exit %d %s: %s", o.shard, o.exit, o.signal, clip(o.stderr, 3000))
	if o.timeout {
		return nil, "time limit reached: " + desc
	}
	if !ok || p != prop {
		return nil, desc
	}
	f := &Failure{Prop: prop, Check: name, Seed: seed, Case: raw}
	switch {
	case o.exit == 66 && strings.Contains(o.stderr, "DATA RACE"):
		f.Error = "data race\n" + clip(o.stderr, 6000)
		return f, ""
	case (strings.Contains(o.stderr, "panic:") || strings.Contains(o.stderr, "fatal error:")) && crossplaneFrame(o.stderr) && o.exit == 2:
		f.Error = "crash\n" + clip(o.stderr, 6000)
		return f, ""
	case o.exit == exitHang || o.exit == exitMemory || o.exit == 2 && strings.Contains(o.stderr, "stack overflow"):
		// confirm in a fresh process, where nothing else has happened before
		path := filepath.Join(tmp, fmt.Sprintf("confirm-%d.json", o.shard))
		b, _ := json.Marshal(f)
		if err := os.WriteFile(path, b, 0o644); err != nil {
			return nil, err.Error()
		}
		ctx, cancel := context.WithTimeout(context.Background(), confirmHang+60*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, o.bin, "replay", path)
		scratch, err := os.MkdirTemp(tmp, "confirm")
		if err != nil {
			return nil, err.Error()
		}
		prepareCmd(cmd, prop, scratch, scratch)
		outp, err := cmd.CombinedOutput()
		if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == exitHang || ee.ExitCode() == exitMemory || ee.ExitCode() == 2 || ee.ExitCode() == 1) {
			f.Error = clip(string(outp), 6000)
			return f, ""
		}
		_ = os.WriteFile(filepath.Join(root, "replays", "unconfirmed.json"), b, 0o600)
		return nil, "not confirmed: " + name + ": " + desc
	}
	return nil, desc
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n/2] + " [...] " + s[len(s)-n/2:]
}

func clipJSON(raw json.RawMessage) interface{} {
	if len(raw) <= 3000 {
		return raw
	}
	return clip(string(raw), 3000)
}

func contains(xs []string, x string) bool {
	for _, s := range xs {
		if s == x {
			return true
		}
	}
	return false
}
