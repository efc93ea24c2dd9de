package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"unicode"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

var buildPaths = []string{
	"nginx.conf", "conf.d/a.conf", "conf.d/b.conf", "x/y/z/deep.conf", "é/日.conf", "sp ace/f g.conf", "p/./q.conf", "r/../s.conf", "UPPER.CONF", "noext", "-dash", ".hidden",
	"conf.d/sub/c.conf", "a*b[1].conf", "t//u.conf", "../up.conf", "../other/up.conf", "v/../../up2.conf", "./dot.conf", "..conf", ".../x.conf", "~/home.conf", "$HOME/x", "c:\\d.conf",
}

// absolute paths, below the scratch directory
var buildAbs = []string{"/abs/one.conf", "/abs/two/three.conf", "/wd/out/within.conf", "/abs2", "/abs/./four.conf"}

// Target is a configuration and the path that it is built to.
type Target struct {
	Path   string
	Abs    bool `json:",omitempty"`
	Tree   []DN
	Nil    bool `json:",omitempty"` // no tree at all
	Failed bool `json:",omitempty"` // with an error
}

type buildCase struct {
	T    []Target
	Dir  string            // "out", "", ".", or a relative path
	Abs  bool              // the directory is given by an absolute path
	Pre  map[string]string // files that are there before
	F    Fmt
	Lua  bool // with the Lua builder
	Ext  bool // with a builder for some directives
	Fail int  // 0: none; otherwise a target that cannot be written
	At   int  // which target
}

type extBuilder struct{}

func (extBuilder) Build(d *cp.Directive) string { return "ext<" + d.Directive + ">;" }

func (c buildCase) options() *cp.BuildOptions {
	o := c.F.options()
	if c.Lua {
		l := &cp.Lua{}
		o.Builders = append(o.Builders, l.RegisterBuilder())
	}
	if c.Ext {
		o.Builders = append(o.Builders, cp.BuildWithBuilder(extBuilder{}, "server", "listen"))
	}
	return o
}

func (c buildCase) payload(root string) cp.Payload {
	p := cp.Payload{Status: "ok", Errors: []cp.PayloadError{}, Config: []cp.Config{}}
	for _, t := range c.T {
		k := cp.Config{File: t.Path, Status: "ok", Errors: []cp.ConfigError{}}
		if t.Failed {
			k.Status, k.Errors, p.Status = "failed", append(k.Errors, cp.ConfigError{Error: errBroken}), "failed"
		}
		if !t.Nil {
			k.Parsed = toDirs(t.Tree)
		}
		if t.Abs {
			k.File = root + t.Path
		}
		p.Config = append(p.Config, k)
	}
	return p
}

// snapshot lists what is below a directory, with the contents of the files.
func snapshot(root string) map[string]string {
	out := map[string]string{}
	must(filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, path)
		if d.IsDir() {
			out[rel] = "directory"
			return nil
		}
		b, err := os.ReadFile(path)
		out[rel] = "file " + string(b)
		return err
	}))
	return out
}

// addPath adds a file and the directories it is in to a snapshot.
func addPath(snap map[string]string, rel, text string) {
	snap[rel] = "file " + text
	for d := filepath.Dir(rel); d != "."; d = filepath.Dir(d) {
		snap[d] = "directory"
	}
}

func diffSnap(got, want map[string]string) error {
	for _, k := range sortedKeys(want) {
		if got[k] != want[k] {
			return fmt.Errorf("%q is %q, want %q", k, clip(got[k], 1000), clip(want[k], 1000))
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			return fmt.Errorf("%q (%s) is not expected", k, clip(got[k], 200))
		}
	}
	return nil
}

func runBuildFiles(c buildCase, o *Obs) error {
	root := scratchDir()
	defer os.RemoveAll(root)
	wd, err := os.Getwd()
	must(err)
	// paths that lead out of the directory still end up below root
	must(os.Mkdir(filepath.Join(root, "wd"), 0o755))
	must(os.Chdir(filepath.Join(root, "wd")))
	defer func() { must(os.Chdir(wd)) }()

	for n, s := range c.Pre {
		must(os.MkdirAll(filepath.Dir(filepath.Join(root, n)), 0o755))
		must(os.WriteFile(filepath.Join(root, n), []byte(s), 0o644))
	}
	p := c.payload(root)
	for i := range p.Config {
		c.F = c.F.limit(p.Config[i].Parsed)
	}
	want := snapshot(root)
	texts := make([]string, len(p.Config))
	rels := make([]string, len(p.Config))
	for i, k := range p.Config {
		s, err := buildText(k, c.options())
		if err != nil {
			return fmt.Errorf("build: %w", err)
		}
		texts[i] = strings.TrimRightFunc(s, unicode.IsSpace) + "\n"
		rels[i] = filepath.Join("wd", c.Dir, c.T[i].Path)
		if c.T[i].Abs {
			rels[i] = strings.TrimPrefix(filepath.Clean(c.T[i].Path), "/")
		}
	}
	dir := c.Dir
	if c.Abs {
		dir = filepath.Join(root, "wd", c.Dir)
	}
	failing := -1
	if c.Fail > 0 && len(p.Config) > 0 {
		failing = c.At % len(p.Config)
		full := filepath.Join(root, rels[failing])
		at := failing
		for i := range rels {
			if i != at && (rels[i] == rels[at] || strings.HasPrefix(rels[i], filepath.Dir(rels[at])+"/") && c.Fail == 2) {
				failing = -1
			}
		}
		if _, err := os.Lstat(full); err == nil && failing >= 0 && c.Fail != 3 {
			failing = -1
		}
		if failing >= 0 {
			switch c.Fail {
			case 1: // the path is a directory
				must(os.MkdirAll(full, 0o755))
				addPath(want, rels[failing]+"/x", "")
				delete(want, rels[failing]+"/x")
			case 2: // its directory is a file
				parent := filepath.Dir(full)
				if _, err := os.Lstat(parent); err == nil || parent == root {
					failing = -1
					break
				}
				must(os.MkdirAll(filepath.Dir(parent), 0o755))
				must(os.WriteFile(parent, []byte("x"), 0o644))
				addPath(want, filepath.Dir(rels[failing]), "x")
			case 3: // writing fails
				p.Config[failing].File = "/dev/full"
			case 4: // the name is not possible
				p.Config[failing].File = "bad\x00name"
			case 5: // the file cannot be opened for writing
				if os.Getuid() == 0 {
					failing = -1
					break
				}
				must(os.MkdirAll(filepath.Dir(full), 0o755))
				must(os.WriteFile(full, []byte("keep"), 0o444))
				addPath(want, rels[failing], "keep")
			}
		}
	}
	keep := copyPayload(&p)
	opts := c.options()
	before := *opts
	for round := 0; round < 2; round++ {
		err = cp.BuildFiles(p, dir, opts)
		if e := samePayload(&p, keep); e != nil {
			return fmt.Errorf("building changes the payload: %w", e)
		}
		if opts.Indent != before.Indent || opts.Tabs != before.Tabs || opts.Header != before.Header || len(opts.Builders) != len(before.Builders) {
			return fmt.Errorf("building changes the options")
		}
		if failing >= 0 {
			if err == nil {
				return fmt.Errorf("no error although %q cannot be written (%d)", p.Config[failing].File, c.Fail)
			}
			o.Label("failure %d", c.Fail)
			break
		}
		if err != nil {
			return fmt.Errorf("build: %w", err)
		}
		for i := range texts {
			addPath(want, rels[i], texts[i])
		}
		if err := diffSnap(snapshot(root), want); err != nil {
			return fmt.Errorf("round %d: %w", round, err)
		}
	}
	got := snapshot(root)
	if failing >= 0 {
		// what could be written may be there, everything else is as it was
		for i := range texts {
			if i == failing {
				continue
			}
			for d := rels[i]; d != "."; d = filepath.Dir(d) {
				if g, ok := got[d]; ok {
					if d == rels[i] && g != "file "+texts[i] && g != want[d] {
						return fmt.Errorf("after a failure, %q is %q, want %q", d, clip(g, 1000), clip(texts[i], 1000))
					}
					want[d] = g
				}
			}
		}
		for d := filepath.Dir(filepath.Join("wd", c.Dir, "x")); d != "."; d = filepath.Dir(d) {
			if got[d] == "directory" {
				want[d] = got[d]
			}
		}
		for d := filepath.Dir(rels[failing]); d != "."; d = filepath.Dir(d) {
			if got[d] == "directory" {
				want[d] = got[d]
			}
		}
		if err := diffSnap(got, want); err != nil {
			return fmt.Errorf("after a failure: %w", err)
		}
	}
	replaced := false
	for i := range rels {
		for n, s := range c.Pre {
			if filepath.Clean(n) == rels[i] && len(s) > len(texts[i]) {
				replaced = true
			}
		}
	}
	o.LabelIf(replaced, "longer file replaced")
	o.LabelIf(c.Dir == "", "no directory")
	o.LabelIf(c.Ext || c.Lua, "builders")
	for _, t := range c.T {
		o.LabelIf(t.Abs, "absolute path")
	}
	o.NonTrivial(len(texts) > 1)
	return nil
}

// ---------------------------------------------------------------- creators

type event struct {
	op   string // create, write, close
	file int
	arg  string
}

// recorder is a target that remembers what is done to it, and fails at one operation.
type recorder struct {
	events []event
	failAt int // -1: never
	err    error
}

func (r *recorder) do(op string, file int, arg string) error {
	r.events = append(r.events, event{op, file, arg})
	if len(r.events)-1 == r.failAt {
		return r.err
	}
	return nil
}

type recWriter struct {
	r *recorder
	i int
}

func (r *recorder) Create(path string) (io.WriteCloser, error) {
	n := 0
	for _, e := range r.events {
		if e.op == "create" {
			n++
		}
	}
	if err := r.do("create", n, path); err != nil {
		return nil, err
	}
	return &recWriter{r, n}, nil
}

func (r *recorder) Reset() { panic("reset") }

func (w *recWriter) Write(b []byte) (int, error) {
	s := string(b)
	for i := range b {
		_ = i
	}
	if err := w.r.do("write", w.i, s); err != nil {
		return 0, err
	}
	return len(b), nil
}

func (w *recWriter) Close() error { return w.r.do("close", w.i, "") }

func runBuildInto(c buildCase, o *Obs) error {
	p := c.payload("")
	for i := range p.Config {
		c.F = c.F.limit(p.Config[i].Parsed)
	}
	keep := copyPayload(&p)
	var texts []string
	for _, k := range p.Config {
		s, err := buildText(k, c.options())
		if err != nil {
			return fmt.Errorf("build: %w", err)
		}
		// a second build with the same options gives the same
		var buf bytes.Buffer
		opts := c.options()
		for n := 0; n < 2; n++ {
			buf.Reset()
			if err := cp.Build(&buf, k, opts); err != nil || buf.String() != s {
				return fmt.Errorf("build %d gives %q %v, want %q", n, clip(buf.String(), 1000), err, clip(s, 1000))
			}
		}
		texts = append(texts, s)
	}
	sc := &cp.StringsCreator{}
	opts := c.options()
	var kept [][]*cp.FileString
	for round := 0; round < 3; round++ {
		if err := cp.BuildInto(&p, sc, opts); err != nil {
			return fmt.Errorf("into strings: %w", err)
		}
		if len(sc.Files) != len(texts) {
			return fmt.Errorf("into strings: %d files, want %d", len(sc.Files), len(texts))
		}
		kept = append(kept, sc.Files)
		for i, f := range sc.Files {
			if f.Name != p.Config[i].File || f.String() != texts[i]+"\n" {
				return fmt.Errorf("into strings: file %d is %q %q, want %q %q", i, f.Name, clip(f.String(), 1000), p.Config[i].File, clip(texts[i], 1000))
			}
		}
		sc.Reset()
		if len(sc.Files) != 0 {
			return fmt.Errorf("%d files after a reset", len(sc.Files))
		}
		// in the end, the payload is built backwards
		if round == 2 {
			back := p
			back.Config = nil
			for i := range p.Config {
				k := p.Config[len(p.Config)-1-i]
				k.File += "~"
				back.Config = append(back.Config, k)
			}
			if err := cp.BuildInto(&back, sc, opts); err != nil {
				return fmt.Errorf("into strings: %w", err)
			}
		}
	}
	for round, fs := range kept {
		for i, f := range fs {
			if f.Name != p.Config[i].File || f.String() != texts[i]+"\n" {
				return fmt.Errorf("into strings: after a reset, file %d of round %d is %q %q, want %q %q", i, round, f.Name, clip(f.String(), 1000), p.Config[i].File, clip(texts[i], 1000))
			}
		}
	}
	// without a reset, files are added
	all := &cp.StringsCreator{}
	for round := 0; round < 2; round++ {
		if err := cp.BuildInto(&p, all, opts); err != nil {
			return fmt.Errorf("into strings: %w", err)
		}
	}
	if len(all.Files) != 2*len(texts) {
		return fmt.Errorf("into strings twice: %d files, want %d", len(all.Files), 2*len(texts))
	}
	for i, f := range all.Files {
		k := i % len(texts)
		if f.Name != p.Config[k].File || f.String() != texts[k]+"\n" {
			return fmt.Errorf("into strings twice: file %d is %q %q, want %q %q", i, f.Name, clip(f.String(), 1000), p.Config[k].File, clip(texts[k], 1000))
		}
	}
	// another target
	r := &recorder{failAt: -1}
	if err := cp.BuildInto(&p, r, c.options()); err != nil {
		return fmt.Errorf("into a creator: %w", err)
	}
	n := -1
	open := false
	var sb strings.Builder
	for _, e := range r.events {
		switch e.op {
		case "create":
			if open {
				return fmt.Errorf("%q is created before the one before it is closed", e.arg)
			}
			n++
			open = true
			sb.Reset()
			if e.arg != p.Config[n].File {
				return fmt.Errorf("target %d is %q, want %q", n, e.arg, p.Config[n].File)
			}
		case "write", "close":
			if !open || e.file != n {
				return fmt.Errorf("%s to target %d, which is not open", e.op, e.file)
			}
			sb.WriteString(e.arg)
			if e.op == "close" {
				open = false
				if sb.String() != texts[n] {
					return fmt.Errorf("target %d is given %q, want %q", n, clip(sb.String(), 1000), clip(texts[n], 1000))
				}
			}
		}
	}
	if open || n != len(texts)-1 {
		return fmt.Errorf("%d targets are created (the last one is closed: %v), want %d", n+1, !open, len(texts))
	}
	// every operation fails in turn
	step := 1 + len(r.events)/40
	for at := 0; at < len(r.events); at += step {
		f := &recorder{failAt: at, err: errors.New("injected")}
		err := cp.BuildInto(&p, f, c.options())
		if !errors.Is(err, f.err) {
			return fmt.Errorf("operation %d (%s) fails, but the error is %v", at, r.events[at].op, err)
		}
		for _, e := range f.events {
			if e.op == "create" && e.file > r.events[at].file {
				return fmt.Errorf("operation %d (%s) fails, but building goes on", at, r.events[at].op)
			}
		}
		o.Label("failing " + r.events[at].op)
	}
	for i, k := range p.Config {
		w := &recWriter{&recorder{failAt: 0, err: errors.New("injected")}, 0}
		if err := cp.Build(w, k, c.options()); !errors.Is(err, w.r.err) {
			return fmt.Errorf("configuration %d: the first write fails, but the error is %v", i, err)
		}
	}
	if err := samePayload(&p, keep); err != nil {
		return fmt.Errorf("building changes the payload: %w", err)
	}
	o.NonTrivial(len(texts) > 1)
	return nil
}

func genTargets(t *rapid.T) buildCase {
	c := buildCase{F: genFmt(t), Lua: chance(t, 20), Ext: chance(t, 20), Pre: map[string]string{}}
	c.F.Header = chance(t, 30)
	c.Dir = oneOf(t, []string{"out", "", ".", "new/dir/", "out/../o2", "ü x"})
	c.Abs = chance(t, 60) && c.Dir != ""
	seen := map[string]bool{}
	for n := intn(t, 0, 5); n > 0; n-- {
		k := Target{Path: oneOf(t, buildPaths), Tree: genDNs(t), Nil: chance(t, 3), Failed: chance(t, 8)}
		if chance(t, 35) {
			// names that differ in one part of the path
			k.Path = times("../", pick(t, 90, 10)) + times("./", pick(t, 90, 10))
			for n := pick(t, 15, 35, 35, 15); n > 0; n-- {
				k.Path += oneOf(t, []string{"a", "b", "A", "a.d", "ab"}) + "/"
			}
			k.Path += oneOf(t, []string{"a.conf", "b.conf", "A.conf", "a.conf.bak.conf"})
			if chance(t, 15) {
				k.Path, k.Abs = "/abs/"+strings.ReplaceAll(k.Path, "../", ""), true
			}
		} else if chance(t, 20) {
			k.Path, k.Abs = oneOf(t, buildAbs), true
		}
		if c.Dir != "" && c.Dir != "." && !k.Abs && chance(t, 15) {
			// the name of the directory, once more
			k.Path = filepath.Clean(c.Dir) + "/" + oneOf(t, []string{"a.conf", "b/c.conf", "nginx.conf"})
			if chance(t, 30) {
				k.Path = "wd/" + k.Path
			}
		}
		if chance(t, 6) {
			// white space at the end
			s := " \t"
			k.Tree = append(k.Tree, DN{N: "#", C: &s})
		}
		key := filepath.Join("/wd", c.Dir, k.Path)
		if k.Abs {
			key = filepath.Clean(k.Path)
		}
		if !seen[key] {
			seen[key] = true
			c.T = append(c.T, k)
			if chance(t, 30) {
				old := strings.Repeat(oneOf(t, []string{"old;\n", "x", "\n"}), intn(t, 0, 400))
				if k.Abs {
					c.Pre[strings.TrimPrefix(filepath.Clean(k.Path), "/")] = old
				} else {
					c.Pre[filepath.Join("wd", c.Dir, k.Path)] = old
				}
			}
		}
	}
	if chance(t, 50) {
		c.Pre[oneOf(t, []string{"other.txt", "wd/out/other.conf", "wd/conf.d/other.conf"})] = "other"
	}
	if chance(t, 20) {
		c.Fail, c.At = intn(t, 1, 5), intn(t, 0, 4)
	}
	return c
}

func init() {
	Register(Check{Prop: "C14", Name: "files", Quick: 16000,
		Rule: "up to 5 configurations built to relative and absolute paths below a scratch directory, some of which exist or cannot be written, compared with a snapshot of it; non-trivial: at least 2 configurations"},
		genTargets, runBuildFiles)
	Register(Check{Prop: "C14", Name: "into", Quick: 24000,
		Rule: "up to 5 configurations built into strings and into a recording target that fails at each operation in turn; non-trivial: at least 2 configurations"},
		genTargets, runBuildInto)
}
