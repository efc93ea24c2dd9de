package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

// faultFS counts the operations on a file system in memory and makes one of them fail.
type faultFS struct {
	mu     sync.Mutex
	fs     FS
	chunk  int // bytes given by one read; 0: as many as fit
	fault  *Fault
	counts map[string]int
	hit    bool // the failing operation was done
	files  []*faultFile
	over   bool // parsing has returned
	open1  int  // files that are open
	errs   []string
}

type faultFile struct {
	o      *faultFS
	path   string
	text   string
	pos    int
	fails  bool
	closed int
	reads  int
	empty  int
}

func (o *faultFS) note(format string, a ...interface{}) {
	if len(o.errs) < 5 {
		o.errs = append(o.errs, fmt.Sprintf(format, a...))
	}
}

func (o *faultFS) count(op, path string) int {
	if o.over {
		o.note("%s %q after parsing has returned", op, path)
	}
	if o.counts == nil {
		o.counts = map[string]int{}
	}
	o.counts[op+path]++
	return o.counts[op+path]
}

// maxOpen files must never be open at once: one is read, and another may be opened to see whether it can be.
const maxOpen = 8

func (o *faultFS) open(path string) (io.ReadCloser, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	n := o.count("open", path)
	if o.fault.is("open", path, n) {
		o.hit = true
		return nil, o.fault.err()
	}
	s, ok := o.fs[path]
	if !ok {
		_, err := o.fs.open(path)
		return nil, err
	}
	f := &faultFile{o: o, path: path, text: s, fails: o.fault != nil && o.fault.Op == "read" && o.fault.Path == path}
	if f.fails {
		f.text = s[:o.fault.At]
	}
	o.files = append(o.files, f)
	if o.open1++; o.open1 == maxOpen {
		o.note("%d files are open at once", o.open1)
	}
	return f, nil
}

func (o *faultFS) glob(pattern string) ([]string, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	n := o.count("glob", pattern)
	if o.fault.is("glob", pattern, n) {
		o.hit = true
		if o.fault.With {
			names, _ := o.fs.glob(pattern)
			return names, o.fault.err()
		}
		return nil, o.fault.err()
	}
	return o.fs.glob(pattern)
}

func (f *faultFile) Read(b []byte) (int, error) {
	f.o.mu.Lock()
	defer f.o.mu.Unlock()
	if f.closed > 0 {
		f.o.note("read of %q after it is closed", f.path)
		return 0, os.ErrClosed
	}
	if f.o.over {
		f.o.note("read of %q after parsing has returned", f.path)
	}
	f.reads++
	if f.o.chunk > 0 && len(b) > f.o.chunk {
		b = b[:f.o.chunk]
	}
	n := copy(b, f.text[f.pos:])
	f.pos += n
	end := f.pos == len(f.text)
	if !end || n > 0 && !(f.fails && f.o.fault.With) {
		return n, nil
	}
	if !f.fails {
		return n, io.EOF
	}
	f.o.hit = true
	if f.o.fault.Then {
		f.fails, f.text = false, f.o.fs[f.path]
	}
	if f.o.fault.Kind == "stuck" {
		if f.empty++; f.empty > 100000 {
			f.o.note("%q is read over and over", f.path)
			return n, io.EOF
		}
		return n, nil
	}
	return n, f.o.fault.err()
}

func (f *faultFile) Close() error {
	f.o.mu.Lock()
	defer f.o.mu.Unlock()
	if f.o.over {
		f.o.note("%q is closed after parsing has returned", f.path)
	}
	if f.closed++; f.closed == 1 {
		f.o.open1--
	}
	return nil
}

// released checks what has to hold when parsing has returned.
func (o *faultFS) released() error {
	o.mu.Lock()
	defer o.mu.Unlock()
	for _, f := range o.files {
		if f.closed == 0 {
			o.note("%q is not closed", f.path)
		}
	}
	if len(o.errs) > 0 {
		return errors.New(strings.Join(o.errs, "; "))
	}
	return nil
}

// faultCase is a set of files of which every operation fails in turn; Only picks a single one.
type faultCase struct {
	C     filesCase
	Chunk int
	Only  *Fault `json:",omitempty"`
}

// parse runs the parser on the files with a fault, and checks that everything is released.
func (c faultCase) parse(fs FS, f *Fault) (*faultFS, *cp.Payload, error, error) {
	o := &faultFS{fs: fs, chunk: c.Chunk, fault: f}
	po := c.C.O.parseOptions(fs)
	po.Open, po.Glob = o.open, o.glob
	before := runtime.NumGoroutine()
	p, err := cp.Parse(mainFile, po)
	o.mu.Lock()
	o.over = true
	o.mu.Unlock()
	if n := settle(before); n > 0 {
		return o, p, err, fmt.Errorf("%d goroutines left over", n)
	}
	return o, p, err, o.released()
}

// readKinds are the errors that reading gives.
var readKinds = []string{"", "unexpected", "wrapped eof", "passing", "interrupted", "again", "closed", "deadline"}

// faults lists the operations of a run.
func (c faultCase) faults(o *faultFS) []*Fault {
	if c.Only != nil {
		return []*Fault{c.Only}
	}
	var out []*Fault
	done := map[string]bool{}
	for i, k := range sortedKeys(o.counts) {
		op, path := k[:4], k[4:]
		for n := 0; n <= o.counts[k]; n++ {
			out = append(out, &Fault{Op: op, Path: path, N: n, Kind: []string{"", "denied", "missing", "eof", "pattern"}[(i+n+len(path))%5]})
		}
		if op == "glob" {
			// some names together with the error
			out = append(out, &Fault{Op: op, Path: path, With: true, Kind: []string{"", "denied"}[i%2]})
		}
	}
	for _, f := range o.files {
		if f.reads == 0 || done[f.path] {
			continue
		}
		done[f.path] = true
		step := 1 + len(f.text)/150
		for at := 0; at <= len(f.text); at += step {
			out = append(out, &Fault{Op: "read", Path: f.path, At: at, With: at%2 == 1, Kind: readKinds[at/2%len(readKinds)], Then: at/3%2 == 1})
		}
		out = append(out, &Fault{Op: "read", Path: f.path, At: len(f.text) / 2, Kind: "stuck"})
	}
	return out
}

// surfaces checks that the failure is what the errors say.
func surfaces(f *Fault, p *cp.Payload, err error) error {
	if err != nil {
		if errors.Is(err, f.err()) || strings.Contains(err.Error(), f.err().Error()) == false {
			return nil
		}
		return fmt.Errorf("error %v does not unwrap to the failure", err)
	}
	for _, e := range p.Errors {
		if strings.Contains(e.Error.Error(), f.err().Error()) && !errors.Is(e.Error, f.err()) {
			return fmt.Errorf("error %v does not unwrap to the failure", e.Error)
		}
	}
	return nil
}

func runFaults(c faultCase, o *Obs) error {
	fs := c.C.fs()
	dry, p, err, bad := c.parse(fs, nil)
	where := func(f *Fault) string {
		b := ""
		if f != nil {
			b = fmt.Sprintf(" with fault %+v", *f)
		}
		return fmt.Sprintf("files %q%s", c.C.Files, b)
	}
	if bad != nil {
		return fmt.Errorf("%s: %w", where(nil), bad)
	}
	lua := c.C.O.Lua
	if !lua && !c.C.O.Combine {
		if e := diffPayload(p, err, refParse(fs, mainFile, c.C.O)); e != nil {
			return fmt.Errorf("%s: %w", where(nil), e)
		}
	}
	n := 0
	for _, f := range c.faults(dry) {
		x, p, err, bad := c.parse(fs, f)
		if bad != nil {
			return fmt.Errorf("%s: %w", where(f), bad)
		}
		if !x.hit {
			o.Label("fault not reached")
			continue
		}
		n++
		o.Label("fault in " + f.Op)
		o.LabelIf(f.Kind != "", "fault "+f.Kind)
		if err == nil && p.Status != "failed" {
			return fmt.Errorf("%s: status %q", where(f), p.Status)
		}
		if e := surfaces(f, p, err); e != nil {
			return fmt.Errorf("%s: %w", where(f), e)
		}
		if err != nil && p != nil {
			return fmt.Errorf("%s: payload together with error %v", where(f), err)
		}
		if err == nil && f.Op == "read" {
			found := false
			for _, e := range p.Errors {
				found = found || e.File == f.Path
			}
			if !found {
				return fmt.Errorf("%s: no error for the file", where(f))
			}
		}
		if f.Op == "glob" && f.With {
			// what becomes of the names is not specified
			found := errors.Is(err, f.err())
			if err == nil {
				for _, e := range p.Errors {
					found = found || errors.Is(e.Error, f.err())
				}
			}
			if !found && (err == nil || !strings.Contains(err.Error(), "include cycle")) && !c.C.O.Stop {
				return fmt.Errorf("%s: the failure is not reported: %v", where(f), err)
			}
			o.Label("names together with an error")
			continue
		}
		if lua {
			continue
		}
		want := refParseFault(fs, mainFile, c.C.O, f)
		if c.C.O.Combine && want.Fatal == nil && want.OpenErr == "" && !want.Cycle {
			if err != nil {
				return fmt.Errorf("%s: unexpected error %v", where(f), err)
			}
			we := want.errs()
			if len(p.Errors) != len(we) || len(p.Config) != 1 || len(p.Config[0].Errors) != len(we) {
				return fmt.Errorf("%s: errors %v, want %v", where(f), p.Errors, we)
			}
			for i := range we {
				if e := diffErr(p.Errors[i].Error, we[i]); e != nil {
					return fmt.Errorf("%s: error %d: %w", where(f), i, e)
				}
			}
			continue
		}
		if e := diffPayload(p, err, want); e != nil {
			return fmt.Errorf("%s: %w", where(f), e)
		}
		if want.OpenErr != "" && !errors.Is(err, f.err()) && f.Op == "open" && f.Path == want.OpenErr {
			return fmt.Errorf("%s: error %v does not unwrap to the failure", where(f), err)
		}
	}
	o.LabelIf(n > 100, "more than 100 faults")
	o.LabelIf(len(dry.files) > 2, "more than 2 files opened")
	o.LabelIf(lua, "lua")
	o.LabelIf(c.C.O.Stop, "stop at errors")
	o.NonTrivial(n > 3)
	return nil
}

// genFaults draws small files, so that every failure can be tried.
func genFaults(t *rapid.T) faultCase {
	c := faultCase{Chunk: oneInt(t, []int{0, 0, 1, 2, 7, 64})}
	for {
		c.C = filesCase{Files: map[string]string{}}
		switch pick(t, 50, 25, 15, 10) {
		case 0:
			g := &incGen{}
			for _, n := range fileNamesPool {
				if chance(t, 30) {
					g.names = append(g.names, n)
				}
			}
			for i := -1; i < len(g.names); i++ {
				g.at = i
				name := "nginx.conf"
				if i >= 0 {
					name = g.names[i]
				}
				if chance(t, 50) {
					c.C.Files[name] = g.text(t, 6)
				} else {
					c.C.Files[name] = g.nested(t)
				}
			}
		case 1:
			g := &treeGen{comments: chance(t, 60), known: chance(t, 70), budget: 10}
			if chance(t, 40) {
				g.lua = luaNode
				c.C.O.Lua = true
			}
			c.C.Files["nginx.conf"] = genConf(t, g, nil).render().text
		case 2:
			c.C.Files["nginx.conf"] = genSoup(t)
		case 3:
			c.C.Files["nginx.conf"] = strings.Repeat(oneOf(t, []string{"x y;\n", "b {}\n", "c 'd e' \"f\";", "# é\n"}), oneInt(t, []int{1, 5, 600, 2100}))
		}
		lua := c.C.O.Lua
		c.C.O = includeOpts(t)
		c.C.O.Lua = lua
		c.C.O.Stop = chance(t, 20)
		c.C.O.Combine = chance(t, 15)
		return c
	}
}

// ---------------------------------------------------------------- tokens

type cutCase struct {
	Text  string
	Chunk int
	Only  *Fault `json:",omitempty"`
}

func runCut(c cutCase, o *Obs) error {
	lo, hi := 0, len(c.Text)
	if c.Only != nil {
		lo, hi = c.Only.At, c.Only.At
	}
	for at := lo; at <= hi; at++ {
		f := &Fault{Op: "read", Path: "x", At: at, With: at%2 == 0, Kind: readKinds[(at+len(c.Text))%len(readKinds)], Then: at/2%2 == 0}
		if c.Only != nil {
			f = c.Only
		}
		x := &faultFS{fs: FS{"x": c.Text}, fault: f, chunk: c.Chunk}
		r, err := x.open("x")
		must(err)
		got := collect(cp.Lex(r))
		want := refLexCut(c.Text[:at], f.err())
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Errorf("text %q cut at %d: tokens %v, want %v", c.Text, at, got, want)
		}
		o.Label("cut")
	}
	o.NonTrivial(len(c.Text) > 3)
	return nil
}

// ---------------------------------------------------------------- on disk

// diskFaults has files that cannot be opened or read.
type diskFaults struct {
	C    filesCase
	Dirs []string // paths that are directories
	Deny []string // files that may not be read
	Loop []string // symbolic links to themselves
	Gone []string // symbolic links to nothing
}

func openFDs() int {
	es, err := os.ReadDir("/proc/self/fd")
	must(err)
	return len(es)
}

func runDiskFaults(c diskFaults, o *Obs) error {
	if os.Getuid() == 0 {
		panic(infraError{fmt.Errorf("file permissions do not apply to root")})
	}
	dir := scratchDir()
	defer os.RemoveAll(dir)
	etc := dir + confDir
	at := func(n string) string {
		if filepath.IsAbs(n) {
			return dir + n
		}
		return filepath.Join(etc, n)
	}
	disk := map[string]string{}
	for n, s := range c.C.Files {
		s = strings.ReplaceAll(s, "/etc/nginx/", etc+"/")
		s = strings.ReplaceAll(s, `include ""`, "include nope.conf") // it would name the directory
		for _, d := range []string{"/opt/", "/nope/", "/nope*/"} {
			s = strings.ReplaceAll(s, d, dir+d)
		}
		disk[at(n)] = s
	}
	badOpen, badRead := map[string]bool{}, map[string]bool{}
	for _, n := range append(append(append(append([]string{}, c.Dirs...), c.Deny...), c.Loop...), c.Gone...) {
		must(os.MkdirAll(filepath.Dir(at(n)), 0o755))
	}
	for _, n := range c.Dirs {
		delete(disk, at(n))
		must(os.MkdirAll(at(n), 0o755))
		badRead[at(n)] = true
	}
	link := func(n, to string) {
		if badRead[at(n)] || badOpen[at(n)] {
			return
		}
		delete(disk, at(n))
		must(os.Symlink(to, at(n)))
		badOpen[at(n)] = true
	}
	for _, n := range c.Loop {
		link(n, filepath.Base(n))
	}
	for _, n := range c.Gone {
		link(n, "no-such-file")
	}
	writeFiles(disk)
	for _, n := range c.Deny {
		if _, ok := disk[at(n)]; ok {
			must(os.Chmod(at(n), 0))
			badOpen[at(n)] = true
		}
	}
	main := etc + "/nginx.conf"
	fds, before := openFDs(), runtime.NumGoroutine()
	p, err := cp.Parse(main, c.C.O.parseOptions(nil))
	if n := settle(before); n > 0 {
		return fmt.Errorf("files %q: %d goroutines left over", disk, n)
	}
	if n := openFDs(); n != fds {
		return fmt.Errorf("files %q: %d file descriptors left open", disk, n-fds)
	}
	if err != nil {
		o.Label("error")
		if badOpen[main] && !errors.Is(err, os.ErrPermission) && len(c.Loop)+len(c.Gone) == 0 {
			return fmt.Errorf("files %q: error %v, want permission denied", disk, err)
		}
		if c.C.O.Stop || badOpen[main] {
			o.NonTrivial(true)
			return nil
		}
		// only a file found by a pattern may fail here
		if !strings.Contains(err.Error(), "include cycle") {
			named := false
			for n := range badOpen {
				named = named || strings.Contains(err.Error(), n)
			}
			if !named {
				return fmt.Errorf("files %q: unexpected error %v", disk, err)
			}
		}
		o.NonTrivial(true)
		return nil
	}
	failures := 0
	for i := range p.Config {
		k := &p.Config[i]
		if badOpen[k.File] {
			return fmt.Errorf("files %q: %s is in the payload, but cannot be opened", disk, k.File)
		}
		if badRead[k.File] {
			failures++
			if k.Status != "failed" || len(k.Errors) != 1 || len(k.Parsed) > 0 || k.Errors[0].Line == nil {
				return fmt.Errorf("files %q: directory %s gives status %q, errors %v, statements %v", disk, k.File, k.Status, k.Errors, k.Parsed)
			}
		} else if _, ok := disk[k.File]; !ok {
			return fmt.Errorf("files %q: %s is in the payload, but does not exist", disk, k.File)
		}
		var bad error
		walkDirs(k.Parsed, 0, func(d *cp.Directive, depth int) {
			if d.Directive != "include" || d.IsMapBlockParameter || len(d.Args) == 0 || strings.ContainsAny(d.Args[0], "*?[") || c.C.O.Single {
				return
			}
			path := d.Args[0]
			if !filepath.IsAbs(path) {
				path = filepath.Join(etc, path)
			}
			_, ok := disk[path]
			fails := badOpen[path] || !ok && !badRead[path]
			found := false
			for _, e := range k.Errors {
				pe := asParseError(e.Error)
				found = found || pe != nil && pe.Unwrap() != nil && strings.Contains(pe.Error(), path) && pint(pe.Line) == pint(&d.Line)
			}
			if fails != (len(d.Includes) == 0) || fails && !found {
				bad = fmt.Errorf("files %q: %s:%d: include of %s has includes %v, errors %v", disk, k.File, d.Line, path, d.Includes, cfgErrs(k.Errors))
			}
			if fails {
				failures++
			}
		})
		if bad != nil {
			return bad
		}
	}
	if failures > 0 && p.Status != "failed" {
		return fmt.Errorf("files %q: status %q", disk, p.Status)
	}
	o.LabelIf(failures > 0, "failure recorded")
	o.NonTrivial(failures > 0)
	return nil
}

func init() {
	Register(Check{Prop: "C17", Name: "faults", Quick: 3600, Thorough: 40000,
		Rule: "small files that include each other; every open, every glob (with various errors, also together with names) and every read (after every number of bytes, or after 150 of them in long files; error alone or together with data, of several kinds, for good or only once; readers that give nothing forever) fails in turn, and the outcome is compared with that of the reference parser under the same failure; every file has to be closed and not used afterwards, no goroutine may remain; non-trivial: more than 3 failures were reached"},
		genFaults, runFaults)
	Register(Check{Prop: "C17", Name: "tokens", Quick: 8000, Thorough: 100000,
		Rule: "texts whose reading fails after every number of bytes: exactly the complete tokens, then the error; non-trivial: texts longer than 3 bytes"},
		func(t *rapid.T) cutCase {
			c := cutCase{Chunk: oneInt(t, []int{0, 1, 3, 16})}
			switch pick(t, 50, 50) {
			case 0:
				c.Text = genSoup(t)
			case 1:
				c.Text = genConf(t, &treeGen{comments: true, budget: 6}, nil).render().text
			}
			if len(c.Text) > 400 {
				c.Text = c.Text[:400]
			}
			return c
		}, runCut)
	Register(Check{Prop: "C17", Name: "disk", Quick: 4000, Thorough: 40000,
		Rule: "files on disk of which some are directories, unreadable, dangling or looping links, with the default Open and Glob; open file descriptors are counted; non-trivial: a failure was met"},
		func(t *rapid.T) diskFaults {
			c := diskFaults{C: filesCase{Files: genFiles(t, false), O: Opts{SkipCtx: true, SkipArgs: true, Stop: chance(t, 8), Comments: chance(t, 30)}}}
			for _, n := range append([]string{"nginx.conf"}, fileNamesPool...) {
				if n == "nginx.conf" && chance(t, 80) {
					continue
				}
				switch pick(t, 70, 8, 8, 7, 7) {
				case 1:
					c.Dirs = append(c.Dirs, n)
				case 2:
					c.Deny = append(c.Deny, n)
				case 3:
					c.Loop = append(c.Loop, n)
				case 4:
					c.Gone = append(c.Gone, n)
				}
			}
			return c
		}, runDiskFaults)
}
