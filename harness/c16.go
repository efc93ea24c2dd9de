package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"sync"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

// Delivery is how a reader hands out its bytes.
type Delivery struct {
	Sizes []int `json:",omitempty"` // sizes of the chunks, in turn; 0: nothing is read
	EOF   bool  `json:",omitempty"` // the end is reported together with the last bytes
	Cap   int   // capacity of the token channel
}

type chunkReader struct {
	s string
	d Delivery
	i int
}

func (r *chunkReader) Read(b []byte) (int, error) {
	n := len(b)
	if len(r.d.Sizes) > 0 {
		n = r.d.Sizes[r.i%len(r.d.Sizes)]
		r.i++
	}
	if n > len(b) {
		n = len(b)
	}
	n = copy(b[:n], r.s)
	r.s = r.s[n:]
	if r.s == "" && (r.d.EOF || n == 0) {
		return n, io.EOF
	}
	return n, nil
}

func (r *chunkReader) Close() error { return nil }

func genDelivery(t *rapid.T) Delivery {
	d := Delivery{EOF: chance(t, 40), Cap: oneInt(t, []int{0, 1, 2, 3, 7, 64, 2048, 5000})}
	for n := intn(t, 0, 4); n > 0; n-- {
		d.Sizes = append(d.Sizes, oneInt(t, []int{1, 2, 3, 5, 7, 16, 100, 4095, 4096, 0}))
	}
	sum := 0
	for _, s := range d.Sizes {
		sum += s
	}
	if sum == 0 {
		d.Sizes = nil
	}
	return d
}

// outcome is the result of a parse in a form that can be compared.
func outcome(p *cp.Payload, err error) string {
	if err != nil {
		return "error " + err.Error() + detail(err)
	}
	b, e := json.Marshal(p)
	if e != nil {
		return "cannot be encoded: " + e.Error()
	}
	s := string(b)
	for _, x := range p.Errors {
		s += detail(x.Error)
	}
	for i := range p.Config {
		nils := ""
		if p.Config[i].Parsed == nil {
			nils = "nil"
		}
		s += nils
	}
	return s
}

func detail(err error) string {
	pe := asParseError(err)
	if pe == nil {
		return ""
	}
	return fmt.Sprintf(" [%q %q %s %s %v]", pe.Statement, pe.BlockCtx, pstr(pe.File), pint(pe.Line), pe.Unwrap())
}

type deliveryCase struct {
	C filesCase
	D []Delivery
}

func genAnyFiles(t *rapid.T) filesCase {
	c := filesCase{Files: map[string]string{}, O: includeOpts(t)}
	switch pick(t, 30, 25, 20, 25) {
	case 0:
		c.Files = genFiles(t, chance(t, 5))
	case 1:
		g := &treeGen{comments: chance(t, 60), known: chance(t, 70)}
		if chance(t, 50) {
			g.lua = luaNode
			c.O.Lua = true
		}
		c.Files["nginx.conf"] = genConf(t, g, nil).render().text
	case 2:
		c.Files["nginx.conf"] = brokenText(t, c.O)
	case 3:
		c.Files["nginx.conf"] = genSoup(t)
	}
	if chance(t, 20) {
		// more tokens than the channel holds
		c.Files["nginx.conf"] += "\n" + strings.Repeat(oneOf(t, []string{"x y;\n", "a;", "b {}\n", "c 'd e' \"f\";"}), intn(t, 300, 1500))
	}
	c.O.Comments = chance(t, 50)
	return c
}

func lexOutcome(ch <-chan cp.NgxToken) string {
	var sb strings.Builder
	for _, k := range collect(ch) {
		sb.WriteString(k.String() + "\n")
	}
	return sb.String()
}

func runDelivery(c deliveryCase, o *Obs) error {
	fs := c.C.fs()
	defer cp.SetTokenChanCap(cp.TokenChanCap)
	cp.SetTokenChanCap(cp.TokenChanCap)
	po := c.C.O.parseOptions(fs)
	want := outcome(cp.Parse(mainFile, po))
	wantLex := lexOutcome(cp.LexWithOptions(strings.NewReader(fs[mainFile]), po.LexOptions))
	for _, d := range c.D {
		d := d
		cp.SetTokenChanCap(d.Cap)
		po := c.C.O.parseOptions(fs)
		po.Open = func(path string) (io.ReadCloser, error) {
			r, err := fs.open(path)
			if err != nil {
				return nil, err
			}
			r.Close()
			return &chunkReader{s: fs[path], d: d}, nil
		}
		if got := outcome(cp.Parse(mainFile, po)); got != want {
			return fmt.Errorf("files %q: delivered as %+v: %s", c.C.Files, d, firstDiff(got, want))
		}
		if got := lexOutcome(cp.LexWithOptions(&chunkReader{s: fs[mainFile], d: d}, po.LexOptions)); got != wantLex {
			return fmt.Errorf("files %q: delivered as %+v: tokens: %s", c.C.Files, d, firstDiff(got, wantLex))
		}
		o.Label("capacity %d", d.Cap)
		o.LabelIf(d.EOF, "end together with data")
	}
	total := 0
	for _, s := range fs {
		total += len(s)
	}
	o.LabelIf(total > 4096, "text>4096 bytes")
	o.LabelIf(strings.HasPrefix(want, "error"), "error")
	o.NonTrivial(len(c.D) > 0 && total > 10)
	return nil
}

func firstDiff(g, w string) string {
	i := 0
	for i < len(g) && i < len(w) && g[i] == w[i] {
		i++
	}
	a := i - 60
	if a < 0 {
		a = 0
	}
	end := func(s string) string {
		if len(s) > i+200 {
			return s[a : i+200]
		}
		return s[a:]
	}
	return fmt.Sprintf("at %d: %q, want %q", i, end(g), end(w))
}

// ---------------------------------------------------------------- histories

// Op is a use of the library: of one of the file sets, through options that are shared or not.
type Op struct {
	K int // 0 parse, 1 parse and build, 2 lex, 3 build into strings, 4 combine, 5 build to a writer that fails, 6 parse what cannot be read, 7 parse while parsing
	F int
	N int `json:",omitempty"` // where it fails
}

type historyCase struct {
	Files []map[string]string
	O     Opts
	F     Fmt
	Lua   bool // extensions are registered
	Ops   []Op
	Par   int `json:",omitempty"` // goroutines
	Def   int `json:",omitempty"` // 1: without Glob, 2: without Glob and Open
}

type session struct {
	po *cp.ParseOptions
	bo *cp.BuildOptions
	// payloads that were parsed before, for building
	ps []*cp.Payload
	// definitions that the sources gave out
	given *givenMasks
}

// givenMasks wraps sources, so that they give out the same memory every time, with room behind the definitions.
type givenMasks struct {
	mu sync.Mutex
	m  map[string][]uint
}

const guard = 0x7e57ab1e

func (g *givenMasks) wrap(i int, f cp.MatchFunc) cp.MatchFunc {
	return func(d string) ([]uint, bool) {
		ms, ok := f(d)
		if !ok {
			return nil, false
		}
		g.mu.Lock()
		defer g.mu.Unlock()
		k := fmt.Sprintf("%d %s", i, d)
		if _, ok := g.m[k]; !ok {
			s := append(make([]uint, 0, len(ms)+4), ms...)
			g.m[k] = append(s, guard, guard, guard, guard)[:len(ms)]
		}
		return g.m[k], true
	}
}

// check checks that the memory is as it was.
func (g *givenMasks) check(sources []cp.MatchFunc) error {
	for _, k := range sortedKeys(g.m) {
		var i int
		var d string
		if n := strings.IndexByte(k, ' '); n > 0 {
			_, _ = fmt.Sscan(k[:n], &i)
			d = k[n+1:]
		}
		want, _ := sources[i](d)
		all := g.m[k][:cap(g.m[k])]
		for j := range all {
			if j < len(want) && all[j] != want[j] || j >= len(want) && j < len(want)+4 && all[j] != guard {
				return fmt.Errorf("parsing writes to the definitions of %q in source %d", d, i)
			}
		}
	}
	return nil
}

// tablesAtStart are the definitions in the built-in tables before anything is parsed.
var tablesAtStart = copyTables()

func copyTables() map[string][]uint {
	out := map[string][]uint{}
	for t, f := range builtin {
		for _, n := range definedNames {
			if ms, ok := f(n); ok {
				out[t+" "+n] = append([]uint{}, ms...)
			}
		}
	}
	return out
}

// sameTables checks that the built-in tables are as they were.
func sameTables() error {
	n := 0
	for t, f := range builtin {
		for _, name := range definedNames {
			ms, ok := f(name)
			if !ok {
				continue
			}
			n++
			want, ok := tablesAtStart[t+" "+name]
			if !ok || len(ms) != len(want) {
				return fmt.Errorf("the definitions of %q in table %q change", name, t)
			}
			for i := range ms {
				if ms[i] != want[i] {
					return fmt.Errorf("definition %d of %q in table %q changes from %x to %x", i, name, t, want[i], ms[i])
				}
			}
		}
	}
	if n != len(tablesAtStart) {
		return fmt.Errorf("the built-in tables have %d directives, and %d before", n, len(tablesAtStart))
	}
	return nil
}

func (c historyCase) open() *session {
	s := &session{po: c.O.parseOptions(nil), bo: c.F.options(), given: &givenMasks{m: map[string][]uint{}}}
	for i, f := range s.po.DirectiveSources {
		s.po.DirectiveSources[i] = s.given.wrap(i, f)
	}
	s.po.IgnoreDirectives = append(make([]string, 0, 8), s.po.IgnoreDirectives...)
	s.po.Glob = nil
	s.po.ErrorCallback = func(e error) interface{} { return "cb " + e.Error() }
	if c.Lua {
		l := &cp.Lua{}
		s.po.LexOptions.Lexers = append(make([]cp.RegisterLexer, 0, 4), l.RegisterLexer())
		s.bo.Builders = append(make([]cp.RegisterBuilder, 0, 4), l.RegisterBuilder(), cp.BuildWithBuilder(extBuilder{}, "listen"))
	}
	return s
}

// fsFuncs gives the functions that find files.
func (c historyCase) fsFuncs(all FS) (func(string) (io.ReadCloser, error), func(string) ([]string, error)) {
	switch c.Def {
	case 1:
		return all.open, nil
	case 2:
		return nil, nil
	}
	return all.open, all.glob
}

// files of set i are below /s<i>/
func (c historyCase) allFiles() FS {
	all := FS{}
	for i, fs := range c.Files {
		for n, text := range fs {
			if !strings.HasPrefix(n, "/") {
				all[fmt.Sprintf("/s%d/%s", i, n)] = text
			}
		}
	}
	return all
}

func (c historyCase) do(s *session, all FS, op Op) string {
	i := op.F % len(c.Files)
	name := fmt.Sprintf("/s%d/nginx.conf", i)
	switch op.K {
	case 0:
		return outcome(cp.Parse(name, s.po))
	case 5:
		p := s.ps[i]
		if p == nil {
			return "none"
		}
		out := ""
		for _, k := range p.Config {
			var b bytes.Buffer
			err := cp.Build(&shortWriter{w: &b, n: op.N}, k, s.bo)
			out += fmt.Sprint(err, b.Len() <= op.N)
		}
		return out
	case 6:
		po := *s.po
		po.Open = func(path string) (io.ReadCloser, error) {
			text, ok := all[path]
			if !ok || op.N > len(text) {
				return nil, errBroken
			}
			return io.NopCloser(io.MultiReader(strings.NewReader(text[:op.N]), failingReader{})), nil
		}
		return outcome(cp.Parse(name, &po))
	case 7:
		// the functions that the parser calls use the library themselves
		po, open, callback := *s.po, s.po.Open, s.po.ErrorCallback
		n := 0
		again := func() {
			if n++; n <= 2 {
				c.do(s, all, Op{K: 0, F: op.F + 1})
				c.do(s, all, Op{K: 3, F: op.F})
			}
		}
		if open != nil {
			po.Open = func(path string) (io.ReadCloser, error) {
				again()
				return open(path)
			}
		}
		po.ErrorCallback = func(e error) interface{} {
			again()
			return callback(e)
		}
		return outcome(cp.Parse(name, &po))
	case 1, 3:
		p := s.ps[i]
		if op.K == 1 {
			var err error
			if p, err = cp.Parse(name, s.po); err != nil {
				return err.Error()
			}
		}
		if p == nil {
			return "none"
		}
		if op.K == 3 {
			sc := &cp.StringsCreator{}
			if err := cp.BuildInto(p, sc, s.bo); err != nil {
				return err.Error()
			}
			out := ""
			for _, f := range sc.Files {
				out += f.Name + "\n" + f.String()
			}
			return out
		}
		out := ""
		for _, k := range p.Config {
			var b bytes.Buffer
			if err := cp.Build(&b, k, s.bo); err != nil {
				return err.Error()
			}
			out += b.String() + "\n"
		}
		return out
	case 2:
		return lexOutcome(cp.LexWithOptions(strings.NewReader(all[name]), s.po.LexOptions))
	default:
		p := s.ps[i]
		if p == nil {
			return "none"
		}
		q, err := p.Combined()
		if err == nil && len(q.Config[0].Parsed) > 0 {
			d := q.Config[0].Parsed[0]
			if !d.Equal(d) || d.String() != q.Config[0].Parsed[0].String() {
				return "not equal"
			}
		}
		return outcome(q, err)
	}
}

// run runs the operations on shared options, and compares with fresh ones.
func runHistory(c historyCase, o *Obs) error {
	if len(c.Files) == 0 || len(c.Ops) == 0 {
		return nil
	}
	all := c.allFiles()
	if c.O.Combine {
		c.O.Combine = false
		o.Label("not combined")
	}
	parsed := func() []*cp.Payload {
		var out []*cp.Payload
		for i := range c.Files {
			s := c.open()
			s.po.Open, s.po.Glob = c.fsFuncs(all)
			p, err := cp.Parse(fmt.Sprintf("/s%d/nginx.conf", i), s.po)
			if err == nil {
				if _, e := refCombine(configsOf(p, false)); e != nil {
					p = nil // too large to combine
				}
			} else {
				p = nil
			}
			out = append(out, p)
		}
		return out
	}
	// each operation with options and payloads of its own
	var want []string
	fresh := func(op Op) string {
		s := c.open()
		s.po.Open, s.po.Glob = c.fsFuncs(all)
		s.ps = parsed()
		return c.do(s, all, op)
	}
	for _, op := range c.Ops {
		plain := op
		if op.K == 7 {
			plain.K = 0
		}
		want = append(want, fresh(plain))
	}
	shared := c.open()
	shared.ps = parsed()
	shared.po.Open, shared.po.Glob = c.fsFuncs(all)
	po, bo := *shared.po, *shared.bo
	got := make([]string, len(c.Ops))
	if c.Par < 2 {
		for i, op := range c.Ops {
			got[i] = c.do(shared, all, op)
		}
	} else {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < c.Par; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for i := g; i < len(c.Ops); i += c.Par {
					got[i] = c.do(shared, all, c.Ops[i])
				}
			}(g)
		}
		close(start)
		wg.Wait()
	}
	for i := range want {
		if got[i] != want[i] {
			return fmt.Errorf("operation %d (%+v): %s", i, c.Ops[i], firstDiff(got[i], want[i]))
		}
	}
	// what failed leaves nothing behind
	for i, op := range c.Ops {
		if op.K == 5 || op.K == 6 {
			continue
		}
		if g := fresh(op); g != want[i] {
			return fmt.Errorf("operation %d (%+v), afterwards: %s", i, op, firstDiff(g, want[i]))
		}
	}
	// the options are as before
	a, b := reflect.ValueOf(po), reflect.ValueOf(*shared.po)
	if err := sameFields(a, b); err != nil {
		return fmt.Errorf("parse options: %w", err)
	}
	if err := sameFields(reflect.ValueOf(bo), reflect.ValueOf(*shared.bo)); err != nil {
		return fmt.Errorf("build options: %w", err)
	}
	if err := shared.given.check(c.O.parseOptions(nil).DirectiveSources); err != nil {
		return err
	}
	if err := sameTables(); err != nil {
		return err
	}
	o.LabelIf(len(c.O.Sources)+len(c.O.Tables) > 1, "several sources")
	for _, op := range c.Ops {
		o.Label([]string{"parse", "parse and build", "lex", "build into strings", "combine", "write fails", "read fails", "nested"}[op.K])
	}
	o.LabelIf(c.Lua, "extensions")
	o.LabelIf(c.Par > 1, "concurrent")
	o.LabelIf(c.Def > 0, "default functions")
	o.NonTrivial(len(c.Ops) > 1)
	return nil
}

// sameFields compares the exported fields of two structures.
func sameFields(a, b reflect.Value) error {
	for i := 0; i < a.NumField(); i++ {
		f := a.Type().Field(i)
		if !f.IsExported() {
			continue
		}
		x, y := a.Field(i), b.Field(i)
		switch x.Kind() {
		case reflect.Func:
			if x.Pointer() != y.Pointer() {
				return fmt.Errorf("%s is changed", f.Name)
			}
		case reflect.Slice:
			if x.Len() != y.Len() || x.Pointer() != y.Pointer() {
				return fmt.Errorf("%s is changed", f.Name)
			}
		case reflect.Struct:
			if err := sameFields(x, y); err != nil {
				return err
			}
		default:
			if x.Interface() != y.Interface() {
				return fmt.Errorf("%s is changed", f.Name)
			}
		}
	}
	return nil
}

var errBroken = errors.New("broken")

// shortWriter fails after n bytes.
type shortWriter struct {
	w io.Writer
	n int
}

func (w *shortWriter) Write(b []byte) (int, error) {
	if len(b) > w.n {
		k, _ := w.w.Write(b[:w.n])
		w.n = 0
		return k, errBroken
	}
	w.n -= len(b)
	return w.w.Write(b)
}

type failingReader struct{}

func (failingReader) Read([]byte) (int, error) { return 0, errBroken }

func genHistory(t *rapid.T, ops, par int) historyCase {
	c := historyCase{O: includeOpts(t), F: genFmt(t), Lua: chance(t, 50)}
	c.O.Comments = chance(t, 50)
	if chance(t, 40) {
		for n := intn(t, 1, 3); n > 0; n-- {
			c.O.Sources = append(c.O.Sources, oneOf(t, sourceNames))
		}
	}
	if chance(t, 30) {
		tab := map[string][]uint{}
		for n := intn(t, 1, 6); n > 0; n-- {
			tab[oneOf(t, ignorable)] = []uint{genMask(t), genMask(t)}
		}
		c.O.Tables = append(c.O.Tables, tab, tab)
	}
	for n := intn(t, 1, 3); n > 0; n-- {
		c.Files = append(c.Files, genAnyFiles(t).Files)
	}
	if c.F.Indent > 16 || c.F.Indent < 0 {
		c.F.Indent = 1
	}
	for n := intn(t, 2, ops); n > 0; n-- {
		c.Ops = append(c.Ops, Op{K: intn(t, 0, 7), F: intn(t, 0, 2)})
		if op := &c.Ops[len(c.Ops)-1]; op.K == 5 || op.K == 6 {
			op.N = []int{0, 1, 10, 30, 100, 1000}[intn(t, 0, 5)]
		}
	}
	c.Par = par
	c.Def = pick(t, 75, 20, 5)
	return c
}

func init() {
	Register(Check{Prop: "C16", Name: "delivery", Quick: 16000,
		Rule: "files parsed and lexed with readers that hand out chunks of any size and with any channel capacity, against reading at once; non-trivial: more than 10 bytes"},
		func(t *rapid.T) deliveryCase {
			c := deliveryCase{C: genAnyFiles(t)}
			for n := intn(t, 1, 4); n > 0; n-- {
				c.D = append(c.D, genDelivery(t))
			}
			return c
		}, runDelivery)
	Register(Check{Prop: "C16", Name: "history", Quick: 8000,
		Rule: "sequences of 2-12 parses, builds, lexes and combinations that share options and payloads, each compared with the same operation on its own; non-trivial: at least 2 operations"},
		func(t *rapid.T) historyCase { return genHistory(t, 12, 0) }, runHistory)
	Register(Check{Prop: "C16", Name: "concurrent", Quick: 2400, Race: true,
		Rule: "the same by 2-6 goroutines at once, under the race detector; non-trivial: at least 2 operations"},
		func(t *rapid.T) historyCase { return genHistory(t, 16, intn(t, 2, 6)) }, runHistory)
}
