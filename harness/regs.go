package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"sync"
	"sync/atomic"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

// Registrations are those of the options they are in, and of no others in the process.  Whatever a process keeps of
// them by the names of directives is seen because each run uses names that the process has not had before.

// RegSess is what one user of the library registers, by the numbers of names.
type RegSess struct {
	Lex, Lex2 []int           `json:",omitempty"` // for two external lexers
	Bld, Bld2 []int           `json:",omitempty"` // for two external builders
	Masks     map[string]uint `json:",omitempty"` // definitions of names
	Ignore    []int           `json:",omitempty"`
	Lua       bool            `json:",omitempty"`
	O         Opts
	F         Fmt
	Own       bool `json:",omitempty"` // options of its own for each use, or options that are shared by its uses
}

// RegOp is a use of the library by one of them.
type RegOp struct{ S, K int }

type regCase struct {
	Text string // names are written @0 to @3
	B    string // of a file that may be included
	S    []RegSess
	Ops  []RegOp
	Par  int `json:",omitempty"`
}

var freshNames atomic.Int64

type regNames struct{ from, to *strings.Replacer }

const regCount = 4

func newRegNames() regNames {
	var f, t []string
	for i := 0; i < regCount; i++ {
		n := fmt.Sprintf("u%09dz", freshNames.Add(1))
		f = append(f, fmt.Sprintf("@%d", i), n)
		t = append(t, n, fmt.Sprintf("@%d", i))
	}
	return regNames{strings.NewReplacer(f...), strings.NewReplacer(t...)}
}

func (n regNames) name(i int) string { return n.from.Replace(fmt.Sprintf("@%d", i)) }

func (n regNames) all(is []int) []string {
	var out []string
	for _, i := range is {
		out = append(out, n.name(i))
	}
	return out
}

type regLexer string

func (l regLexer) Lex(s *cp.SubScanner, name string) <-chan cp.NgxToken {
	ch := make(chan cp.NgxToken)
	go func() {
		defer close(ch)
		var sb strings.Builder
		for s.Scan() && s.Text() != ";" {
			sb.WriteString(s.Text())
		}
		ch <- cp.NgxToken{Value: string(l) + name + ":" + sb.String(), Line: s.Line()}
		ch <- cp.NgxToken{Value: ";", Line: s.Line()}
	}()
	return ch
}

type regBuilder string

func (b regBuilder) Build(d *cp.Directive) string {
	return fmt.Sprintf("%s %s %d", string(b), d.Directive, len(d.Args))
}

type regUse struct {
	po *cp.ParseOptions
	bo *cp.BuildOptions
}

// open gives options of a session.
func (s RegSess) open(n regNames, fs FS) regUse {
	o := s.O
	o.Single = false
	po := o.parseOptions(fs)
	po.Glob = nil
	for _, i := range s.Ignore {
		po.IgnoreDirectives = append(po.IgnoreDirectives, n.name(i))
	}
	if len(s.Masks) > 0 {
		m := map[string][]uint{}
		for k, v := range s.Masks {
			m[n.from.Replace(k)] = []uint{v}
		}
		po.DirectiveSources = append(po.DirectiveSources, cp.DefaultDirectivesMatchFunc, func(d string) ([]uint, bool) {
			v, ok := m[d]
			return v, ok
		})
	}
	bo := s.F.options()
	if s.Lua {
		l := &cp.Lua{}
		po.LexOptions.Lexers = append(po.LexOptions.Lexers, l.RegisterLexer())
		bo.Builders = append(bo.Builders, l.RegisterBuilder())
	}
	for i, is := range [][]int{s.Lex, s.Lex2} {
		if len(is) > 0 {
			po.LexOptions.Lexers = append(po.LexOptions.Lexers, cp.LexWithLexer(regLexer([]string{"L", "M"}[i]), n.all(is)...))
		}
	}
	for i, is := range [][]int{s.Bld, s.Bld2} {
		if len(is) > 0 {
			bo.Builders = append(bo.Builders, cp.BuildWithBuilder(regBuilder([]string{"B", "C"}[i]), n.all(is)...))
		}
	}
	return regUse{po, bo}
}

func (c regCase) files(n regNames) FS {
	return FS{mainFile: n.from.Replace(c.Text), confDir + "/b.conf": n.from.Replace(c.B)}
}

// do uses the library, and gives what comes out with the numbers of names.
func (u regUse) do(k int, n regNames, fs FS) string {
	switch k {
	case 0:
		return n.to.Replace(outcome(cp.Parse(mainFile, u.po)))
	case 1:
		return n.to.Replace(lexOutcome(cp.LexWithOptions(strings.NewReader(fs[mainFile]), u.po.LexOptions)))
	case 2:
		p, err := cp.Parse(mainFile, u.po)
		if err != nil {
			return n.to.Replace(outcome(p, err))
		}
		sc := &cp.StringsCreator{}
		if err := cp.BuildInto(p, sc, u.bo); err != nil {
			return err.Error()
		}
		out := ""
		for _, f := range sc.Files {
			out += f.Name + "\n" + f.String() + "\n"
		}
		return n.to.Replace(out)
	case 4:
		// into files of a directory of its own
		p, err := cp.Parse(mainFile, u.po)
		if err != nil {
			return n.to.Replace(outcome(p, err))
		}
		dir := scratchDir()
		defer os.RemoveAll(dir)
		q := cp.Payload{}
		for i := range p.Config {
			q.Config = append(q.Config, cp.Config{File: fmt.Sprintf("d%d/f.conf", i), Parsed: p.Config[i].Parsed})
		}
		if err := cp.BuildFiles(q, dir, u.bo); err != nil {
			return "cannot be built into files"
		}
		out := ""
		for i := range q.Config {
			b, err := os.ReadFile(fmt.Sprintf("%s/d%d/f.conf", dir, i))
			out += fmt.Sprintf("%s %v\n", b, err != nil)
		}
		return n.to.Replace(out)
	default: // 3
		// a tree that nobody parsed
		k := cp.Config{File: "x"}
		for i := 0; i < regCount; i++ {
			k.Parsed = append(k.Parsed, &cp.Directive{Directive: n.name(i), Args: []string{"a", "b c"}},
				&cp.Directive{Directive: "x", Args: []string{n.name(i)}, Block: cp.Directives{{Directive: n.name(i)}}})
		}
		var b bytes.Buffer
		err := cp.Build(&b, k, u.bo)
		return n.to.Replace(fmt.Sprint(b.String(), err))
	}
}

func runRegs(c regCase, o *Obs) error {
	if len(c.S) == 0 {
		return nil
	}
	alone := func(op RegOp) string {
		n := newRegNames()
		fs := c.files(n)
		return c.S[op.S%len(c.S)].open(n, fs).do(op.K, n, fs)
	}
	var want []string
	for _, op := range c.Ops {
		want = append(want, alone(op))
	}
	// all of them, with the same names
	n := newRegNames()
	fs := c.files(n)
	shared := make([]regUse, len(c.S))
	for i, s := range c.S {
		shared[i] = s.open(n, fs)
	}
	got := make([]string, len(c.Ops))
	one := func(i int) {
		s := c.Ops[i].S % len(c.S)
		u := shared[s]
		if c.S[s].Own {
			u = c.S[s].open(n, fs)
		}
		got[i] = u.do(c.Ops[i].K, n, fs)
	}
	if c.Par < 2 {
		for i := range c.Ops {
			one(i)
		}
	} else {
		var wg sync.WaitGroup
		for g := 0; g < c.Par; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := g; i < len(c.Ops); i += c.Par {
					one(i)
				}
			}(g)
		}
		wg.Wait()
	}
	for i, op := range c.Ops {
		if got[i] != want[i] {
			return fmt.Errorf("text %q, operation %d (%+v) among others: %s", c.Text, i, op, firstDiff(got[i], want[i]))
		}
		o.Label([]string{"parse", "lex", "parse and build", "build", "build into files"}[op.K])
	}
	differ := false
	for _, k := range []int{0, 3} {
		outs := map[string]bool{}
		for i := range c.S {
			outs[alone(RegOp{S: i, K: k})] = true
		}
		differ = differ || len(outs) > 1
	}
	o.LabelIf(c.Par > 1, "concurrent")
	o.LabelIf(differ, "registrations matter")
	o.NonTrivial(differ && len(c.Ops) > 1)
	return nil
}

func genRegs(t *rapid.T, par int) regCase {
	name := func() string { return fmt.Sprintf("@%d", intn(t, 0, regCount-1)) }
	var text func(depth int) string
	text = func(depth int) string {
		var sb strings.Builder
		for m := intn(t, 1, 4); m > 0; m-- {
			switch pick(t, 50, 15, 15, 10, 10) {
			case 0:
				sb.WriteString(name() + oneOf(t, []string{"", " ", " a", " a b", " 'c d'", " on", " " + name()}) + ";\n")
			case 1:
				sb.WriteString(oneOf(t, []string{"listen 80;", "x " + name() + ";", "gzip on;", "# " + name() + "\n", "set $a " + name() + ";"}))
			case 2:
				if depth < 3 {
					sb.WriteString(oneOf(t, []string{"http", "server", "location /", "x", name(), "map $a $b", "if ($a)"}) + " {\n" + text(depth+1) + "}\n")
				}
			case 3:
				if depth == 0 {
					sb.WriteString("include b.conf;\n")
				}
			case 4:
				sb.WriteString("content_by_lua_block { " + name() + " { } }\n")
			}
		}
		return sb.String()
	}
	c := regCase{Par: par}
	c.Text = text(0)
	if chance(t, 60) {
		c.Text = "http {\n" + c.Text + "}\n"
	}
	c.B = strings.ReplaceAll(text(0), "include b.conf;", "")
	some := func(p int) []int {
		var out []int
		for i := 0; i < regCount; i++ {
			if chance(t, p) {
				out = append(out, i)
			}
		}
		return out
	}
	for m := intn(t, 2, 4); m > 0; m-- {
		s := RegSess{F: genFmt(t), Lua: chance(t, 20), Own: chance(t, 50)}
		if chance(t, 60) {
			s.Lex = some(30)
		}
		if chance(t, 20) {
			s.Lex2 = some(30)
		}
		if chance(t, 60) {
			s.Bld = some(30)
		}
		if chance(t, 20) {
			s.Bld2 = some(30)
		}
		if chance(t, 30) {
			s.Ignore = some(30)
		}
		if chance(t, 50) {
			s.Masks = map[string]uint{}
			for _, i := range some(50) {
				s.Masks[fmt.Sprintf("@%d", i)] = oneOf2(t, []uint{0x1ffff0000 | bitAny, 0x1ffff0000 | 1, 0x1ffff0000 | 2, 0x1ffff0000 | bitAny | bitBlock, 1<<24 | bitAny, 1<<25 | bitAny})
			}
		}
		s.O = Opts{Comments: chance(t, 50), ErrUnknown: chance(t, 40), SkipCtx: chance(t, 20), SkipArgs: chance(t, 20), Stop: chance(t, 10)}
		c.S = append(c.S, s)
	}
	for m := intn(t, 2, 10); m > 0; m-- {
		c.Ops = append(c.Ops, RegOp{S: intn(t, 0, len(c.S)-1), K: oneInt(t, []int{0, 0, 1, 2, 2, 3, 4})})
	}
	return c
}

func oneOf2(t *rapid.T, l []uint) uint { return l[intn(t, 0, len(l)-1)] }

func init() {
	Register(Check{Prop: "C16", Name: "registrations", Quick: 12000,
		Rule: "2-4 users with lexers, builders, definitions and ignored directives of their own for the same names, taking turns, against each alone with names new to the process; non-trivial: the registrations make a difference"},
		func(t *rapid.T) regCase { return genRegs(t, 0) }, runRegs)
	Register(Check{Prop: "C16", Name: "registrations-concurrent", Quick: 1600, Race: true,
		Rule: "the same by 2-6 goroutines at once, under the race detector; non-trivial: the registrations make a difference"},
		func(t *rapid.T) regCase { return genRegs(t, intn(t, 2, 6)) }, runRegs)
}
