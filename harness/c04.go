package main

import (
	"fmt"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

// DN is a directive as a program makes it, in a form that does not depend on the library's JSON.
type DN struct {
	N    string
	A    []string `json:",omitempty"`
	L    int      `json:",omitempty"`
	B    []DN     `json:",omitempty"`
	K    bool     `json:",omitempty"` // has a block
	C    *string  `json:",omitempty"`
	M    bool     `json:",omitempty"`
	I    []int    `json:",omitempty"`
	HasI bool     `json:",omitempty"` // a resolved include, perhaps of nothing
	F    string   `json:",omitempty"`
	D    int      `json:",omitempty"` // nested in itself this many more times
}

func toDirs(ns []DN) cp.Directives {
	out := cp.Directives{}
	for _, n := range ns {
		out = append(out, n.dir(n.D))
	}
	return out
}

func (n DN) dir(d int) *cp.Directive {
	x := &cp.Directive{Directive: n.N, Line: n.L, Args: append([]string{}, n.A...), File: n.F, IsMapBlockParameter: n.M}
	if n.I != nil || n.HasI {
		x.Includes = append([]int{}, n.I...)
	}
	if n.C != nil {
		c := *n.C
		x.Comment = &c
	}
	if n.K {
		if d > 0 {
			x.Block = cp.Directives{n.dir(d - 1)}
		} else {
			x.Block = toDirs(n.B)
		}
	}
	return x
}

var hostileSegs = append(append([]string{}, quotedSegs...),
	"\r", "\x00", "\r\n", "\\", "\\\\", "\\\"", "\\'", "\"", "'", "\\\r", "\\\n", "${a}", "${a b}", "$a", "$", "{", "}", ";", "#", "()", "\v", "\f", "\u0085", "\u00a0",
	"\u2028", "\u3000", "\ufeff", "\ufffd", "\U0001f600", "%", "&lt;", "on", "_by_lua_block", "include", "if (", ") {", "*/", "default")

// hostile draws any string, made to be hard to quote.
func hostile(t *rapid.T) string {
	switch pick(t, 25, 60, 15) {
	case 0:
		return oneOf(t, plainWords)
	case 1:
		n := intn(t, 0, 6)
		if chance(t, 2) {
			n = intn(t, 30, 200)
		}
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteString(oneOf(t, hostileSegs))
		}
		return sb.String()
	default:
		return strings.ToValidUTF8(rapid.StringN(0, 8, -1).Draw(t, "s"), "?")
	}
}

func commentText(t *rapid.T) string {
	if chance(t, 50) {
		return genCommentText(t)
	}
	s := strings.NewReplacer("\n", "", "\r", "").Replace(hostile(t))
	return strings.TrimRight(s, "\\")
}

type dnGen struct {
	budget int
	lines  int // 0: all zero, 1: increasing, 2: random
	line   int
}

func (g *dnGen) nextLine(t *rapid.T) int {
	switch g.lines {
	case 0:
		return 0
	case 1:
		g.line += intn(t, 0, 2)
		return g.line
	default:
		return intn(t, 0, 5)
	}
}

func (g *dnGen) block(t *rapid.T, kind string, depth int) []DN {
	max := 5
	if depth > 3 {
		max = 2
	}
	var out []DN
	for n := intn(t, 0, max); n > 0 && g.budget > 0; n-- {
		g.budget--
		d := DN{L: g.nextLine(t)}
		switch {
		case chance(t, 12):
			c := commentText(t)
			d.N, d.C = "#", &c
		case kind != "":
			d.N, d.M = hostile(t), true
			if chance(t, 40) {
				d.N = oneOf(t, []string{"default", "if", "include", "hostnames", "volatile", "ranges", "auto_reload", "map", "#", "text/html"})
			}
			min, max := mapRule(kind, d.N)
			k := min
			if max < 0 {
				k = intn(t, min, min+3)
			}
			for ; k > 0; k-- {
				d.A = append(d.A, hostile(t))
			}
		default:
			d.N = hostile(t)
			if chance(t, 40) {
				d.N = oneOf(t, []string{"server", "location", "if", "if", "include", "http", "listen", "content_by_lua_block", "return"})
			}
			for k := intn(t, 0, 4); k > 0; k-- {
				d.A = append(d.A, hostile(t))
			}
			if chance(t, 3) {
				for k := intn(t, 8, 15); k > 0; k-- {
					d.A = append(d.A, hostile(t))
				}
			}
			if chance(t, 40) {
				d.K = true
				if chance(t, 20) {
					d.N = oneOf(t, mapKinds)
				}
				if contains(mapKinds, d.N) {
					d.B = g.block(t, d.N, depth+1)
				} else {
					if chance(t, 4) {
						d.D = intn(t, 5, 60)
						if chance(t, 30) {
							d.D = intn(t, 90, 240)
						}
					}
					d.B = g.block(t, "", depth+1)
				}
			}
		}
		out = append(out, d)
	}
	return out
}

func genDNs(t *rapid.T) []DN {
	g := &dnGen{budget: 25, lines: intn(t, 0, 2)}
	return g.block(t, "", 0)
}

type treeCase struct {
	Tree   []DN
	F1, F2 Fmt
}

// noTable matches no directive, so that nothing is validated.
var noTable = Opts{Comments: true, Single: true, Tables: []map[string][]uint{{}}}

func marginOf(f Fmt, depth int) string {
	if f.Tabs {
		return strings.Repeat("\t", depth)
	}
	if f.Indent <= 0 {
		f.Indent = 4
	}
	return strings.Repeat(" ", f.Indent*depth)
}

// checkLayout checks that every statement starts a line of its own, indented as deep as it is nested.
func checkLayout(text string, f Fmt) error {
	lines := strings.Split(text, "\n")
	depth, start, last, end := 0, true, 0, 0
	for _, k := range refLex(text) {
		if k.Err != "" {
			return fmt.Errorf("line %d: %s", k.Line, k.Err)
		}
		if k.comment() {
			if k.Line != end && k.Line != 1 && !strings.HasPrefix(lines[k.Line-1], marginOf(f, depth)+"#") {
				return fmt.Errorf("line %d: %q is not a comment indented by %d levels", k.Line, clip(lines[k.Line-1], 200), depth)
			}
			end = k.Line
			continue
		}
		end = k.Line + strings.Count(k.Val, "\n")
		if k.punct() && k.Val == "}" {
			depth--
			if lines[k.Line-1] != marginOf(f, depth)+"}" {
				return fmt.Errorf("line %d: %q is not a closing brace indented by %d levels", k.Line, clip(lines[k.Line-1], 200), depth)
			}
			start = true
			continue
		}
		if start {
			if k.Line == last {
				return fmt.Errorf("line %d: second statement on the line", k.Line)
			}
			last = k.Line
			l, m := lines[k.Line-1], marginOf(f, depth)
			if !strings.HasPrefix(l, m) || len(l) == len(m) || l[len(m)] == ' ' || l[len(m)] == '\t' {
				return fmt.Errorf("line %d: %q is not indented by %d levels", k.Line, clip(l, 200), depth)
			}
			start = false
		}
		if k.punct() {
			start = true
			if k.Val == "{" {
				depth++
			}
		}
	}
	return nil
}

func trimLines(s string) string {
	lines := strings.Split(s, "\n")
	for i := range lines {
		lines[i] = strings.TrimLeft(lines[i], " \t")
	}
	return strings.Join(lines, "\n")
}

func runTree(c treeCase, o *Obs) error {
	tree := toDirs(c.Tree)
	c.F1, c.F2 = c.F1.limit(tree), c.F2.limit(tree)
	keep := copyDirs(tree)
	conf := cp.Config{File: "x", Parsed: tree}
	f1 := c.F1
	f1.Header = false
	text, err := buildText(conf, f1.options())
	if err != nil {
		return fmt.Errorf("build: %w", err)
	}
	if err := diffDirs(tree, keep, cmpOpt{}); err != nil {
		return fmt.Errorf("building changed the tree: %w", err)
	}
	want := mergeComments(tree)
	walkDirs(want, 0, func(d *cp.Directive, _ int) { d.Includes, d.File = nil, "" })
	opt := cmpOpt{noLine: true, sameArg: true}
	p, err := parseText(text, noTable)
	if err != nil {
		return fmt.Errorf("built %q: parse: %w", clip(text, 2000), err)
	}
	if len(p.Errors) > 0 {
		return fmt.Errorf("built %q: %v", clip(text, 2000), p.Errors[0].Error)
	}
	if err := diffDirs(p.Config[0].Parsed, want, opt); err != nil {
		return fmt.Errorf("built %q: %w", clip(text, 2000), err)
	}
	const name = "/x"
	ref := refParse(FS{name: text}, name, noTable)
	if ref.Fatal != nil || len(ref.errs()) > 0 {
		return fmt.Errorf("built %q: reference parser: %v", clip(text, 2000), ref.errs())
	}
	if err := diffDirs(ref.Configs[0].Parsed, want, opt); err != nil {
		return fmt.Errorf("built %q: reference parser: %w", clip(text, 2000), err)
	}
	if err := checkLayout(text, f1); err != nil {
		return fmt.Errorf("built %q: %w", clip(text, 2000), err)
	}
	// another format changes white space only
	f2 := c.F2
	f2.Header = false
	text2, err := buildText(conf, f2.options())
	if err != nil {
		return fmt.Errorf("build: %w", err)
	}
	if trimLines(text) != trimLines(text2) {
		return fmt.Errorf("formats %+v and %+v differ in more than indentation: %q and %q", f1, f2, clip(text, 1000), clip(text2, 1000))
	}
	// the header comes before it
	f2.Header = true
	text3, err := buildText(conf, f2.options())
	if err != nil {
		return fmt.Errorf("build: %w", err)
	}
	if !strings.HasSuffix(text3, text2) {
		return fmt.Errorf("with the header %q, without %q", clip(text3, 1000), clip(text2, 1000))
	}
	head := text3[:len(text3)-len(text2)]
	if head == "" || !strings.HasSuffix(head, "\n") {
		return fmt.Errorf("header %q", head)
	}
	for _, l := range strings.Split(head, "\n") {
		if l != "" && l[0] != '#' {
			return fmt.Errorf("header line %q is not a comment", l)
		}
	}
	if empty, err := buildText(cp.Config{}, f2.options()); err != nil || !strings.HasPrefix(empty, head) {
		return fmt.Errorf("header %q depends on the configuration (%q, %v)", head, empty, err)
	}

	n, depth := countDirs(tree)
	special := false
	walkDirs(tree, 1, func(d *cp.Directive, _ int) {
		for _, a := range append([]string{d.Directive}, d.Args...) {
			special = special || d.Comment == nil && (a == "" || strings.ContainsAny(a, " \t\n\r{};\"'#\\$"))
		}
		o.LabelIf(d.Directive == "if" && !d.IsMapBlockParameter, "if")
		o.LabelIf(d.IsMapBlockParameter, "map entry")
		o.LabelIf(d.IsComment(), "comment")
		o.LabelIf(d.Block != nil && len(d.Block) == 0, "empty block")
	})
	o.LabelIf(special, "special characters")
	o.LabelIf(depth > 12, "depth>12")
	o.LabelIf(depth > 100, "depth>100")
	o.LabelIf(f1.Indent*depth >= 100, "indentation>=100")
	o.LabelIf(f1.Tabs, "tabs")
	o.NonTrivial(n >= 2 && (special || depth > 1))
	return nil
}

type stringCase struct{ S []string }

func init() {
	Register(Check{Prop: "C04", Name: "tree", Quick: 40000,
		Rule: "directive tree of arbitrary Unicode strings x two formats; non-trivial: at least 2 statements and a special character or a block"},
		func(t *rapid.T) treeCase {
			return treeCase{Tree: genDNs(t), F1: genFmt(t), F2: genFmt(t)}
		}, runTree)
	Register(Check{Prop: "C04", Name: "quote", Quick: 120000,
		Rule: "arbitrary strings quoted by Enquote between other words; non-trivial: a string is empty or has special characters"},
		func(t *rapid.T) stringCase {
			var c stringCase
			for n := intn(t, 1, 3); n > 0; n-- {
				c.S = append(c.S, hostile(t))
			}
			return c
		},
		func(c stringCase, o *Obs) error {
			text := ""
			var want []Tok
			for _, s := range c.S {
				o.NonTrivial(s == "" || strings.ContainsAny(s, " \t\n\r{};\"'#\\$"))
				text += cp.Enquote(s) + " z "
				want = append(want, Tok{Val: s}, Tok{Val: "z"})
			}
			text += ";"
			want = append(want, Tok{Val: ";"})
			for k, got := range [][]Tok{lexAll(text), refLex(text)} {
				if len(got) != len(want) {
					return fmt.Errorf("quoted as %q: %d tokens %v, want %d (lexer %d)", text, len(got), got, len(want), k)
				}
				for i := range got {
					if got[i].Err != "" || !sameArg(got[i].Val, want[i].Val) || got[i].punct() != (i == len(want)-1) || got[i].comment() {
						return fmt.Errorf("quoted as %q: token %s, want %q (lexer %d)", text, got[i], want[i].Val, k)
					}
				}
			}
			return nil
		})
}
