package main

import (
	"fmt"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

// VStmt is a statement to validate.
type VStmt struct {
	N    Word
	A    []Word `json:",omitempty"`
	Term string
}

// validCase is a block with statements, inside other blocks.
type validCase struct {
	Ctx   []Word
	Stmts []VStmt
	O     Opts
}

func (c validCase) text() string {
	var sb strings.Builder
	for _, b := range c.Ctx {
		sb.WriteString(b.S)
		if b.V == "if" {
			sb.WriteString(" ($x)")
		}
		sb.WriteString(" {\n")
	}
	open := len(c.Ctx)
	for _, s := range c.Stmts {
		sb.WriteString(s.N.S)
		for _, a := range s.A {
			sb.WriteString(" " + a.S)
		}
		switch s.Term {
		case ";":
			sb.WriteString(";\n")
		case "{":
			sb.WriteString(" { a; if b { c; } }\n")
		default:
			if open > 0 {
				sb.WriteString("\n}\n")
				open--
			} else {
				sb.WriteString(";\n")
			}
		}
	}
	sb.WriteString(strings.Repeat("}\n", open))
	return sb.String()
}

var validCtxs = func() [][]string {
	out := [][]string{}
	for _, k := range sortedKeys(ctxBits) {
		if k == "" {
			out = append(out, nil)
		} else {
			out = append(out, strings.Split(k, ">"))
		}
	}
	return append(out, [][]string{
		{"http", "server", "location"}, {"http", "server", "location", "if"}, {"http", "location", "location"}, {"http", "server", "location", "location", "limit_except"},
		{"http", "server", "if", "location"}, {"http", "server", "if", "if"}, {"http", "if"}, {"server"}, {"location"}, {"upstream"}, {"if"}, {"stream", "location"}, {"stream", "if"},
		{"http", "http"}, {"x"}, {"http", "x"}, {"http", "x", "location"}, {"http", "server", "x"}, {"http", "server", "server"}, {"http", "server", "if", "x"}, {"http>server"}, {"http", "server>if"},
		{"mail", "http"}, {"events", "events"}, {"http", "server", "location", "if", "location", "if"}, {"mgmt", "server"}, {"stream", "server", "if"}, {"http", "oidc_provider", "x"},
		{"http>location", "if"}, {"http", "upstream", "location"}, {"http", "limit_except"}, {"mail", "server", "server"}, {"main"}, {"http ", "server"}, {"HTTP"}, {"", "http"}, {"http", ""},
	}...)
}()

var validArgs = []string{
	"a", "b", "on", "off", "ON", "Off", "oN", "onn", "of", "(", ")", "()", "(a)", "(a", "a)", "((", "))", "($x", "=", "b)", "(\"", "$x", "yes", "0", "é", "(é", "é)", "ﬀ", "oﬀ", "ON ", "on\u0130",
}

func genVArgs(t *rapid.T) []Word {
	n := intn(t, 0, 3)
	switch {
	case chance(t, 25):
		n = intn(t, 3, 9)
	case chance(t, 3):
		n = oneInt(t, []int{15, 31, 32, 33, 63, 64, 65, 71, 100})
	}
	var out []Word
	for i := 0; i < n; i++ {
		v := oneOf(t, validArgs)
		if chance(t, 12) {
			v = oneOf(t, []string{"", "a b", "x;", "( a )", "{", "}", ";", "#"})
		}
		out = append(out, spell(t, v))
	}
	if n > 0 && chance(t, 30) {
		out[0] = spell(t, oneOf(t, []string{"(", "(a", "($x", "(\"", "()"}))
		out[n-1] = spell(t, oneOf(t, []string{")", "b)", "1)", "()"}))
	}
	return out
}

func genTerm(t *rapid.T) string { return []string{";", "{", "}"}[pick(t, 60, 35, 5)] }

func ctxWords(t *rapid.T) []Word {
	var out []Word
	for _, c := range validCtxs[intn(t, 0, len(validCtxs)-1)] {
		out = append(out, spell(t, c))
	}
	return out
}

// aim draws arguments and an end that a definition allows, or nearly.
func aim(t *rapid.T, m uint) ([]Word, string) {
	var counts []int
	for i := 0; i <= 7; i++ {
		if m&(1<<uint(i)) != 0 {
			counts = append(counts, i)
		}
	}
	if m&bitFlag != 0 {
		counts = append(counts, 1)
	}
	if m&bitAny != 0 {
		counts = append(counts, 0, 1, 8, 9)
	}
	if m&bit1More != 0 {
		counts = append(counts, 1, 8, 12)
	}
	if m&bit2More != 0 {
		counts = append(counts, 2, 8, 12)
	}
	if len(counts) == 0 {
		counts = []int{0}
	}
	n := oneInt(t, counts)
	if chance(t, 20) {
		n += intn(t, -1, 1)
	}
	var out []Word
	for i := 0; i < n; i++ {
		out = append(out, spell(t, oneOf(t, validArgs)))
	}
	if n == 1 && m&bitFlag != 0 && chance(t, 80) {
		out[0] = spell(t, oneOf(t, []string{"on", "off", "ON", "Off", "oN", "oFF", "of", "onn", "", "true"}))
	}
	if n > 0 && m&bitExpr != 0 && chance(t, 80) {
		out[0], out[n-1] = spell(t, "(a"), spell(t, "b)")
		if n == 1 {
			out[0] = spell(t, "(a)")
		}
	}
	term := ";"
	if (m&bitBlock != 0) != chance(t, 10) {
		term = "{"
	}
	return out, term
}

func runValid(c validCase, o *Obs) error {
	text := c.text()
	fs := FS{mainFile: text}
	want := refParse(fs, mainFile, c.O)
	p, err := cp.Parse(mainFile, c.O.parseOptions(fs))
	if e := diffPayload(p, err, want); e != nil {
		return fmt.Errorf("text %q: %w", clip(text, 1500), e)
	}
	for _, e := range want.errs() {
		w := e.Whats[0]
		if i := strings.IndexByte(w, '"'); i >= 0 {
			j := strings.LastIndexByte(w, '"')
			w = w[:i] + "..." + w[j+1:]
		}
		o.Label(w)
	}
	var ctx []string
	for _, b := range c.Ctx {
		ctx = enterCtx(ctx, b.V)
	}
	_, knownCtx := ctxBit(ctx)
	o.LabelIf(!knownCtx, "unknown context")
	for _, s := range c.Stmts {
		masks, known := c.O.masks(s.N.V)
		o.LabelIf(known && knownCtx && len(want.errs()) == 0 && want.Fatal == nil, "accepted")
		o.LabelIf(len(masks) > 1, "several definitions")
		o.LabelIf(len(s.A) > 7, "args>7")
		o.NonTrivial(known && knownCtx)
	}
	return nil
}

func init() {
	Register(Check{Prop: "C06", Name: "masks", Quick: 150000,
		Rule: "statements x block contexts x random definitions from 1-3 sources x strictness options, against the reference validator; non-trivial: context and directive are known"},
		func(t *rapid.T) validCase {
			c := validCase{Ctx: ctxWords(t)}
			c.O = Opts{Single: true, Comments: chance(t, 20), SkipCtx: chance(t, 25), SkipArgs: chance(t, 25), ErrUnknown: chance(t, 25), Stop: chance(t, 20)}
			names := []string{"x", "y", "server", "if", "location", "include", "http", "X", "#", "a b", "x_foo", "limit_except"}
			// a source that accepts the enclosing blocks
			if len(c.Ctx) > 0 && chance(t, 90) {
				tab := map[string][]uint{}
				for _, b := range c.Ctx {
					tab[b.V] = []uint{0x1ffff0000 | bitBlock | bitAny}
				}
				c.O.Tables = append(c.O.Tables, tab)
			}
			for n := intn(t, 1, 3); n > 0; n-- {
				tab := map[string][]uint{}
				for k := intn(t, 0, 3); k > 0; k-- {
					var ms []uint
					for j := intn(t, 1, 3); j > 0; j-- {
						ms = append(ms, genMask(t))
					}
					tab[oneOf(t, names[:intn(t, 1, len(names))])] = ms
				}
				c.O.Tables = append(c.O.Tables, tab)
			}
			var ctx []string
			for _, b := range c.Ctx {
				ctx = enterCtx(ctx, b.V)
			}
			if bit, ok := ctxBit(ctx); ok && chance(t, 70) {
				// a definition for this very context
				tab := c.O.Tables[len(c.O.Tables)-1]
				for _, n := range sortedKeys(tab) {
					for i := range tab[n] {
						if chance(t, 60) {
							tab[n][i] |= bit
						}
					}
				}
			}
			for n := intn(t, 1, 3); n > 0; n-- {
				s := VStmt{A: genVArgs(t), Term: genTerm(t)}
				tab := c.O.Tables[intn(t, 0, len(c.O.Tables)-1)]
				if ks := sortedKeys(tab); len(ks) > 0 && chance(t, 75) {
					s.N = spell(t, oneOf(t, ks))
				} else {
					s.N = spell(t, oneOf(t, names))
				}
				if s.N.V == "a" || s.N.V == "" {
					s.N = bare("x")
				}
				if ms, _ := c.O.masks(s.N.V); len(ms) > 0 && chance(t, 60) {
					s.A, s.Term = aim(t, ms[intn(t, 0, len(ms)-1)])
				}
				c.Stmts = append(c.Stmts, s)
			}
			return c
		}, runValid)
	Register(Check{Prop: "C06", Name: "tables", Quick: 80000,
		Rule: "statements with names from the built-in tables x contexts x 0-3 built-in sources x strictness options, against the reference validator over the same definitions; non-trivial: context and directive are known"},
		func(t *rapid.T) validCase {
			c := validCase{Ctx: ctxWords(t)}
			c.O = Opts{Single: true, SkipCtx: chance(t, 15), SkipArgs: chance(t, 15), ErrUnknown: chance(t, 25), Stop: chance(t, 10)}
			if chance(t, 70) {
				for n := intn(t, 1, 3); n > 0; n-- {
					c.O.Sources = append(c.O.Sources, oneOf(t, sourceNames))
				}
			}
			name := oneOf(t, definedNames)
			masks, _ := c.O.masks(name)
			var mask uint
			if len(masks) > 0 {
				mask = masks[intn(t, 0, len(masks)-1)]
				var fit [][]string
				for _, k := range sortedKeys(ctxBits) {
					if mask&ctxBits[k] != 0 {
						fit = append(fit, strings.Split(k, ">"))
					}
				}
				if len(fit) > 0 && chance(t, 75) {
					c.Ctx = nil
					for _, b := range fit[intn(t, 0, len(fit)-1)] {
						if b != "" {
							c.Ctx = append(c.Ctx, bare(b))
						}
					}
				}
			}
			if len(c.Ctx) > 0 && (c.O.Sources != nil || chance(t, 30)) {
				tab := map[string][]uint{}
				for _, b := range c.Ctx {
					tab[b.V] = []uint{0x1ffff0000 | bitBlock | bitAny}
				}
				c.O.Tables = append(c.O.Tables, tab)
			}
			for n := intn(t, 1, 4); n > 0; n-- {
				s := VStmt{A: genVArgs(t), Term: genTerm(t)}
				s.N = bare(name)
				if len(masks) > 0 && chance(t, 70) {
					s.A, s.Term = aim(t, mask)
				} else if chance(t, 30) {
					s.N = bare(oneOf(t, definedNames))
				}
				c.Stmts = append(c.Stmts, s)
			}
			return c
		}, runValid)
}
