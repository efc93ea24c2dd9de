package main

import (
	"errors"
	"fmt"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

// luaNames are the directives of the Lua module that take a block of Lua code.
var luaNames = []string{
	"init_by_lua_block", "init_worker_by_lua_block", "exit_worker_by_lua_block", "set_by_lua_block", "content_by_lua_block",
	"server_rewrite_by_lua_block", "rewrite_by_lua_block", "access_by_lua_block", "header_filter_by_lua_block",
	"body_filter_by_lua_block", "log_by_lua_block", "balancer_by_lua_block", "ssl_client_hello_by_lua_block",
	"ssl_certificate_by_lua_block", "ssl_session_fetch_by_lua_block", "ssl_session_store_by_lua_block",
	"precontent_by_lua_block", "proxy_ssl_certificate_by_lua_block", "proxy_ssl_verify_by_lua_block",
}

var luaChars = []string{
	"a", " ", "{", "}", "{{", "}}", "'", "\"", "--", "-", "[[", "]]", "[", "]", "=", "[=[", "]=]", ";", "#", "$", "é", "日", "\n", "\r\n", "\t", "\\\\", "x = 1", "//", "`", "--[[", "]=", "]==]",
}

// luaString draws a string in quotes.
func luaString(t *rapid.T) string {
	q := oneOf(t, []string{"\"", "'"})
	s := q
	for n := intn(t, 0, 5); n > 0; n-- {
		c := oneOf(t, luaChars)
		switch {
		case c == q:
			c = "\\" + q
		case strings.HasSuffix(c, "\n"):
			c = "\\" + c
			if strings.HasSuffix(c, "\r\n") {
				c = "\\n"
			}
		case c == "\\\\" && chance(t, 50):
			c = oneOf(t, []string{"\\n", "\\\"", "\\'", "\\065", "\\z "})
		}
		s += c
	}
	return s + q
}

// luaLong draws a string or comment in long brackets.
func luaLong(t *rapid.T) string {
	eq := strings.Repeat("=", intn(t, 0, 3))
	body := ""
	for n := intn(t, 0, 6); n > 0; n-- {
		body += oneOf(t, luaChars)
	}
	for _, end := range []string{"]" + eq + "]"} {
		body = strings.ReplaceAll(body, end, "x")
	}
	// what is at its end must not close it early
	for strings.Contains((body + "]" + eq + "]")[:len(body)+len(eq)+1], "]"+eq+"]") {
		body = strings.ReplaceAll(body, "]", "x")
	}
	return "[" + eq + "[" + body + "]" + eq + "]"
}

func luaLine(t *rapid.T) string {
	s := "--"
	for n := intn(t, 0, 5); n > 0; n-- {
		s += strings.NewReplacer("\n", "", "\r", "").Replace(oneOf(t, luaChars))
	}
	// a comment that starts with a long bracket ends with it
	if strings.HasPrefix(s, "--[") {
		s = "-- " + s[2:]
	}
	return s + oneOf(t, []string{"\n", "\r\n", "\n\n"})
}

// luaCodeText draws Lua code in which braces are balanced.
func luaCodeText(t *rapid.T, depth int) string {
	var sb strings.Builder
	n := size(t, 5, 40)
	if depth > 2 {
		n = intn(t, 0, 3)
	}
	for ; n > 0; n-- {
		sb.WriteString(oneOf(t, []string{" ", "\n", "\t", ";", "\r\n", " ", "\n    ", "("}))
		switch pick(t, 30, 20, 15, 15, 10, 10) {
		case 0:
			sb.WriteString(oneOf(t, []string{
				"ngx.say", "x = 1", "return", "a - b", "a-1", "t[i]", "t[t[1]]", "#t", "a == b", "a ~= b", "function() end", "if x then y() end", "a..b", "é = 1", "1e-5", "x%2", "$x", ";",
				"::l::", "goto l", "a//b", "-x", "not x", "<", "t[ [==[k]==] ]", "f[[x]]", "f{x}", "f'x'", "f\"}\"", "\\", "ngx.var.x", "a[b]=c", "a[\"x{\"]=1", "[", "]", "a[=", "- -",
			}))
		case 1:
			sb.WriteString(luaString(t))
		case 2:
			sb.WriteString("{" + luaCodeText(t, depth+1) + "}")
		case 3:
			sb.WriteString(luaLong(t))
		case 4:
			sb.WriteString(luaLine(t))
		case 5:
			sb.WriteString("--" + luaLong(t))
		}
	}
	sb.WriteString(oneOf(t, []string{"", " ", "\n", "\r\n  ", "  ", "\t", "\n\t", "\v", "\f", "\n\n", "\u00a0", "\ufeff", "\x00", "\u2028", "\x1b", "\u200b", "\u0085"}))
	if chance(t, 3) {
		sb.WriteString(strings.Repeat(oneOf(t, []string{"x = 1\n", "y{} ", "-- {\n"}), intn(t, 100, 2000)))
	}
	return sb.String()
}

var luaSpace = []string{"", " ", "\n", "  \t", "\r\n  ", "\n\n"}

func luaNode(t *rapid.T) *Node {
	body := luaCodeText(t, 0)
	switch pick(t, 65, 20, 15) {
	case 1:
		body = strings.TrimLeft(body, " \t\r\n")
	case 2:
		body = oneOf(t, []string{"", "#t", "#", ";", "{}", "\"{\"", "'}'", "$x", "${", "--[[}]]", "[[}]]", "include", "\\", "#t\n", " #", "}"[:0], "]", "é", "\ufeff", "\x00", "a\ufeff", "\ufeffa", "\x00a", "\x7f", "\u2028"})
		if body == "${" {
			body += "}"
		}
	}
	n := &Node{N: bare(oneOf(t, luaNames)), Lua: &body}
	if chance(t, 5) {
		n.N = Word{S: "\"" + n.N.V + "\"", V: n.N.V, Q: true}
	}
	n.Pre = oneOf(t, []string{"\n", " ", "\n    ", "\r\n", ""})
	n.End = Gap{S: oneOf(t, luaSpace)}
	if n.N.V == "set_by_lua_block" {
		n.A = []Word{bare(oneOf(t, []string{"$x", "$res", "$é", "${y}", "$a_b"}))}
		n.G = []Gap{{S: oneOf(t, luaSpace[1:])}}
	}
	return n
}

// withLuaArgs puts names of Lua directives among the arguments.
func withLuaArgs(t *rapid.T, ns []*Node) {
	for _, n := range ns {
		flag := false
		masks, _ := cp.DefaultDirectivesMatchFunc(n.N.V)
		for _, m := range masks {
			flag = flag || m&bitFlag != 0
		}
		for i := range n.A {
			if !flag && !n.If && n.Lua == nil && chance(t, 6) {
				n.A[i] = bare(oneOf(t, luaNames))
				if chance(t, 30) {
					n.A[i] = Word{S: "'" + n.A[i].V + "'", V: n.A[i].V, Q: true}
				}
			}
		}
		withLuaArgs(t, n.B)
	}
}

func runLua(c confCase, o *Obs) error {
	r := c.Conf.render()
	c.O = Opts{Comments: true, Single: true, Lua: true}
	p, err := parseText(r.text, c.O)
	if err != nil {
		return fmt.Errorf("text %q: %w", clip(r.text, 2000), err)
	}
	if len(p.Errors) > 0 {
		return fmt.Errorf("text %q: %w", clip(r.text, 2000), p.Errors[0].Error)
	}
	if err := diffDirs(p.Config[0].Parsed, r.dirs, cmpOpt{}); err != nil {
		return fmt.Errorf("text %q: %w", clip(r.text, 2000), err)
	}
	// build it
	opts := &cp.BuildOptions{Builders: []cp.RegisterBuilder{(&cp.Lua{}).RegisterBuilder()}}
	b1, err := buildText(p.Config[0], opts)
	if err != nil {
		return fmt.Errorf("text %q: build: %w", clip(r.text, 2000), err)
	}
	rest := b1
	walkDirs(r.dirs, 0, func(d *cp.Directive, _ int) {
		if !contains(luaNames, d.Directive) || len(d.Args) == 0 || err != nil {
			return
		}
		s := "{" + d.Args[len(d.Args)-1] + "}"
		i := strings.Index(rest, s)
		if i < 0 {
			err = fmt.Errorf("text %q, built %q: the body %q is missing", clip(r.text, 2000), clip(b1, 2000), d.Args)
			return
		}
		rest = rest[i+len(s):]
	})
	if err != nil {
		return err
	}
	p2, err := parseText(b1, c.O)
	if err != nil {
		return fmt.Errorf("text %q, built %q: %w", clip(r.text, 2000), clip(b1, 2000), err)
	}
	if len(p2.Errors) > 0 {
		return fmt.Errorf("text %q, built %q: %w", clip(r.text, 2000), clip(b1, 2000), p2.Errors[0].Error)
	}
	if err := diffDirs(p2.Config[0].Parsed, mergeComments(r.dirs), cmpOpt{noLine: true, sameArg: true}); err != nil {
		return fmt.Errorf("text %q, built %q: %w", clip(r.text, 2000), clip(b1, 2000), err)
	}
	b2, err := buildText(p2.Config[0], opts)
	if err != nil || b2 != b1 {
		return fmt.Errorf("text %q, built %q, built again %q %v", clip(r.text, 2000), clip(b1, 2000), clip(b2, 2000), err)
	}
	r.stats.label(o, r.text)
	o.LabelIf(r.stats.luas > 1, "several Lua blocks")
	walkDirs(r.dirs, 0, func(d *cp.Directive, depth int) {
		if contains(luaNames, d.Directive) && len(d.Args) > 0 {
			b := d.Args[len(d.Args)-1]
			o.LabelIf(strings.Count(b, "{") != strings.Count(b, "}"), "Lua code with unbalanced braces in strings or comments")
			o.LabelIf(strings.Contains(b, "{"), "Lua code with braces")
			o.LabelIf(strings.Contains(b, "[["), "Lua code with long brackets")
			o.LabelIf(depth > 0, "Lua code inside a block")
		}
	})
	o.NonTrivial(r.stats.luas > 0 && r.stats.stmts > 1)
	return nil
}

type luaCtxCase struct {
	N *Node
	C []Word
}

func checkLuaCtx(c luaCtxCase, top []*Node, ctx []string, blocks map[string][]uint, o *Obs) error {
	r := render(top, "\n")
	opts := Opts{Single: true, Lua: true, Sources: []string{"lua"}, Tables: []map[string][]uint{blocks}, ErrUnknown: true}
	p, err := parseText(r.text, opts)
	if err != nil {
		return fmt.Errorf("text %q: %w", clip(r.text, 2000), err)
	}
	masks, known := cp.MatchLuaLatest(c.N.N.V)
	bit, ok := ctxBit(ctx)
	allowed := false
	for _, m := range masks {
		allowed = allowed || m&bit != 0
	}
	allowed = known && (!ok || allowed)
	if allowed != (p.Status == "ok") {
		return fmt.Errorf("text %q: %v, want it accepted: %v", clip(r.text, 2000), allErrs(p), allowed)
	}
	if allowed {
		if err := diffDirs(p.Config[0].Parsed, r.dirs, cmpOpt{}); err != nil {
			return fmt.Errorf("text %q: %w", clip(r.text, 2000), err)
		}
	}
	o.Label("%s", c.N.N.V)
	o.NonTrivial(allowed && ok)
	return nil
}

// ---------------------------------------------------------------- Lua blocks that are wrong

type luaBadCase struct {
	Pre  Conf
	Name string
	Var  string // for set_by_lua_block
	Gap  string
	Bad  string // what stands in place of the brace
	Rest string
}

func runLuaBad(c luaBadCase, o *Obs) error {
	r := c.Pre.render()
	text := r.text + "\n" + c.Name + c.Var + c.Gap + c.Bad + c.Rest
	line := strings.Count(r.text+c.Var+c.Gap, "\n") + 2
	for _, stop := range []bool{false, true} {
		p, err := parseText(text, Opts{Single: true, Lua: true, Stop: stop})
		if !stop {
			if err != nil {
				return fmt.Errorf("text %q: %w", clip(text, 2000), err)
			}
			if len(p.Errors) != 1 || p.Status != "failed" || p.Config[0].Status != "failed" {
				return fmt.Errorf("text %q: status %q, errors %v", clip(text, 2000), p.Status, allErrs(p))
			}
			err = p.Errors[0].Error
		}
		pe := asParseError(err)
		if pe == nil || pe.Line == nil || *pe.Line != line || pe.File == nil || *pe.File != mainFile {
			return fmt.Errorf("text %q: error %v, want one in line %d", clip(text, 2000), err, line)
		}
	}
	o.Label(c.Bad)
	o.NonTrivial(r.stats.stmts > 0)
	return nil
}

// luaCutCase is a text that ends within a Lua block.
type luaCutCase struct {
	Pre  Conf
	Open string // blocks around it
	N    *Node
	At   int // this much of the code is left
	O    Opts
}

func runLuaCut(c luaCutCase, o *Obs) error {
	r := c.Pre.render()
	n := *c.N
	n.Pre = "\n"
	n.End = Gap{S: c.N.End.S}
	text := r.text + "\n" + c.Open + render([]*Node{&n}, "").text
	end := strings.LastIndex(text, *c.N.Lua+"}")
	at := c.At
	if at > len(*c.N.Lua) {
		at = len(*c.N.Lua)
	}
	if end < 0 {
		return infraError{fmt.Errorf("no Lua code in %q", text)}
	}
	text = text[:end+at]
	for _, stop := range []bool{false, true} {
		po := c.O
		po.Single, po.Lua, po.Stop = true, true, stop
		p, err := parseText(text, po)
		if stop {
			if err == nil {
				return fmt.Errorf("text %q: no error", clip(text, 2000))
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("text %q: %w", clip(text, 2000), err)
		}
		if p.Status != "failed" || p.Config[0].Status != "failed" || len(p.Errors) == 0 {
			return fmt.Errorf("text %q: status %q, errors %v", clip(text, 2000), p.Status, allErrs(p))
		}
		pe := asParseError(p.Errors[len(p.Errors)-1].Error)
		if max := strings.Count(text, "\n") + 1; pe == nil || pe.Line == nil || *pe.Line < 1 || *pe.Line > max {
			return fmt.Errorf("text %q: error %v outside the file", clip(text, 2000), p.Errors)
		}
	}
	o.LabelIf(len(c.O.Ignore) > 0, "ignored")
	o.LabelIf(c.Open != "", "inside a block")
	o.NonTrivial(at > 0)
	return nil
}

// ---------------------------------------------------------------- registered lexers

// emitted is a token that a registered lexer yields.
type emitted struct {
	V string
	Q bool
}

// piece is some text, or a directive that a lexer is registered for.
type piece struct {
	Text string
	Ext  bool      `json:",omitempty"`
	Name string    `json:",omitempty"`
	Q    bool      `json:",omitempty"` // the name is quoted
	Sep  string    `json:",omitempty"` // after the name
	Eat  string    `json:",omitempty"` // what the lexer reads
	Emit []emitted `json:",omitempty"` // what it yields
	Term bool      `json:",omitempty"` // it yields ";" at the end
	Rest string    `json:",omitempty"` // what is left of the statement
}

type extCase struct {
	P    []piece
	More int  `json:",omitempty"` // this many other names are registered
	Over bool `json:",omitempty"` // all of them were registered with another lexer before
}

// names gives the registered names.
func (c extCase) names() []string {
	out := append([]string{}, extNames[:3]...)
	for i := 0; i < c.More; i++ {
		out = append(out, moreName(i))
	}
	return append(out, extNames[3:]...)
}

func moreName(i int) string { return fmt.Sprintf("more_%d", i) }

var extNames = []string{"ext1", "ext_b", "x-ext", "éxt", "server_ext", "EXT"}

// recLexer is a registered lexer that follows a plan and records what it is given.
type recLexer struct {
	id    int
	plans *[]piece
	lines []int // lines at which the plans start
	next  *int
	errs  *[]string
}

func (l recLexer) Lex(s *cp.SubScanner, name string) <-chan cp.NgxToken {
	ch := make(chan cp.NgxToken)
	i := *l.next
	*l.next++
	fail := func(f string, a ...interface{}) { *l.errs = append(*l.errs, fmt.Sprintf(f, a...)) }
	if i >= len(*l.plans) {
		fail("the lexer is called too often, for %q", name)
		close(ch)
		return ch
	}
	p := (*l.plans)[i]
	go func() {
		defer close(ch)
		if name != p.Name {
			fail("call %d is for %q, want %q", i, name, p.Name)
		}
		if want := lexerOf(name); want != l.id {
			fail("call %d for %q goes to lexer %d, want %d", i, name, l.id, want)
		}
		line := l.lines[i]
		for _, r := range p.Eat {
			if !s.Scan() {
				fail("call %d for %q: the text ends too early", i, name)
				return
			}
			if r == '\n' {
				line++
			}
			if s.Text() != string(r) || s.Line() != line {
				fail("call %d for %q: read %q in line %d, want %q in line %d", i, name, s.Text(), s.Line(), string(r), line)
				return
			}
		}
		for _, e := range p.Emit {
			ch <- cp.NgxToken{Value: e.V, Line: line, IsQuoted: e.Q}
		}
		if p.Term {
			ch <- cp.NgxToken{Value: ";", Line: line}
		}
	}()
	return ch
}

func lexerOf(name string) int { return len(name) % 2 }

// place renders the pieces; it also gives a text without registered directives that has the same tokens, where
// words that start with "zq" stand for what the lexers yield.
func (c extCase) place() (text, plain string, plans []piece, lines []int, vals map[string]emitted) {
	var a, b strings.Builder
	vals = map[string]emitted{}
	for _, p := range c.P {
		if !p.Ext {
			a.WriteString(p.Text)
			b.WriteString(p.Text)
			continue
		}
		name := p.Name
		if p.Q {
			name = "\"" + name + "\""
		}
		a.WriteString(name + p.Sep)
		b.WriteString(name)
		lines = append(lines, strings.Count(a.String(), "\n")+1)
		plans = append(plans, p)
		a.WriteString(p.Eat + p.Rest)
		for _, e := range p.Emit {
			k := fmt.Sprintf("zq%d", len(vals))
			vals[k] = e
			b.WriteString(" " + k)
		}
		if p.Term {
			b.WriteString(";")
		} else {
			b.WriteString(" ")
		}
		b.WriteString(strings.Repeat("\n", strings.Count(p.Sep+p.Eat, "\n")) + p.Rest)
	}
	return a.String(), b.String(), plans, lines, vals
}

func runExt(c extCase, o *Obs) error {
	text, plain, plans, lines, vals := c.place()
	var next int
	var errs []string
	var regs []cp.RegisterLexer
	if c.Over {
		// the ones that are registered later take the names over
		regs = append(regs, cp.LexWithLexer(recLexer{-1, &plans, lines, &next, &errs}, c.names()...))
	}
	for id := 0; id < 2; id++ {
		var names []string
		for _, n := range c.names() {
			if lexerOf(n) == id {
				names = append(names, n)
			}
		}
		regs = append(regs, cp.LexWithLexer(recLexer{id, &plans, lines, &next, &errs}, names...))
	}
	where := fmt.Sprintf("text %q", clip(text, 2000))
	got := collect(cp.LexWithOptions(strings.NewReader(text), cp.LexOptions{Lexers: regs}))
	if len(errs) > 0 {
		return fmt.Errorf("%s: %s", where, strings.Join(errs, "; "))
	}
	if next != len(plans) {
		return fmt.Errorf("%s: the lexers are called %d times, want %d", where, next, len(plans))
	}
	want := refLex(plain)
	for i := range want {
		if e, ok := vals[want[i].Val]; ok && want[i].Err == "" {
			want[i].Val, want[i].Quoted = e.V, e.Q
			if i < len(got) {
				want[i].Line = got[i].Line // it is the lexer's business
			}
		}
		if i < len(got) && want[i].Val == ";" && i > 0 && got[i].Val == ";" {
			// and so is the line of the end it yields
			want[i].Line = got[i].Line
		}
	}
	if err := diffToks(got, want); err != nil {
		return fmt.Errorf("%s: %w", where, err)
	}
	// parsing
	next = 0
	const name = "/etc/nginx/nginx.conf"
	o1 := Opts{Single: true, Comments: true}
	po := o1.parseOptions(FS{name: text})
	po.LexOptions.Lexers = regs
	p, err := cp.Parse(name, po)
	if err != nil {
		return fmt.Errorf("%s: %w", where, err)
	}
	if len(errs) > 0 || next != len(plans) {
		return fmt.Errorf("%s: parsing: %d calls, want %d; %s", where, next, len(plans), strings.Join(errs, "; "))
	}
	q := refParse(FS{name: plain}, name, o1)
	if q.OpenErr != "" || q.Fatal != nil {
		return infraError{errors.New("reference parser: " + q.OpenErr)}
	}
	for i := range q.Configs {
		walkDirs(q.Configs[i].Parsed, 0, func(d *cp.Directive, _ int) {
			for j := range d.Args {
				if e, ok := vals[d.Args[j]]; ok {
					d.Args[j] = e.V
				}
			}
		})
		for j := range q.Configs[i].Errors {
			q.Configs[i].Errors[j].NoStmt = true
		}
	}
	if err := diffPayload(p, nil, q); err != nil {
		return fmt.Errorf("%s: %w", where, err)
	}
	o.LabelIf(c.More > 10, "many names")
	for _, p := range plans {
		o.LabelIf(p.Sep == "", "no space after the name")
		o.LabelIf(p.Q, "quoted name")
		o.LabelIf(p.Eat == "", "nothing is read")
		o.LabelIf(!p.Term, "statement continues")
		o.LabelIf(strings.Contains(p.Eat, "\n"), "several lines are read")
	}
	o.NonTrivial(len(plans) > 0 && len(c.P) > len(plans))
	return nil
}

func genExtCase(t *rapid.T) extCase {
	var c extCase
	if chance(t, 30) {
		c.More = oneInt(t, []int{1, 5, 20, 60, 300})
	}
	extNames := c.names()
	if c.More > 8 {
		// mostly the last ones
		extNames = extNames[len(extNames)-9:]
	}
	c.Over = chance(t, 15)
	depth := 0
	text := func(s string) { c.P = append(c.P, piece{Text: s}) }
	for n := intn(t, 1, 7); n > 0; n-- {
		switch pick(t, 50, 25, 15, 10) {
		case 0:
			p := piece{Ext: true, Name: oneOf(t, extNames), Sep: oneOf(t, []string{" ", "\n", "\t", ""}), Q: chance(t, 8)}
			for k := intn(t, 0, 6); k > 0; k-- {
				p.Eat += oneOf(t, []string{"a", " ", "\n", "{", "}", ";", "\"", "'", "#", "\\", "\r\n", "é", "日", "$", "${", "ext1 ", "x y"})
			}
			for k := intn(t, 0, 3); k > 0; k-- {
				e := emitted{V: oneOf(t, []string{"a", "x y", "é", "{", "", ";", "ext1", "#", "}"}), Q: true}
				if chance(t, 40) {
					e = emitted{V: oneOf(t, []string{"a", "x y", "é", "ext1", "$x{"})}
				}
				p.Emit = append(p.Emit, e)
			}
			p.Term = chance(t, 60)
			if p.Term {
				p.Rest = oneOf(t, []string{"", " ", "\n"})
			} else {
				p.Rest = oneOf(t, []string{";", " x;", "ext1;", " ext1 'y z';\n", "\"q\" ext_b;", " # c\n;", "\n x;"})
			}
			if p.Q {
				// the space after the quote is for the lexer
				p.Eat, p.Sep = p.Sep+p.Eat, ""
			}
			if p.Sep == "" && !p.Q {
				// the name has to end somehow
				switch {
				case chance(t, 60):
					p.Eat = oneOf(t, []string{"{", ";", "}"}) + p.Eat
				case !p.Term:
					p.Eat, p.Rest = "", ";"
				default:
					p.Sep = " "
				}
			}
			c.P = append(c.P, p)
		case 1:
			w := oneOf(t, extNames)
			text(oneOf(t, []string{
				"x " + w + ";", "x '" + w + "';", "# " + w + " {\n", "listen 80 " + w + " y;\n", "x" + w + " {}", w + "x;", "x # c\n " + w + ";", "x \"a\"" + w + ";", "x " + w + " {\n}",
				"x ${y}" + w + ";", "x " + w + w + ";\n", "x\n" + w + "\n;", "x \"\" " + w + ";", "$" + w + " a;", "\\" + w + ";", "'x' " + w + ";", "x y \"z\" " + w + " {" + "}",
			}))
		case 2:
			text(oneOf(t, []string{"y {", "http {\n", "z a b {"}))
			depth++
		case 3:
			if depth > 0 {
				text(oneOf(t, []string{"}", "}\n"}))
				depth--
			}
		}
		if chance(t, 40) {
			text(oneOf(t, []string{"\n", " ", "\n\n  "}))
		}
	}
	text(strings.Repeat("}", depth))
	return c
}

// ---------------------------------------------------------------- registered builders

type recBuilder struct {
	id    int
	calls *[]*cp.Directive
	ids   *[]int
}

func extText(d *cp.Directive) string {
	s := "<" + d.Directive + "\n {;\"" + strings.Join(d.Args, ",") + fmt.Sprint(len(d.Block)) + ">"
	switch (len(d.Args) + 2*len(d.Block) + len(d.Directive)) % 7 {
	case 1:
		return ""
	case 2:
		return s + "\n"
	case 3:
		return s + "\n\n\n"
	case 4:
		return " \t" + s + " \t"
	case 5:
		return "\n\n" + s + "\r\n"
	}
	return s
}

func (b recBuilder) Build(d *cp.Directive) string {
	*b.calls = append(*b.calls, d)
	*b.ids = append(*b.ids, b.id)
	return extText(d)
}

var builderNames = []string{"server", "listen", "if", "map", "include", "return", "content_by_lua_block", "a", "Server", "myDirective", "LISTEN", "é", "x y", "a;", "", "if2"}

// renamed counts the directives that a builder handles and puts plain ones in their place.
func renamed(ds cp.Directives, handled *[]*cp.Directive, orig cp.Directives) {
	for i, d := range ds {
		if contains(builderNames, d.Directive) && !d.IsMapBlockParameter {
			*handled = append(*handled, orig[i])
			*d = cp.Directive{Directive: fmt.Sprintf("zqbuilt%dz", len(*handled)-1), Line: -7}
			continue
		}
		renamed(d.Block, handled, orig[i].Block)
	}
}

func runBuilders(c treeCase, o *Obs) error {
	tree := toDirs(c.Tree)
	c.F1 = c.F1.limit(tree)
	keep := copyDirs(tree)
	var handled []*cp.Directive
	plainTree := copyDirs(tree)
	renamed(plainTree, &handled, tree)
	want, err := buildText(cp.Config{Parsed: plainTree}, c.F1.options())
	if err != nil {
		return err
	}
	for i := len(handled) - 1; i >= 0; i-- {
		k := fmt.Sprintf("zqbuilt%dz;", i)
		if strings.Count(want, k) != 1 {
			return infraError{fmt.Errorf("%q in %q", k, want)}
		}
		want = strings.Replace(want, k, extText(handled[i]), 1)
	}
	var calls []*cp.Directive
	var ids []int
	opts := c.F1.options()
	if c.F2.Tabs {
		opts.Builders = append(opts.Builders, cp.BuildWithBuilder(recBuilder{-1, &calls, &ids}, builderNames...))
	}
	for id := 0; id < 2; id++ {
		var names []string
		for i := 0; i < c.F2.Indent; i++ {
			names = append(names, moreName(i))
		}
		for _, n := range builderNames {
			if lexerOf(n) == id {
				names = append(names, n)
			}
		}
		opts.Builders = append(opts.Builders, cp.BuildWithBuilder(recBuilder{id, &calls, &ids}, names...))
	}
	for round := 0; round < 2; round++ {
		calls, ids = nil, nil
		got, err := buildText(cp.Config{Parsed: tree}, opts)
		if err != nil {
			return err
		}
		if len(calls) != len(handled) {
			return fmt.Errorf("the builders are called %d times, want %d", len(calls), len(handled))
		}
		for i := range calls {
			if calls[i] != handled[i] {
				return fmt.Errorf("call %d is for %v, want %v", i, calls[i], handled[i])
			}
			if ids[i] != lexerOf(calls[i].Directive) {
				return fmt.Errorf("call %d for %v goes to builder %d", i, calls[i], ids[i])
			}
		}
		// the last line end may be left to who writes the file
		if got != want && got != strings.TrimSuffix(want, "\n") {
			return fmt.Errorf("built %q, want %q", clip(got, 2000), clip(want, 2000))
		}
	}
	if err := diffDirs(tree, keep, cmpOpt{}); err != nil {
		return fmt.Errorf("building changed the tree: %w", err)
	}
	n, _ := countDirs(tree)
	o.LabelIf(len(handled) > 1, "several directives with a builder")
	o.NonTrivial(len(handled) > 0 && n > len(handled))
	return nil
}

func init() {
	Register(Check{Prop: "C15", Name: "lua", Quick: 30000,
		Rule: "configuration with *_by_lua_block directives at any depth whose Lua code nests braces and has them in strings, comments and long brackets, parsed, built, parsed, built; non-trivial: a Lua block and another statement"},
		func(t *rapid.T) confCase {
			g := &treeGen{comments: chance(t, 40), known: chance(t, 50), budget: 15, lua: luaNode}
			c := confCase{Conf: genConf(t, g, nil)}
			withLuaArgs(t, c.Conf.Nodes)
			return c
		}, runLua)
	Register(Check{Prop: "C15", Name: "lua-contexts", Quick: 12000,
		Rule: "a Lua block in each context, with the Lua table in use; it is accepted exactly where the table allows it; non-trivial: it is allowed"},
		func(t *rapid.T) luaCtxCase {
			c := luaCtxCase{N: luaNode(t), C: ctxWords(t)}
			if chance(t, 60) {
				masks, _ := cp.MatchLuaLatest(c.N.N.V)
				for _, k := range sortedKeys(ctxBits) {
					if len(masks) > 0 && masks[0]&ctxBits[k] != 0 && chance(t, 40) {
						c.C = nil
						for _, b := range strings.Split(k, ">") {
							c.C = append(c.C, bare(b))
						}
					}
				}
			}
			return c
		},
		func(c luaCtxCase, o *Obs) error {
			var ctx []string
			n := *c.N
			n.Pre = "\n"
			top := []*Node{&n}
			blocks := map[string][]uint{}
			for i := len(c.C) - 1; i >= 0; i-- {
				top = []*Node{{N: c.C[i], Blk: true, B: top}}
			}
			for _, b := range c.C {
				ctx = enterCtx(ctx, b.V)
				if b.V == "" || b.V == "#" || contains(mapKinds, b.V) || contains(luaNames, b.V) {
					return nil
				}
				blocks[b.V] = []uint{0x1ffff0000 | bitBlock | bitAny}
			}
			return checkLuaCtx(c, top, ctx, blocks, o)
		})
	Register(Check{Prop: "C15", Name: "lua-error", Quick: 8000,
		Rule: "a Lua directive that is not followed by a brace; non-trivial: other statements come first"},
		func(t *rapid.T) luaBadCase {
			g := &treeGen{comments: true, known: true, budget: 5, lua: luaNode}
			c := luaBadCase{Pre: genConf(t, g, nil), Name: oneOf(t, luaNames), Gap: oneOf(t, luaSpace[1:])}
			c.Bad = oneOf(t, []string{";", "x", "(", "\"", "'", "-", "}", "[", "#", "$", "é", "\\"})
			if c.Name == "set_by_lua_block" {
				c.Var = " $x"
				if chance(t, 25) {
					// the variable is missing
					c.Var, c.Bad = "", oneOf(t, []string{"{ x", "{ return 1 }", "{ '{' }"})
				}
			}
			c.Rest = oneOf(t, []string{"", " }", "{ return 1 }", "\n{ x = {} }\n", "a b;", "\"{\"}"})
			return c
		}, runLuaBad)
	Register(Check{Prop: "C15", Name: "lua-cut", Quick: 12000,
		Rule: "a text that ends within the code of a Lua block, which is ignored, not allowed or alright: the file is marked failed; non-trivial: there is some code"},
		func(t *rapid.T) luaCutCase {
			g := &treeGen{comments: true, known: true, budget: 4, lua: luaNode}
			c := luaCutCase{Pre: genConf(t, g, nil), N: luaNode(t), Open: oneOf(t, []string{"", "x {", "http { server {", "events {", "x_foo {\n", "map $a $b {", "location {"})}
			c.At = intn(t, 0, len(*c.N.Lua))
			c.O = Opts{Comments: chance(t, 50), ErrUnknown: chance(t, 20), SkipCtx: chance(t, 20), SkipArgs: chance(t, 20)}
			if chance(t, 30) {
				c.O.Ignore = []string{oneOf(t, []string{c.N.N.V, "x", "http", "x_foo", "location"})}
			}
			return c
		}, runLuaCut)
	Register(Check{Prop: "C15", Name: "lexers", Quick: 40000,
		Rule: "statements and registered directives whose lexers read any number of characters and yield any tokens, against the reference lexer and parser; non-trivial: a registered directive and other text"},
		genExtCase, runExt)
	Register(Check{Prop: "C15", Name: "builders", Quick: 24000,
		Rule: "trees with directives that two builders are registered for; non-trivial: one of them and another directive"},
		func(t *rapid.T) treeCase {
			c := treeCase{Tree: genDNs(t), F1: genFmt(t), F2: Fmt{Indent: oneInt(t, []int{0, 0, 1, 12, 60}), Tabs: chance(t, 15)}}
			var touch func(ns []DN)
			touch = func(ns []DN) {
				for i := range ns {
					if ns[i].C == nil && chance(t, 20) {
						ns[i].N = oneOf(t, builderNames)
					}
					touch(ns[i].B)
				}
			}
			touch(c.Tree)
			return c
		}, runBuilders)
}
