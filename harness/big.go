package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

// Large inputs: one thing at a time (or two) is repeated many times, at and around the sizes where limits of
// implementations usually lie. Cases are kept in parametric form, so that they stay short.

// sizes are the numbers at which, or next to which, something may change.
var sizes = []int{8, 10, 16, 20, 32, 50, 64, 100, 127, 128, 200, 255, 256, 300, 500, 512, 1000, 1023, 1024, 2000, 2047, 2048, 3000, 4096, 5000, 8191, 8192,
	10000, 16384, 20000, 32767, 32768, 50000, 65535, 65536, 100000, 131072, 200000}

// genSize draws a size up to max.
func genSize(t *rapid.T, max int) int {
	k := sort.SearchInts(sizes, max+1)
	switch pick(t, 60, 25, 15) {
	case 0:
		// prefer the large ones
		i := intn(t, 0, k-1)
		if j := intn(t, 0, k-1); j > i && chance(t, 60) {
			i = j
		}
		if n := sizes[i] + intn(t, -1, 2); n <= max {
			return n
		}
		return max
	case 1:
		i := intn(t, 1, k-1)
		return intn(t, sizes[i-1], sizes[i])
	}
	return max
}

// bigPart is a piece of a configuration in which W is repeated N times.
type bigPart struct {
	Shape string
	N     int
	W     string
}

const bigText = 260000 // characters

type bigShape struct {
	max   int // of N
	units []string
	text  func(n int, w string) string
}

func times(s string, n int) string { return strings.Repeat(s, n) }

// numbered repeats a text with % replaced by a number.
func numbered(s string, n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(strings.ReplaceAll(s, "%", fmt.Sprint(i)))
	}
	return sb.String()
}

var (
	bareUnits   = []string{"x", "é", "\\\"", "${v}", "\\\\", "a=b", "$a", "\\;", "x'", "x#", "\\\n", "0"}
	quotedUnits = []string{"x", " ", "\n", "\\\"", "{", "#", "'", ";", "é ", "}", "\r\n", "${", "\\\\", "\t"}
	// rare ones, which come once
	tailUnits  = []string{"\\\"", "\\'", "${v}", "\\\\", "\\;", "\\{", "\\ ", "$", "\\\n", "é", "日", "😀", "'", "#", "\\n", "\xff", "\ufeff", "\u00a0", "\u2028"}
	tailUnits2 = []string{" ", "\n", "\t", "\r", "\r\n", ";", "{", "}", "#", "'", "\\\"", "\\", "\\\\", "${", "${v", "$", "é", "日", "😀", "\\\n", "\\n", "\xff", "\ufeff", "\u00a0", "\u2028", "\v", "\x00"}
	argUnits   = []string{" w", " 'w w'", " \"\"", "\tw%", "\nw", " \\{", " ${v}", " 'é;'", "\r\nw", " \"w\""}
)

// valid pieces, if the directives are not checked for unknown names
var bigShapes = map[string]bigShape{
	"args":        {20000, argUnits, func(n int, w string) string { return "a" + numbered(w, n) + ";" }},
	"block args":  {20000, argUnits, func(n int, w string) string { return "a" + numbered(w, n) + " { b c; }" }},
	"word":        {200000, bareUnits, func(n int, w string) string { return "a b" + times(w, n) + ";" }},
	"quoted":      {200000, quotedUnits, func(n int, w string) string { return "a \"" + times(w, n) + "\" b;" }},
	"name":        {200000, bareUnits, func(n int, w string) string { return "n" + times(w, n) + " b;" }},
	"quoted name": {200000, quotedUnits, func(n int, w string) string { return "\"n" + times(w, n) + "\" b;" }},
	"variable":    {200000, []string{"v", "é", "$", "-"}, func(n int, w string) string { return "a ${" + times(w, n) + "} b;" }},
	"comment":     {200000, []string{"c", "#", " ", "{", "é", "\"", "c;"}, func(n int, w string) string { return "#" + times(w, n) + "\nx;" }},
	"comments":    {60000, []string{"#c\n", "#%\n", "# c\r\n", "#\n", "#c\n#d\n\n"}, func(n int, w string) string { return numbered(w, n) + "x;" }},
	"blank":       {200000, []string{"\n", " ", "\t", "\r\n", "\n ", "\n\n"}, func(n int, w string) string { return "a" + times(w, n) + "b;" + times(w, n) + "c;" + times(w, n) }},
	"siblings":    {20000, []string{"a b;\n", "s% v;", "a 'b' \"c\";\n", "e;", "b {}\n", "b { c%; }", "a b; #c\n"}, func(n int, w string) string { return numbered(w, n) }},
	"children":    {20000, []string{"a b;\n", "s% v;", "e;", "b {}\n", "b { c%; }"}, func(n int, w string) string { return "q {" + numbered(w, n) + "}" }},
	// something unlike the rest comes late
	"word then":        {100000, tailUnits, func(n int, w string) string { return "a b" + times("x", n) + w + "y;" }},
	"quoted then":      {100000, tailUnits2, func(n int, w string) string { return "a \"" + times("x", n) + w + "y\" b;" }},
	"name then":        {100000, tailUnits, func(n int, w string) string { return times("x", n) + w + "y b;" }},
	"quoted name then": {100000, tailUnits2, func(n int, w string) string { return "\"" + times("x", n) + w + "y\" b;" }},
	"comment then":     {100000, tailUnits2, func(n int, w string) string { return "#" + times("x", n) + w + "y\nb;" }},
	"args then":        {20000, argUnits, func(n int, w string) string { return "a" + times(" x", n) + numbered(w, 1) + " y;" }},
	"value then":       {100000, tailUnits2, func(n int, w string) string { return "http { map $a $b { k \"" + times("x", n) + w + "y\"; k2 v; } }" }},
	"blank then":       {100000, []string{"x;", "#c\n", "'x';", "\"\";"}, func(n int, w string) string { return "a;" + times(" ", n) + w }},
	"siblings then":    {20000, []string{"b {}", "b { c; }", "#c\n", "b 'x y';", "'' ;"}, func(n int, w string) string { return times("a;", n) + w }},
	"inner":            {10000, []string{" #c\n", " b #c%\n", "#\n", " # {\r\n"}, func(n int, w string) string { return "a b" + numbered(" "+w, n) + " c;" }},
	"inner block":      {10000, []string{" #c\n", " b #c%\n"}, func(n int, w string) string { return "a b" + numbered(w, n) + " { c; }" }},
	"nest":             {3990, []string{"a {", "a b {\n", "a% {", "a { #c\n", "a { b; "}, func(n int, w string) string { return numbered(w, n) + " c; " + times("}", n) }},
	"location": {3990, []string{"location / {", "location /% {\n"}, func(n int, w string) string {
		return "http { server { " + numbered(w, n) + " root x; " + times("}", n) + "}}"
	}},
	"map":        {20000, []string{"k% v;\n", "'k %' v;", "~k% v;", "k% v; #c\n", "default v%;"}, func(n int, w string) string { return "http { map $a $b {" + numbered(w, n) + "} }" }},
	"types":      {20000, []string{"t/% x%;\n", "t/% a b c;"}, func(n int, w string) string { return "http { types {" + numbered(w, n) + "} }" }},
	"types args": {20000, argUnits, func(n int, w string) string { return "http { types { t" + numbered(w, n) + "; u x; } }" }},
	"map key":    {200000, bareUnits, func(n int, w string) string { return "http { map $a $b { k" + times(w, n) + " v; k2 v; } }" }},
	"map value":  {200000, quotedUnits, func(n int, w string) string { return "http { map $a $b { k \"" + times(w, n) + "\"; k2 v; } }" }},
	"if": {10000, []string{" w", " 'w w'", " =", " \"\""}, func(n int, w string) string {
		return "http { server { if (x" + numbered(w, n) + " y) { return 200; } } }"
	}},
	"if word": {100000, bareUnits, func(n int, w string) string {
		return "http { server { if ($a = x" + times(w, n) + ") { return 200; } } }"
	}},
	"server names": {20000, []string{" n%", " 'n%'", " ~n"}, func(n int, w string) string { return "http { server { server_name x" + numbered(w, n) + "; } }" }},
	"servers":      {4000, []string{"server { listen %; }\n", "server { listen 1; location / { root x; } }"}, func(n int, w string) string { return "http {" + numbered(w, n) + "}" }},
}

// pieces with errors, of which parsing goes on
var badShapes = map[string]bigShape{
	"bad":         {4000, []string{"listen;\n", "http { listen x; }", "map;", "user a b c;", "server;", "a; server;", "#c\nlisten;"}, func(n int, w string) string { return numbered(w, n) }},
	"bad entries": {4000, []string{"k%;", "k a b;", "k%; k v;", "k {}", "; "}[:3], func(n int, w string) string { return "http { map $a $b {" + numbered(w, n) + "} }" }},
	"skipped": {3990, []string{"a {", "a b {\n", "a { #c\n"}, func(n int, w string) string {
		return "listen { " + numbered(w, n) + " c; " + times("}", n) + " d; } e;"
	}},
	"skipped flat": {20000, []string{"a b;", "a { b; }", "#}\n", "'}' x;"}, func(n int, w string) string {
		return "listen { " + numbered(w, n) + " } e;"
	}},
	"unexpected": {4000, []string{"}", ";", "a; }", "; }"}, func(n int, w string) string { return "a; " + times(w, n) + " b;" }},
	"too deep":   {6000, []string{"a {"}, func(n int, w string) string { return times(w, n) + times("}", n) }},
	"open":       {2000, []string{"a {", "a { b; "}, func(n int, w string) string { return times(w, n) }},
}

func (p bigPart) text() string {
	s, ok := bigShapes[p.Shape]
	if !ok {
		s = badShapes[p.Shape]
	}
	return s.text(p.N, p.W)
}

func genPart(t *rapid.T, shapes map[string]bigShape, names ...string) bigPart {
	if len(names) == 0 {
		names = sortedKeys(shapes)
	}
	p := bigPart{Shape: oneOf(t, names)}
	s := shapes[p.Shape]
	p.W = oneOf(t, s.units)
	max := s.max
	if m := bigText / (len(p.W) + 2); m < max {
		max = m
	}
	p.N = genSize(t, max)
	return p
}

// bigCase is a set of files. The main file has the parts, with small statements around them.
type bigCase struct {
	Parts []bigPart `json:",omitempty"`
	Files string    `json:",omitempty"` // how many files include each other
	N     int       `json:",omitempty"`
	Bad   bool      `json:",omitempty"` // the included files have errors
	Tail  string    `json:",omitempty"`
	At    int       `json:",omitempty"` // where something fails, in thousandths
	Names int       `json:",omitempty"` // this many more ignored names, and tables
	Masks int       `json:",omitempty"` // this many definitions of a directive
	O     Opts
	F     Fmt
	D     []Delivery `json:",omitempty"`
}

// fileSets lists, for every way in which files include each other, the largest number.
var fileSets = map[string]int{
	"glob": 3000, "names": 2000, "chain": 1000, "shared": 3000, "sharing files": 1000, "ladder": 300, "same": 3000, "patterns": 300, "missing": 1000, "deep include": 1000,
	"args": 200, "cycle": 1000, "shared, cycle": 1000, "cycle of many": 300,
}

func bigFile(i int, bad bool) string {
	if bad && i%3 == 1 {
		return fmt.Sprintf("a %d;\nlisten;\nb;", i)
	}
	return fmt.Sprintf("a %d;\n", i)
}

func (c bigCase) fs() FS {
	var sb strings.Builder
	fs := FS{}
	dir := "/etc/nginx/"
	n := c.N
	f := func(i int) string { return fmt.Sprintf("f%d.conf", i) }
	put := func(i int, s string) { fs[dir+f(i)] = s + bigFile(i, c.Bad) }
	sb.WriteString("first;\n")
	switch c.Files {
	case "glob":
		sb.WriteString("include d/*.conf;\n")
		for i := 0; i < n; i++ {
			fs[fmt.Sprintf("%sd/%d.conf", dir, i)] = bigFile(i, c.Bad)
		}
	case "names":
		sb.WriteString(numbered("include f%.conf;\n", n))
		for i := 0; i < n; i++ {
			put(i, "")
		}
	case "args", "deep include":
		// many blocks around an include
		sb.WriteString(times("b {", n) + "include f0.conf;" + times("}", n))
		put(0, "include f1.conf;")
		put(1, "")
	case "chain", "cycle":
		sb.WriteString("include f0.conf;\n")
		for i := 0; i < n; i++ {
			put(i, "include "+f(i+1)+";")
		}
		put(n, "")
		if c.Files == "cycle" {
			put(n, "include "+f(n/3)+";")
		}
	case "cycle of many":
		// n files, and a cycle among the last two
		sb.WriteString(numbered("include f%.conf;\n", n))
		for i := 0; i < n; i++ {
			put(i, "")
		}
		put(n-1, "include "+f(n)+";")
		put(n, "include "+f(n-1)+";")
	case "shared", "shared, cycle":
		sb.WriteString(times("include f0.conf;\n", n))
		put(0, "include f1.conf;")
		put(1, "")
		if c.Files == "shared, cycle" {
			put(1, "include f0.conf;")
		}
	case "same":
		// one file has many includes of another, which nobody else includes
		sb.WriteString("include f0.conf;")
		put(0, times("include f1.conf;\n", n))
		put(1, "")
	case "sharing files":
		sb.WriteString(numbered("include f%.conf;\n", n))
		for i := 0; i < n; i++ {
			put(i, "include s.conf;")
		}
		fs[dir+"s.conf"] = "s;"
	case "ladder":
		sb.WriteString("include f0.conf;\n")
		for i := 0; i < n; i++ {
			put(i, "include "+f(i+1)+"; include f"+fmt.Sprint(n)+".conf;")
		}
		put(n, "")
	case "patterns":
		sb.WriteString("include f*.conf;\n")
		for i := 0; i < n; i++ {
			put(i, "include g*.conf;")
		}
		fs[dir+"g1.conf"], fs[dir+"g2.conf"] = "g 1;", "g 2;"
	case "missing":
		sb.WriteString(numbered("include f%.conf;\n", n))
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				put(i, "")
			}
		}
	}
	for i, p := range c.Parts {
		sb.WriteString("p" + fmt.Sprint(i) + " x;\n" + p.text() + "\nq y;\n")
	}
	sb.WriteString(c.Tail)
	fs[mainFile] = sb.String()
	return fs
}

func (c bigCase) opts() Opts {
	o := c.O
	for i := 0; i < c.Names; i++ {
		o.Ignore = append(o.Ignore, fmt.Sprintf("ignored%d", i))
	}
	if c.Names > 0 {
		o.Ignore = append(o.Ignore, "q", "location", "e")
	}
	if c.Masks > 0 {
		var ms []uint
		for i := 0; i < c.Masks; i++ {
			ms = append(ms, bitBlock|1<<18) // in the events block only
		}
		tab := map[string][]uint{"a": append(ms, 0x1ffff0000|bitBlock|bitAny|bit1More), "p0": append(ms, 0x1ffff0000|1), "q": append(ms, 0x1ffff0000|2)}
		for i := 0; i < c.Masks; i++ {
			tab[fmt.Sprintf("named%d", i)] = ms
		}
		o.Tables = append(o.Tables, tab)
	}
	return o
}

func (c bigCase) files() filesCase { return filesCase{Files: c.fs(), O: c.opts()} }

// clipped shortens an error that quotes files.
func clipped(c interface{}, err error) error {
	if err == nil {
		return nil
	}
	if _, ok := err.(infraError); ok {
		return err
	}
	s := err.Error()
	if len(s) > 3000 {
		s = s[:700] + " ... " + s[len(s)-2000:]
	}
	return fmt.Errorf("%+v: %s", c, s)
}

func genBig(t *rapid.T, shapes map[string]bigShape, names ...string) bigCase {
	c := bigCase{Parts: []bigPart{genPart(t, shapes, names...)}}
	if chance(t, 30) {
		p := genPart(t, shapes, names...)
		if p.N > 2000 {
			p.N = 2000
		}
		if p.Shape != c.Parts[0].Shape {
			c.Parts = append(c.Parts, p)
		}
	}
	c.O.Comments = chance(t, 60)
	c.O.Single = true
	return c
}

// shallow keeps the indentation small.
func (c bigCase) shallow() bigCase {
	for i, p := range c.Parts {
		if (p.Shape == "nest" || p.Shape == "location") && p.N > 1500 {
			c.Parts[i].N = 1500
		}
	}
	return c
}

func genBigFiles(t *rapid.T, names ...string) bigCase {
	if len(names) == 0 {
		names = sortedKeys(fileSets)
	}
	c := bigCase{Files: oneOf(t, names), Bad: chance(t, 30)}
	c.N = genSize(t, fileSets[c.Files])
	return c
}

func (c bigCase) label(o *Obs) {
	most := c.N
	for _, p := range c.Parts {
		o.Label("%s", p.Shape)
		if p.N > most {
			most = p.N
		}
	}
	o.LabelIf(c.Files != "", c.Files)
	if c.Masks > most {
		most = c.Masks
	}
	if c.Names > most {
		most = c.Names
	}
	switch {
	case most > 60000:
		o.Label("more than 60000")
	case most > 4096:
		o.Label("more than 4096")
	case most > 255:
		o.Label("more than 255")
	}
	o.NonTrivial(most >= 16)
}

// runBig compares parsing with the reference parser.
func runBig(c bigCase, o *Obs) error {
	fs := c.fs()
	opt := c.opts()
	want := refParse(fs, mainFile, opt)
	p, err := cp.Parse(mainFile, opt.parseOptions(fs))
	o.LabelIf(want.Fatal == nil && len(want.errs()) > 0, "with errors")
	o.LabelIf(want.Fatal != nil, "stopped")
	o.LabelIf(want.Cycle, "cycle")
	c.label(o)
	return clipped(c, diffPayload(p, err, want))
}

func big(prop string, n int, rule string, gen func(*rapid.T) bigCase, run func(bigCase, *Obs) error) {
	Register(Check{Prop: prop, Name: "large", Quick: n, Rule: rule + "; non-trivial: at least 16 of something"}, gen,
		func(c bigCase, o *Obs) error { return clipped(c, run(c, o)) })
}

// asTree gives a tree that a program may have made.
func asDNs(ds cp.Directives) []DN {
	var out []DN
	for _, d := range ds {
		n := DN{N: d.Directive, A: d.Args, L: d.Line, M: d.IsMapBlockParameter}
		if d.Comment != nil {
			c := *d.Comment
			n.C = &c
		}
		if d.Block != nil {
			n.K, n.B = true, asDNs(d.Block)
		}
		out = append(out, n)
	}
	return out
}

func init() {
	big("C01", 240, "one or two things of a text repeated up to 200000 times, tokens against the reference lexer", func(t *rapid.T) bigCase {
		c := genBig(t, bigShapes)
		c.Tail = oneOf(t, []string{"", "}", "a {", "x", ";", "#c"})
		return c
	}, func(c bigCase, o *Obs) error {
		c.label(o)
		return runLexText(textCase{Text: c.fs()[mainFile]}, o)
	})
	big("C02", 480, "one or two things of a valid configuration repeated up to 200000 times, against the reference parser", func(t *rapid.T) bigCase { return genBig(t, bigShapes) }, runBig)
	big("C03", 800, "one or two things of a valid configuration repeated up to 200000 times, parsed, built, parsed, built", func(t *rapid.T) bigCase {
		c := genBig(t, bigShapes).shallow()
		c.F = genFmt(t)
		return c
	}, func(c bigCase, o *Obs) error {
		c.label(o)
		return runRound(roundCase{Text: c.fs()[mainFile], F: c.F}, o)
	})
	big("C04", 500, "directive trees with one or two things repeated up to 200000 times", func(t *rapid.T) bigCase {
		c := genBig(t, bigShapes).shallow()
		c.F = genFmt(t)
		return c
	}, func(c bigCase, o *Obs) error {
		c.label(o)
		c.O.Comments = true
		want := refParse(c.fs(), mainFile, c.O)
		if want.Fatal != nil || len(want.errs()) > 0 {
			return infraError{fmt.Errorf("%v", want.errs())}
		}
		f := c.F
		f.Indent, f.Tabs = f.Indent+1, !f.Tabs
		return runTree(treeCase{Tree: asDNs(want.Configs[0].Parsed), F1: c.F, F2: f}, o)
	})
	big("C06", 160, "up to 20000 arguments, up to 2000 definitions of a directive, names in a table, or levels of blocks, against the reference validation", func(t *rapid.T) bigCase {
		c := genBig(t, bigShapes, "args", "block args", "server names", "types args", "if", "location", "servers", "types", "nest")
		c.O.SkipArgs, c.O.ErrUnknown = chance(t, 15), chance(t, 20)
		if chance(t, 50) {
			c.Masks = genSize(t, 2000)
		}
		return c
	}, runBig)
	big("C07", 320, "one or two faults repeated up to 20000 times, or faults after something else is repeated, against the reference parser", func(t *rapid.T) bigCase {
		c := genBig(t, badShapes)
		if chance(t, 40) {
			c = genBig(t, bigShapes)
			c.Tail = oneOf(t, []string{"}", "a {", "x", ";", "listen;", "} a;", "x { listen; }", "\"a"})
			if chance(t, 50) {
				c.Parts = append(c.Parts, bigPart{Shape: "bad", N: intn(t, 1, 20), W: "listen;\n"})
			}
		}
		c.O.Stop, c.O.ErrUnknown = chance(t, 10), chance(t, 20)
		return c
	}, runBig)
	big("C08", 400, "map-like blocks with up to 20000 entries, long keys or many values, against the reference parser", func(t *rapid.T) bigCase {
		if chance(t, 30) {
			return genBig(t, badShapes, "bad entries")
		}
		return genBig(t, bigShapes, "map", "types", "types args", "map key", "map value")
	}, runBig)
	big("C09", 160, "up to 3000 files or includes, against the reference parser", func(t *rapid.T) bigCase {
		c := genBigFiles(t)
		c.O = Opts{SkipCtx: true, SkipArgs: chance(t, 50), Comments: chance(t, 30)}
		return c
	}, func(c bigCase, o *Obs) error {
		c.label(o)
		return runIncludes(c.files(), o)
	})
	big("C10", 160, "up to 3000 files or includes with and without a cycle, against the reference parser", func(t *rapid.T) bigCase {
		c := genBigFiles(t, "chain", "cycle", "cycle of many", "shared", "shared, cycle", "same", "sharing files", "ladder", "patterns", "names")
		c.O = Opts{SkipCtx: true}
		return c
	}, runBig)
	big("C11", 120, "up to 1000 files or includes, combined, against inlining the parsed trees", func(t *rapid.T) bigCase {
		c := genBigFiles(t, "glob", "names", "chain", "shared", "same", "sharing files", "ladder", "patterns", "deep include", "missing")
		if c.Files == "ladder" && c.N > 120 {
			c.N = 120
		}
		if c.N > 1000 {
			c.N = 1000
		}
		c.O = Opts{SkipCtx: true}
		return c
	}, func(c bigCase, o *Obs) error {
		c.label(o)
		return runCombine(c.files(), o)
	})
	big("C12", 160, "up to 3000 ignored names, and large files with any options, against the reference parser", func(t *rapid.T) bigCase {
		c := genBig(t, bigShapes, "children", "nest", "location", "servers", "siblings", "inner", "comments")
		if chance(t, 70) {
			c.Names = genSize(t, 3000)
		}
		c.O.Comments, c.O.SkipArgs, c.O.SkipCtx = chance(t, 50), chance(t, 30), chance(t, 30)
		return c
	}, runBig)
	big("C13", 120, "payloads of large texts and many files, encoded and decoded", func(t *rapid.T) bigCase {
		var c bigCase
		if chance(t, 60) {
			c = genBig(t, bigShapes).shallow()
			if chance(t, 30) {
				c = genBig(t, badShapes)
			}
		} else {
			c = genBigFiles(t, "glob", "names", "chain", "shared", "sharing files")
			c.O.SkipCtx = true
		}
		c.F = genFmt(t)
		return c
	}, func(c bigCase, o *Obs) error {
		c.label(o)
		p, err := parseFiles(c.fs(), c.O)
		if err != nil {
			return err
		}
		for i := range p.Config {
			if n, depth := countDirs(p.Config[i].Parsed); depth > 900 || n > 30000 {
				o.Label("too deep to encode quickly")
				return nil
			}
			c.F = c.F.limit(p.Config[i].Parsed)
		}
		return checkJSON(p, c.F)
	})
	big("C14", 80, "up to 1000 files, or large ones, written to disk and to a creator", func(t *rapid.T) bigCase {
		c := genBig(t, bigShapes, "args", "word", "quoted", "siblings", "comment", "nest").shallow()
		c.N = genSize(t, 1000)
		c.F = genFmt(t)
		return c
	}, func(c bigCase, o *Obs) error {
		c.label(o)
		b := buildCase{Dir: "out", F: c.F}
		fs := bigCase{Parts: c.Parts}.fs()
		ref := refParse(fs, mainFile, Opts{Single: true, Comments: true})
		for i := 0; i < c.N; i++ {
			b.T = append(b.T, Target{Path: fmt.Sprintf("d%d/%d.conf", i%7, i), Tree: []DN{{N: "a", A: []string{fmt.Sprint(i)}, L: 1}}})
		}
		b.T[c.N/2].Tree = asDNs(ref.Configs[0].Parsed)
		if err := runBuildFiles(b, o); err != nil {
			return err
		}
		return runBuildInto(b, o)
	})
	big("C16", 80, "large texts and many files delivered in pieces", func(t *rapid.T) bigCase {
		var c bigCase
		if chance(t, 70) {
			c = genBig(t, bigShapes)
			if chance(t, 30) {
				c = genBig(t, badShapes)
			}
		} else {
			c = genBigFiles(t)
			c.O.SkipCtx = true
		}
		for n := intn(t, 1, 2); n > 0; n-- {
			c.D = append(c.D, genDelivery(t))
		}
		return c
	}, func(c bigCase, o *Obs) error {
		c.label(o)
		return runDelivery(deliveryCase{C: c.files(), D: c.D}, o)
	})
	big("C17", 160, "reading a large text fails somewhere: the tokens up to there, then the error; opening or reading one of up to 3000 files fails, and never are many open", func(t *rapid.T) bigCase {
		c := genBig(t, bigShapes)
		if chance(t, 40) {
			c = genBigFiles(t, "glob", "names", "chain", "shared", "same", "sharing files", "ladder", "missing", "cycle")
			c.O = Opts{SkipCtx: true, Stop: chance(t, 15)}
		}
		c.Masks = 0
		c.At = intn(t, 0, 1000)
		return c
	}, func(c bigCase, o *Obs) error {
		c.label(o)
		fs := c.fs()
		f := &Fault{Op: "read", Path: mainFile, At: len(fs[mainFile]) * c.At / 1000, With: c.At%2 == 0}
		if c.Files != "" {
			names := sortedKeys(fs)
			f.Path = names[(len(names)-1)*c.At/1000]
			f.At = len(fs[f.Path]) / 2
			switch c.At % 4 {
			case 0:
				f = &Fault{Op: "open", Path: f.Path, N: 1}
			case 1:
				f = nil
			}
		} else {
			text := fs[mainFile]
			x := &faultFS{fs: FS{mainFile: text}, fault: f}
			r, err := x.open(mainFile)
			must(err)
			if err := diffToks(collect(cp.Lex(r)), refLexCut(text[:f.At], f.err())); err != nil {
				return fmt.Errorf("fault %+v: %w", f, err)
			}
		}
		y, p, perr, err := faultCase{C: filesCase{O: c.O}}.parse(fs, f)
		if err != nil {
			return fmt.Errorf("fault %+v: %w", f, err)
		}
		o.LabelIf(y.hit, "failure reached")
		if err := diffPayload(p, perr, refParseFault(fs, mainFile, c.O, f)); err != nil {
			return fmt.Errorf("fault %+v: %w", f, err)
		}
		return nil
	})
	big("C22", 120, "up to 4000 errors, also in many files, reported in all modes", func(t *rapid.T) bigCase {
		var c bigCase
		if chance(t, 60) {
			c = genBig(t, badShapes)
		} else {
			c = genBigFiles(t, "glob", "names", "chain", "missing", "sharing files")
			c.Bad = true
			c.O.SkipCtx = true
		}
		return c
	}, func(c bigCase, o *Obs) error {
		c.label(o)
		return runModes(modeCase{C: c.files(), Ticks: []int{1, -1, 2}}, o)
	})

	Register(Check{Prop: "C15", Name: "large", Quick: 160,
		Rule: "Lua code with one thing repeated up to 200000 times, deeply nested or in many blocks; non-trivial: at least 16 of something"},
		func(t *rapid.T) luaBig {
			c := luaBig{W: oneOf(t, []string{"x = 1\n", "y{} ", "-- {\n", "[[}]] ", "'}' ", "\"{\\\"\" ", "x", "\n", " ", "é", "--[[\n}]] ", "{", "[=[]]}]=] "}), Many: chance(t, 20)}
			max := 150000 / len(c.W)
			if c.W == "{" {
				max = 20000
			}
			if c.Many {
				max = 2000
			}
			c.N = genSize(t, max)
			return c
		}, func(c luaBig, o *Obs) error { return clipped(c, c.run(o)) })

	Register(Check{Prop: "C21", Name: "large", Quick: 160,
		Rule: "trees with many arguments, includes, children or levels, and copies that differ in one place; non-trivial: at least 16 of something"},
		func(t *rapid.T) eqBig {
			c := eqBig{Shape: oneOf(t, []string{"args", "includes", "children", "nest", "string", "pairs"})}
			c.N = genSize(t, map[string]int{"args": 20000, "includes": 20000, "children": 20000, "nest": 5000, "string": 200000, "pairs": 400}[c.Shape])
			c.At = intn(t, 0, c.N-1)
			if chance(t, 40) {
				c.At = c.N - 1
			}
			c.What = intn(t, 0, 7)
			return c
		}, func(c eqBig, o *Obs) error { return clipped(c, c.run(o)) })
}

type luaBig struct {
	W    string
	N    int
	Many bool
}

func (c luaBig) run(o *Obs) error {
	body := func(n int) string {
		if c.W == "{" {
			return times("{", n) + " " + times("}", n)
		}
		return times(c.W, n) + "\n"
	}
	var conf Conf
	add := func(name, b string) {
		n := &Node{N: bare(name), Lua: &b, Pre: "\n", End: Gap{S: " "}}
		if name == "set_by_lua_block" {
			n.A, n.G = []Word{bare("$x")}, []Gap{{S: " "}}
		}
		conf.Nodes = append(conf.Nodes, n)
	}
	if c.Many {
		for i := 0; i < c.N; i++ {
			add(luaNames[i%len(luaNames)], fmt.Sprintf(" x = %d %s", i, body(1)))
		}
	} else {
		add("content_by_lua_block", body(c.N))
		add("set_by_lua_block", body(c.N/2+1))
	}
	conf.Nodes = append(conf.Nodes, &Node{N: bare("last"), A: []Word{bare("y")}, G: []Gap{{S: " "}}, Pre: "\n"})
	o.LabelIf(c.N > 4096, "more than 4096")
	o.LabelIf(c.N > 60000, "more than 60000")
	o.NonTrivial(c.N >= 16)
	return runLua(confCase{Conf: conf}, &Obs{labels: map[string]int{}})
}

type eqBig struct {
	Shape       string
	N, At, What int
}

func (c eqBig) tree(edit bool) EN {
	change := func(e *EN) {
		if !edit {
			return
		}
		switch c.What {
		case 0:
			e.D += "x"
		case 1:
			e.L++
		case 2:
			e.A = append(e.A, "x")
		case 3:
			e.Blk = !e.Blk
			e.B = nil
		case 4:
			e.M = !e.M
		case 5:
			e.F += "x"
		case 6:
			e.I = append(e.I, 1)
		case 7:
			e.C = ptr("x")
		}
	}
	r := EN{D: "r", A: []string{"a"}, L: 1}
	switch c.Shape {
	case "args", "pairs":
		for i := 0; i < c.N; i++ {
			r.A = append(r.A, fmt.Sprint(i))
		}
		if edit {
			r.A[c.At] += "x"
		}
	case "includes":
		for i := 0; i < c.N; i++ {
			r.I = append(r.I, i)
		}
		if edit {
			r.I[c.At]++
		}
	case "string":
		b := bytes.Repeat([]byte("s"), c.N)
		if edit {
			b[c.At] = 'S'
		}
		switch c.What {
		case 0:
			r.D = string(b)
		case 1:
			r.F = string(b)
		case 2:
			r.C = ptr(string(b))
		default:
			r.A[0] = string(b)
		}
	case "children":
		r.Blk = true
		for i := 0; i < c.N; i++ {
			e := EN{D: fmt.Sprint("c", i), L: i}
			if i == c.At {
				change(&e)
			}
			r.B = append(r.B, e)
		}
	case "nest":
		e := EN{D: "leaf"}
		for i := 0; i < c.N; i++ {
			if i == c.At {
				if c.What == 3 {
					e.D += "y" // keep the block
				}
				if c.What != 3 || !edit {
					change(&e)
				} else {
					e.D += "z"
				}
			}
			e = EN{D: "n", L: i, Blk: true, B: []EN{e}}
		}
		r = e
	}
	return r
}

func (c eqBig) run(o *Obs) error {
	o.Label("%s", c.Shape)
	o.LabelIf(c.N > 4096, "more than 4096")
	o.NonTrivial(c.N >= 16)
	if c.Shape == "pairs" {
		var p poolCase
		for i := 0; i < 3; i++ {
			p.P = append(p.P, c.tree(i == 1))
		}
		return runPool(p, &Obs{labels: map[string]int{}})
	}
	a, b, x := c.tree(false), c.tree(false), c.tree(true)
	if a.same(x) || !a.same(b) {
		return infraError{fmt.Errorf("%+v: the trees are not as intended", c)}
	}
	if err := equalBoth(a.directive(), b.directive(), true); err != nil {
		return err
	}
	return equalBoth(a.directive(), x.directive(), false)
}

// cBig is a source tree with one thing repeated.
type cBig struct {
	Shape string
	N     int
	M     int // a second size
}

var cBigShapes = map[string]int{
	"entries": 5000, "definitions": 3000, "tables": 2000, "files": 1000, "levels": 60, "bits": 2000, "comment": 200000, "line comment": 100000, "code": 100000, "string": 100000, "blank": 100000,
	"long name": 50000, "rest": 50000, "filter": 5000, "override": 2000, "override bits": 2000, "override masks": 2000, "doc": 50000, "apostrophes": 5000, "before last": 100000, "ifs": 3000,
}

func (c cBig) genCase() genCase {
	e := func(name string, bits ...string) CEntry {
		return CEntry{Name: name, Bits: bits, Rest: ", f, 0, 0, NULL"}
	}
	small := CPart{Table: "small_commands", Prefix: "static ", Entries: []CEntry{e("first", "NGX_MAIN_CONF", "NGX_CONF_TAKE1"), e("second", "NGX_CONF_FLAG", "NGX_HTTP_LOC_CONF")}}
	last := CPart{Table: "last_commands", Prefix: "static ", Entries: []CEntry{e("first", "NGX_HTTP_SRV_CONF", "NGX_CONF_NOARGS"), e("last", "NGX_ANY_CONF", "NGX_CONF_1MORE")}}
	big := CPart{Table: "big_commands", Prefix: "static "}
	g := genCase{Map: "xDirectives", Fn: "MatchX"}
	f := CFile{Path: "src/a.c"}
	n := c.N
	bit := func(i int) string { return cBitNames[(i*7+c.M)%len(cBitNames)] }
	other := func(s string) CPart { return CPart{Other: s} }
	switch c.Shape {
	case "entries":
		for i := 0; i < n; i++ {
			big.Entries = append(big.Entries, e(fmt.Sprint("d", i), bit(i), bit(i+1)))
		}
	case "definitions":
		for i := 0; i < n; i++ {
			big.Entries = append(big.Entries, e("same", bit(i)))
		}
	case "bits":
		x := e("wide")
		for i := 0; i < n; i++ {
			x.Bits = append(x.Bits, bit(i))
		}
		big.Entries = append(big.Entries, x)
	case "long name":
		big.Entries = append(big.Entries, e(times("n", n), bit(1)))
	case "rest":
		x := e("r", bit(2))
		x.Rest = ", f, 0, 0, \"" + times("s ", n) + "\""
		big.Entries = append(big.Entries, x, e("r2", bit(3)))
	case "comment":
		big.Entries = append(big.Entries, e("c", bit(1)), e("c2", bit(2)))
		big.Gaps = []string{"", "/*" + times("c", n) + "*/", " "}
		f.Parts = append(f.Parts, other("/*"+times("*", n)+"*/"))
	case "line comment":
		f.Parts = append(f.Parts, other("// "+times("c ", n)+"\n"))
	case "blank":
		big.Entries = append(big.Entries, e("c", bit(1)), e("c2", bit(2)))
		big.Gaps = []string{times([]string{" ", "\n", "\t"}[c.M%3], n/20+1), " "}
	case "code":
		f.Parts = append(f.Parts, other(times("x();\n", n/2)), other("int a[] = {"+times("1,", n/3)+"};"))
	case "string":
		f.Parts = append(f.Parts, other("char *s = \""+times([]string{"/*", "a", "\\\"", "//"}[c.M%4], n/2)+"\";"))
	case "apostrophes":
		f.Parts = append(f.Parts, other(times("char c = '\"'; /* it's */ char d = '\\'';\n", n)))
	case "ifs":
		big.Entries = append(big.Entries, e("c", bit(1)), e("c2", bit(2)))
		big.Between = []string{"", times("\n#if (X)\n#endif\n", n)}
	}
	f.Parts = append(f.Parts, small)
	if len(big.Entries) > 0 {
		f.Parts = append(f.Parts, big)
	}
	if c.Shape == "before last" {
		f.Parts = append(f.Parts, other(times("int y;\n", n)))
	}
	if c.Shape == "tables" {
		for i := 0; i < n; i++ {
			f.Parts = append(f.Parts, CPart{Table: fmt.Sprint("t", i), Entries: []CEntry{e(fmt.Sprint("d", i%(1+n/2)), bit(i))}})
		}
	}
	f.Parts = append(f.Parts, last)
	g.Files = append(g.Files, f)
	switch c.Shape {
	case "files":
		for i := 0; i < n; i++ {
			g.Files = append(g.Files, CFile{Path: fmt.Sprintf("m%d/%d.c", i%11, i), Parts: []CPart{{Table: "t", Entries: []CEntry{e(fmt.Sprint("d", i), bit(i)), e("shared", bit(i))}}}})
		}
	case "levels":
		p := ""
		for i := 0; i < n; i++ {
			p += fmt.Sprintf("l%d/", i)
			g.Files = append(g.Files, CFile{Path: p + "x.c", Parts: []CPart{{Table: "t", Entries: []CEntry{e(fmt.Sprint("d", i), bit(i))}}}})
		}
	case "filter":
		for i := 0; i < n; i++ {
			g.Filter = append(g.Filter, fmt.Sprint("f", i))
		}
		g.Filter = append(g.Filter, "first")
	case "override", "override bits", "override masks":
		g.Override = map[string][][]string{}
		gobit := func(i int) string { return goNames[(i*5+c.M)%len(goNames)] }
		switch c.Shape {
		case "override":
			for i := 0; i < n; i++ {
				g.Override[fmt.Sprint("o", i)] = [][]string{{gobit(i)}}
			}
			g.Override["last"] = [][]string{{gobit(0), gobit(1)}}
		case "override bits":
			var m []string
			for i := 0; i < n; i++ {
				m = append(m, gobit(i))
			}
			g.Override["last"] = [][]string{m}
		case "override masks":
			var ms [][]string
			for i := 0; i < n; i++ {
				ms = append(ms, []string{gobit(i)})
			}
			g.Override["last"] = ms
		}
	case "doc":
		g.Comment = "MatchX " + times("x", n) + "\n" + times("y\n", n/50) + "z"
	}
	return g
}

func genCBig(t *rapid.T, shapes ...string) cBig {
	if len(shapes) == 0 {
		shapes = sortedKeys(cBigShapes)
	}
	c := cBig{Shape: oneOf(t, shapes), M: intn(t, 0, 60)}
	c.N = genSize(t, cBigShapes[c.Shape])
	return c
}

func (c cBig) label(o *Obs) {
	o.Label("%s", c.Shape)
	o.LabelIf(c.N > 255, "more than 255")
	o.NonTrivial(c.N >= 16)
}

func init() {
	Register(Check{Prop: "C19", Name: "large", Quick: 160, Rule: "source trees with one thing repeated many times (entries, definitions, tables, files, constants, comments, strings, filters, overrides); non-trivial: at least 16 of something"},
		func(t *rapid.T) cBig { return genCBig(t) },
		func(c cBig, o *Obs) error {
			c.label(o)
			return clipped(c, runGen(c.genCase(), &Obs{labels: map[string]int{}}))
		})
	Register(Check{Prop: "C20", Name: "large", Quick: 80, Rule: "up to 2000 settings in flags or a config file; non-trivial: at least 16 of something"},
		func(t *rapid.T) cBig {
			return genCBig(t, "filter", "override", "override bits", "override masks", "doc")
		},
		func(c cBig, o *Obs) error {
			c.label(o)
			if c.N > 2000 {
				c.N = 2000
			}
			g := c.genCase()
			s := Settings{Map: &g.Map, Fn: &g.Fn, Filter: g.Filter}
			if g.Comment != "" {
				s.Comment = &g.Comment
			}
			k := cliCase{Files: g.Files, Src: "dir", Style: []int{c.M}}
			if c.M%3 == 0 {
				s.Override = g.Override
				k.Cfg = &s
			} else {
				k.Flags = s
				for _, n := range sortedKeys(g.Override) {
					ov := n + ":"
					for i, m := range g.Override[n] {
						if i > 0 {
							ov += ","
						}
						ov += strings.Join(m, "|")
					}
					k.Overrides = append(k.Overrides, ov)
				}
			}
			return clipped(c, runCLICase(k, &Obs{labels: map[string]int{}}))
		})
}
