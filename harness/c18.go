package main

import (
	_ "embed"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

//go:embed tables.txt
var tablesText string

//go:embed documented.txt
var documentedText string

// recorded gives, by table and name, the definitions that each release has: what its sources and documentation define.
var recorded = func() map[string]map[string][]uint {
	out := map[string]map[string][]uint{}
	for t := range builtin {
		out[t] = map[string][]uint{}
	}
	for _, l := range strings.Split(strings.TrimSpace(tablesText), "\n") {
		f := strings.Fields(l)
		if len(f) != 3 {
			panic("tables.txt: " + l)
		}
		var ms []uint
		for _, x := range strings.Split(f[1], ",") {
			v, err := strconv.ParseUint(x, 16, 64)
			if err != nil {
				panic(err)
			}
			ms = append(ms, uint(v))
		}
		for _, t := range strings.Split(f[2], ",") {
			out[t][f[0]] = ms
		}
	}
	return out
}()

// Shape is a form of arguments.
type Shape struct {
	Args []string
	Term string
}

var shapes = func() []Shape {
	var out []Shape
	for _, term := range []string{";", "{"} {
		for n := 0; n <= 9; n++ {
			out = append(out, Shape{strings.Fields(strings.Repeat("a ", n)), term})
		}
		out = append(out, Shape{[]string{"on"}, term}, Shape{[]string{"Off"}, term}, Shape{[]string{"(a)"}, term}, Shape{[]string{"(a", "b)"}, term},
			Shape{[]string{"(a", "=", "b)"}, term}, Shape{[]string{"on", "off"}, term})
	}
	return out
}()

func (s Shape) String() string { return strings.Join(s.Args, " ") + s.Term }

var ctxKeys = sortedKeys(ctxBits)

// accepts says whether one of the definitions allows a use.
func accepts(masks []uint, ctx uint, s Shape) bool {
	for _, m := range masks {
		if m&ctx != 0 && (m&bitExpr == 0 || exprOK(s.Args)) && (m&bitBlock != 0) == (s.Term == "{") && arityOK(m, s.Args) {
			return true
		}
	}
	return false
}

// firstUse finds a use for which bad holds.
func firstUse(bad func(ctx uint, s Shape) bool) string {
	for _, k := range ctxKeys {
		for _, s := range shapes {
			if bad(ctxBits[k], s) {
				return fmt.Sprintf("in block %q with %q", k, s)
			}
		}
	}
	return ""
}

// later lists the pairs of tables of which the second accepts what the first does, but for the names given.
var later = []struct {
	a, b   string
	except []string
}{
	{"oss124", "oss126", []string{"ssl"}}, {"oss126", "oss", nil}, {"oss", "plus", []string{"proxy_ssl_alpn"}},
	{"R30", "R31", nil}, {"R31", "R33", nil}, {"R33", "R34", nil}, {"R34", "R35", nil}, {"R35", "R36", nil}, {"R36", "R37", nil}, {"R37", "plus", nil}, {"plus", "R37", nil},
	{"oss126", "R33", nil}, {"oss124", "R30", []string{"ssl"}}, {"nap4", "nap5", nil}, {"nap5", "nap4", nil},
	{"plus", "default", nil}, {"njs", "default", nil}, {"otel", "default", nil},
}

// entries are definitions upstream gives to the entries of map-like blocks, which have no context of their own.
var entries = map[string]bool{"header": true, "trusted_certificate": true, "status": true}

// candidateNames lists names that may be in a table: the recorded ones and every word in the sources of the package.
var candidateNames = func() []string {
	set := map[string]bool{}
	for _, n := range definedNames {
		set[n] = true
	}
	for _, ns := range recorded {
		for n := range ns {
			set[n] = true
		}
	}
	files, _ := filepath.Glob("/repo/*.go")
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, m := range wordLit.FindAllSubmatch(b, -1) {
			set[string(m[1])] = true
		}
	}
	for _, k := range ctxKeys {
		for _, w := range strings.Split(k, ">") {
			set[w] = true
		}
	}
	var out []string
	for n := range set {
		if n != "" {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}()

var wordLit = regexp.MustCompile("[\"`]([A-Za-z0-9_.-]{1,64})[\"`]")

type tableCase struct {
	Name string `json:",omitempty"` // all names if empty
}

func judgeName(name string, o *Obs) error {
	got := map[string][]uint{}
	for _, t := range sourceNames {
		ms, known := builtin[t](name)
		want, wantKnown := recorded[t][name]
		if known != wantKnown {
			return fmt.Errorf("table %s: %q is known: %v, want %v", t, name, known, wantKnown)
		}
		if known && len(ms) == 0 {
			return fmt.Errorf("table %s: %q has no definition", t, name)
		}
		got[t] = ms
		o.LabelIf(known, "definitions of "+t)
		for _, m := range ms {
			if m&^uint(0x1ffff3fff) != 0 {
				return fmt.Errorf("table %s: %q: unknown bits %x", t, name, m)
			}
			if m&0x3cff == 0 && !(m&bitExpr != 0) {
				return fmt.Errorf("table %s: %q: definition %x has no argument style", t, name, m)
			}
			if m&0x1fffe0000 == 0 && !(entries[name] && wantKnown) {
				return fmt.Errorf("table %s: %q: definition %x has no context", t, name, m)
			}
		}
		if u := firstUse(func(ctx uint, s Shape) bool { return accepts(ms, ctx, s) != accepts(want, ctx, s) }); u != "" {
			return fmt.Errorf("table %s: %q %s: definitions %x and the recorded %x disagree", t, name, u, ms, want)
		}
	}
	for _, l := range later {
		if contains(l.except, name) {
			continue
		}
		if u := firstUse(func(ctx uint, s Shape) bool { return accepts(got[l.a], ctx, s) && !accepts(got[l.b], ctx, s) }); u != "" {
			return fmt.Errorf("%q %s is accepted by %s and not by %s", name, u, l.a, l.b)
		}
	}
	if u := firstUse(func(ctx uint, s Shape) bool {
		return accepts(got["default"], ctx, s) != (accepts(got["plus"], ctx, s) || accepts(got["njs"], ctx, s) || accepts(got["otel"], ctx, s))
	}); u != "" {
		return fmt.Errorf("%q %s: the default table does not accept what plus, njs and otel do", name, u)
	}
	return nil
}

// useCase is a statement judged under the tables of all releases.
type useCase struct {
	Sources []string
	Ctx     string
	Name    string
	Args    []string
	Term    string
}

// ctx lists the blocks that the statement is put in.
func (c useCase) ctx() []string {
	if c.Ctx == "" {
		return nil
	}
	return strings.Split(strings.Replace(c.Ctx, "http>location", "http>server>location", 1), ">")
}

// blockArgs are arguments that blocks need.
var blockArgs = map[string]string{"upstream": "u", "if": "($x)", "location": "/", "limit_except": "GET", "oidc_provider": "o"}

// accepted parses the statement in its blocks with some tables.
func (c useCase) accepted(sources []string, o *Obs) (bool, string, error) {
	var sb strings.Builder
	for _, b := range c.ctx() {
		sb.WriteString(b + " " + blockArgs[b] + " {\n")
	}
	sb.WriteString(c.Name)
	for _, a := range c.Args {
		sb.WriteString(" " + a)
	}
	if c.Term == "{" {
		sb.WriteString(" {}\n")
	} else {
		sb.WriteString(";\n")
	}
	sb.WriteString(strings.Repeat("}\n", len(c.ctx())))
	fs := FS{mainFile: sb.String()}
	op := Opts{Sources: sources, Single: true, Tables: []map[string][]uint{{}}}
	for _, b := range c.ctx() {
		if b != c.Name {
			op.Tables[0][b] = []uint{0x1ffff0000 | bitBlock | bitAny}
		}
	}
	po := op.parseOptions(fs)
	p, err := cp.Parse(mainFile, po)
	if err != nil {
		return false, "", fmt.Errorf("%q: %v", sb.String(), err)
	}
	bad := ""
	for _, e := range p.Errors {
		if e.Line != nil && *e.Line > len(c.ctx())+1 {
			return false, "", fmt.Errorf("%q: error on line %d: %v", sb.String(), *e.Line, e.Error)
		}
		if e.Line != nil && *e.Line == len(c.ctx())+1 {
			bad = e.Error.Error()
		}
	}
	return bad == "", bad, nil
}

// Doc is one documented syntax.
type Doc struct {
	Name   string
	Ctx    []string
	Counts map[int]bool
	More   int // any number from here on; -1: none
	Flag   bool
	Expr   bool
	Block  bool
	From   []string
}

var docCtx = map[string]string{
	"M": "", "e": "events", "m": "mail", "ms": "mail>server", "S": "stream", "SS": "stream>server", "SU": "stream>upstream",
	"H": "http", "HS": "http>server", "L": "http>location", "U": "http>upstream", "IS": "http>server>if", "IL": "http>location>if", "LE": "http>location>limit_except",
	"G": "mgmt", "O": "http>oidc_provider",
}

var docSources = map[string][]string{
	"core":    {"oss124", "oss126", "oss", "R30", "R31", "R33", "R34", "R35", "R36", "R37", "plus", "default"},
	"126":     {"oss126", "oss", "R33", "R34", "R35", "R36", "R37", "plus", "default"},
	"plus":    {"R30", "R31", "R33", "R34", "R35", "R36", "R37", "plus", "default"},
	"plus33":  {"R33", "R34", "R35", "R36", "R37", "plus", "default"},
	"new":     {"oss", "R37", "plus", "default"},
	"oss":     {"oss", "plus", "default"},
	"R31":     {"R31", "R33", "R34", "R35", "R36", "R37", "plus", "default"},
	"R37":     {"R37", "plus", "default"},
	"R33":     {"oss", "R33", "R34", "R35", "R36", "R37", "plus", "default"},
	"ossonly": {"oss124", "oss126", "oss"},
	"R30":     {"oss", "R30", "R31", "R33", "R34", "R35", "R36", "R37", "plus", "default"},
	"njs":     {"njs", "default"}, "otel": {"otel", "default"}, "lua": {"lua"}, "geoip2": {"geoip2"}, "headersmore": {"headersmore"},
	"nap4": {"nap4"}, "nap5": {"nap5"},
}

func (d Doc) takes(n int) bool { return d.Counts[n] || d.More >= 0 && n >= d.More }

func parseDocs(text string) (out []Doc) {
	for _, l := range strings.Split(text, "\n") {
		if l == "" || l[0] == '#' {
			continue
		}
		f := strings.Split(l, " | ")
		if len(f) != 4 {
			panic("documented.txt: " + l)
		}
		d := Doc{Name: f[0], Counts: map[int]bool{}, More: -1}
		for _, k := range strings.Fields(f[1]) {
			c, ok := docCtx[k]
			if !ok {
				panic("documented.txt: " + l)
			}
			d.Ctx = append(d.Ctx, c)
		}
		a := f[2]
		if a[0] == '{' {
			d.Block = true
			a = strings.Trim(a, "{}")
		}
		for _, p := range strings.Split(a, ",") {
			switch {
			case p == "F":
				d.Flag = true
			case p == "E":
				d.Expr = true
			case strings.HasSuffix(p, "+"):
				d.More = int(p[0] - '0')
			case len(p) == 3 && p[1] == '-':
				for n := int(p[0] - '0'); n <= int(p[2]-'0'); n++ {
					d.Counts[n] = true
				}
			default:
				d.Counts[int(p[0]-'0')] = true
			}
		}
		for _, s := range strings.Fields(f[3]) {
			if docSources[s] == nil {
				panic("documented.txt: " + l)
			}
			d.From = append(d.From, docSources[s]...)
		}
		out = append(out, d)
	}
	return out
}

var docs = parseDocs(documentedText)

// documentedUse says whether the documentation of a release lists the use.
func documentedUse(c useCase, table string) bool {
	for _, d := range docs {
		if !contains(d.From, table) || d.Name != c.Name || d.Block != (c.Term == "{") || !contains(d.Ctx, c.Ctx) {
			continue
		}
		switch {
		case d.Flag && len(c.Args) == 1 && isFlag(c.Args[0]), d.Expr && exprOK(c.Args), d.takes(len(c.Args)):
			return true
		}
	}
	return false
}

func init() {
	Register(Check{Prop: "C18", Name: "names", Quick: 4000,
		Rule: "every name of the recorded tables and every word in the sources: what each of the 20 tables accepts for it over all blocks x argument counts x forms, against the recorded definitions, later releases and the union that is the default; non-trivial: a table knows the name"},
		func(t *rapid.T) tableCase {
			c := tableCase{Name: oneOf(t, candidateNames)}
			if chance(t, 10) {
				b := []byte(c.Name)
				i := intn(t, 0, len(b)-1)
				switch intn(t, 0, 3) {
				case 0:
					b[i] = "_abcsx"[intn(t, 0, 5)]
				case 1:
					b = append(b[:i:i], b[i+1:]...)
				case 2:
					b = append(b, "s_1 "[intn(t, 0, 3)])
				default:
					b = []byte(strings.ToUpper(c.Name))
				}
				c.Name = string(b)
			}
			return c
		},
		func(c tableCase, o *Obs) error {
			for _, t := range sourceNames {
				if _, ok := builtin[t](c.Name); ok {
					o.NonTrivial(true)
				}
			}
			return judgeName(c.Name, o)
		})
	Register(Check{Prop: "C18", Name: "all", Quick: 1, Thorough: 1, Solo: true,
		Rule: "all recorded names and all words in the sources, one after the other, judged as in the names check; non-trivial: always"},
		func(t *rapid.T) tableCase { return tableCase{} },
		func(c tableCase, o *Obs) error {
			o.NonTrivial(true)
			for _, n := range candidateNames {
				if err := judgeName(n, o); err != nil {
					return err
				}
				o.Label("names")
			}
			return nil
		})
	Register(Check{Prop: "C18", Name: "uses", Quick: 12000,
		Rule: "statements (name from the tables x block x arguments x form) parsed under every table of a release chain and under a mix of tables, against the recorded definitions and against later releases; non-trivial: some table accepts the statement"},
		func(t *rapid.T) useCase {
			c := useCase{Ctx: oneOf(t, ctxKeys), Name: oneOf(t, definedNames)}
			s := shapes[intn(t, 0, len(shapes)-1)]
			c.Args, c.Term = s.Args, s.Term
			for n := intn(t, 0, 2); n >= 0; n-- {
				c.Sources = append(c.Sources, oneOf(t, sourceNames))
			}
			if chance(t, 85) {
				// aim at a definition
				var ms []uint
				for i := 0; len(ms) == 0 && i < 5; i++ {
					ms = recorded[oneOf(t, sourceNames)][c.Name]
				}
				if len(ms) == 0 {
					for _, tb := range sourceNames {
						ms = append(ms, recorded[tb][c.Name]...)
					}
				}
				m := ms[intn(t, 0, len(ms)-1)]
				var fit []string
				for _, k := range ctxKeys {
					if m&ctxBits[k] != 0 {
						fit = append(fit, k)
					}
				}
				if len(fit) > 0 && chance(t, 85) {
					c.Ctx = oneOf(t, fit)
				}
				var ws []Word
				ws, c.Term = aim(t, m)
				c.Args = nil
				for i, w := range ws {
					v := w.V
					if strings.Trim(v, "abcdefghijklmnopqrstuvwxyzONF0$()=") != "" || v == "" {
						v = "a" + strconv.Itoa(i)
					}
					c.Args = append(c.Args, v)
				}
			}
			return c
		},
		func(c useCase, o *Obs) error {
			res := map[string]bool{}
			for _, tb := range sourceNames {
				known := recorded[tb][c.Name] != nil
				ok, what, err := c.accepted([]string{tb}, o)
				if err != nil {
					return err
				}
				want := !known || accepts(recorded[tb][c.Name], ctxBits[c.Ctx], Shape{c.Args, c.Term})
				if ok != want {
					return fmt.Errorf("table %s: %s: accepted %v (%s), want %v", tb, toText(c), ok, what, want)
				}
				res[tb] = ok && known
				o.LabelIf(ok && known, "accepted")
				o.LabelIf(!ok, "rejected")
				o.NonTrivial(ok && known)
			}
			for _, l := range later {
				if res[l.a] && !res[l.b] && !contains(l.except, c.Name) {
					return fmt.Errorf("%s is accepted by %s and not by %s", toText(c), l.a, l.b)
				}
			}
			if res["default"] != (res["plus"] || res["njs"] || res["otel"]) {
				return fmt.Errorf("%s: default accepts: %v, plus %v, njs %v, otel %v", toText(c), res["default"], res["plus"], res["njs"], res["otel"])
			}
			var ms []uint
			known := false
			for _, s := range c.Sources {
				ms = append(ms, recorded[s][c.Name]...)
				known = known || recorded[s][c.Name] != nil
			}
			want := !known || accepts(ms, ctxBits[c.Ctx], Shape{c.Args, c.Term})
			ok, what, err := c.accepted(c.Sources, o)
			if err != nil {
				return err
			}
			if ok != want {
				return fmt.Errorf("tables %v: %s: accepted %v (%s), want %v", c.Sources, toText(c), ok, what, want)
			}
			return nil
		})
	Register(Check{Prop: "C18", Name: "documented", Quick: 12000,
		Rule: "uses of core and module directives as the documentation gives them (block, number of arguments, flag, condition, form) and misuses: accepted, or rejected, by every table they belong to; non-trivial: always"},
		func(t *rapid.T) useCase {
			d := docs[intn(t, 0, len(docs)-1)]
			c := useCase{Name: d.Name, Sources: d.From, Ctx: oneOf(t, d.Ctx), Term: ";"}
			if d.Block {
				c.Term = "{"
			}
			var counts []int
			for n := 0; n < 10; n++ {
				if d.takes(n) {
					counts = append(counts, n)
				}
			}
			switch {
			case d.Flag:
				c.Args = []string{oneOf(t, []string{"on", "off", "On", "OFF"})}
			case d.Expr:
				c.Args = [][]string{{"($x)"}, {"($x", "=", "a)"}, {"(", "$x", "!~", "a", ")"}}[intn(t, 0, 2)]
			default:
				for n := oneInt(t, counts); n > 0; n-- {
					c.Args = append(c.Args, oneOf(t, []string{"a", "b", "on", "1"}))
				}
			}
			switch pick(t, 50, 20, 20, 10) {
			case 1:
				c.Ctx = oneOf(t, ctxKeys)
			case 2:
				c.Args = strings.Fields(strings.Repeat("a ", intn(t, 0, 8)))
			case 3:
				c.Term = oneOf(t, []string{";", "{"})
			}
			return c
		},
		func(c useCase, o *Obs) error {
			o.NonTrivial(true)
			for _, s := range c.Sources {
				want := documentedUse(c, s)
				ok, what, err := c.accepted([]string{s}, o)
				if err != nil {
					return err
				}
				o.LabelIf(ok, "accepted")
				o.LabelIf(!ok, "rejected")
				if ok != want {
					return fmt.Errorf("table %s: %s: accepted %v (%s), documented %v", s, toText(c), ok, what, want)
				}
			}
			return nil
		})
}

func toText(c useCase) string {
	return fmt.Sprintf("%q in block %q", c.Name+" "+strings.Join(c.Args, " ")+c.Term, c.Ctx)
}
