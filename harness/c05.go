package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

const mainFile = "/etc/nginx/nginx.conf"

// bytesCase is a set of files of arbitrary bytes.
type bytesCase struct {
	Main  []byte
	Rep   int               `json:",omitempty"` // the main file is repeated this many more times
	Files map[string][]byte `json:",omitempty"`
	Chain int               `json:",omitempty"` // number of files that include each other in a chain
	O     Opts
	F     Fmt
}

func (c bytesCase) fs() FS {
	fs := FS{mainFile: strings.Repeat(string(c.Main), c.Rep+1)}
	for n, b := range c.Files {
		fs[n] = string(b)
	}
	for i := 0; i < c.Chain; i++ {
		s := fmt.Sprintf("x %d;\n", i)
		if i+1 < c.Chain {
			s += fmt.Sprintf("include chain%d;\n", i+1)
		}
		fs[fmt.Sprintf("/etc/nginx/chain%d", i)] = s
	}
	return fs
}

// wellFormed checks what every payload has to satisfy.
func wellFormed(p *cp.Payload, fs FS, o Opts) error {
	if p == nil {
		return fmt.Errorf("neither payload nor error")
	}
	if p.Status != status(len(p.Errors)) {
		return fmt.Errorf("status %q with %d errors", p.Status, len(p.Errors))
	}
	if len(p.Config) == 0 || p.Config[0].File != mainFile {
		return fmt.Errorf("the main file is not the first configuration: %v", fileNames(p))
	}
	if o.Combine && len(p.Config) != 1 {
		return fmt.Errorf("%d configurations after combining", len(p.Config))
	}
	if o.Stop && len(p.Errors) > 0 {
		return fmt.Errorf("payload with errors although parsing stops at errors")
	}
	lines := func(file string) int { return strings.Count(fs[file], "\n") + 1 }
	k := 0
	seen := map[string]bool{}
	for i := range p.Config {
		c := &p.Config[i]
		if _, ok := fs[c.File]; !ok || seen[c.File] {
			return fmt.Errorf("configuration of %q is repeated or of no file", c.File)
		}
		seen[c.File] = true
		if c.Status != status(len(c.Errors)) {
			return fmt.Errorf("%s: status %q with %d errors", c.File, c.Status, len(c.Errors))
		}
		for _, e := range c.Errors {
			if k >= len(p.Errors) {
				return fmt.Errorf("%s: error %v is not among the errors of the payload", c.File, e.Error)
			}
			pe := p.Errors[k]
			k++
			if pe.Error != e.Error || pint(pe.Line) != pint(e.Line) || !o.Combine && pe.File != c.File {
				return fmt.Errorf("payload error %v of %s, configuration error %v of %s", pe.Error, pe.File, e.Error, c.File)
			}
			perr := asParseError(e.Error)
			if perr == nil || perr.File == nil || perr.Line == nil || perr.What == "" {
				return fmt.Errorf("%s: error %#v without a message, file or line", c.File, e.Error)
			}
			if *perr.File != pe.File || pint(perr.Line) != pint(e.Line) {
				return fmt.Errorf("error %v is listed for %s line %s", perr, pe.File, pint(pe.Line))
			}
			if _, ok := fs[pe.File]; !ok || *perr.Line < 1 || *perr.Line > lines(pe.File) {
				return fmt.Errorf("error %v is outside its file", perr)
			}
		}
		var walk func(ds cp.Directives, inMap bool) error
		walk = func(ds cp.Directives, inMap bool) error {
			for _, d := range ds {
				file := c.File
				if o.Combine {
					file = d.File
				} else if d.File != "" {
					return fmt.Errorf("%s: directive %q has file %q", c.File, d.Directive, d.File)
				}
				if _, ok := fs[file]; !ok || d.Line < 1 || d.Line > lines(file) {
					return fmt.Errorf("directive %q at %s:%d is outside its file", clip(d.Directive, 100), file, d.Line)
				}
				if d.Args == nil || d.IsMapBlockParameter && !inMap {
					return fmt.Errorf("directive %q: args %v, map parameter %v", clip(d.Directive, 100), d.Args, d.IsMapBlockParameter)
				}
				if d.Comment != nil && (!o.Comments || d.Directive != "#" || len(d.Args) > 0 || d.Block != nil) {
					return fmt.Errorf("directive %q with comment %q", d.Directive, *d.Comment)
				}
				for _, i := range d.Includes {
					if i < 0 || !o.Combine && i >= len(p.Config) || d.Directive != "include" || o.Single {
						return fmt.Errorf("directive %q with includes %v", d.Directive, d.Includes)
					}
				}
				if err := walk(d.Block, contains(mapKinds, d.Directive)); err != nil {
					return err
				}
			}
			return nil
		}
		// an included file continues the block of its include
		if err := walk(c.Parsed, true); err != nil {
			return err
		}
	}
	if k != len(p.Errors) {
		return fmt.Errorf("%d errors in the configurations, %d in the payload", k, len(p.Errors))
	}
	return nil
}

func runBytes(c bytesCase, o *Obs) error {
	fs := c.fs()
	before := runtime.NumGoroutine()
	p, err := cp.Parse(mainFile, c.O.parseOptions(fs))
	if n := settle(before); n > 0 {
		return fmt.Errorf("%d goroutines left over after parsing", n)
	}
	where := func() string { return fmt.Sprintf("text %q: ", clip(fs[mainFile], 2000)) }
	if err != nil {
		if p != nil {
			return fmt.Errorf("%spayload together with error %v", where(), err)
		}
		_ = err.Error()
		o.Label("error")
		o.NonTrivial(len(c.Main) > 2)
		return nil
	}
	if err := wellFormed(p, fs, c.O); err != nil {
		return fmt.Errorf("%s%w", where(), err)
	}
	o.Label("status " + p.Status)

	// what can be done with a payload does not panic either
	if _, err := toJSON(p); err != nil {
		return fmt.Errorf("%s%w", where(), err)
	}
	depth, n := 0, 0
	for _, k := range p.Config {
		m, d := countDirs(k.Parsed)
		n += m
		if d > depth {
			depth = d
		}
	}
	f := c.F
	if f.Indent > 1 && n*depth*f.Indent > 4<<20 {
		f.Indent = 1
	}
	for _, k := range p.Config {
		if err := cp.Build(io.Discard, k, f.options()); err != nil {
			return fmt.Errorf("%sbuild: %w", where(), err)
		}
		for _, d := range k.Parsed {
			if !d.Equal(d) {
				return fmt.Errorf("%s%q does not equal itself", where(), d.Directive)
			}
			_ = d.String()
		}
	}
	if !c.O.Combine {
		q, err := p.Combined()
		if err != nil {
			return fmt.Errorf("%scombine: %w", where(), err)
		}
		if q.Status != p.Status || len(q.Errors) != len(p.Errors) {
			return fmt.Errorf("%scombining changes status %q with %d errors to %q with %d", where(), p.Status, len(p.Errors), q.Status, len(q.Errors))
		}
	}
	if n := settle(before); n > 0 {
		return fmt.Errorf("%s%d goroutines left over after using the payload", where(), n)
	}
	o.LabelIf(n > 700, "statements>700")
	o.LabelIf(depth > 100, "depth>100")
	o.LabelIf(len(p.Config) > 1, "several files")
	o.NonTrivial(len(c.Main) > 2 && (n > 0 || len(p.Errors) > 0))
	return nil
}

var byteSegs = []string{
	"include f1;", "include f2;", "include *;", "include f*;", "include f9;", "include [;", "include;", "include nginx.conf;", "include /etc/nginx/f1;", "include chain0;",
	"http {", "server {", "location / {", "if ($x) {", "if () {", "if (", "if", "()", "(", ")", "map a b {", "types {", "geo $x {", "events {}", "x {", "}", "{", ";", "}",
	"content_by_lua_block {", "set_by_lua_block $a {", "set_by_lua_block", "content_by_lua_block", "-- c", "--[[", "]]", "[=[", "]=]", "'", "\"", "return '}'",
	"listen 80;", "user a;", "a b;", "# c\n", "default 1;", "hostnames;", "\\", "${", "}", "$", "\xff", "\xc3", "\x00", "\xe2\x80\xa8", "\r", "\n", "\n", " ", " ", "\t", "é",
	"\xed\xa0\x80", "\xf4\x90\x80\x80",
}

// oddPaths are arguments of include directives in which something is missing.
var oddPaths = []string{
	"~/", "~", "~a", "/", "//", ".", "..", "./", "../", "/.", "...", "\"\"", "''", "$", "$x/", "${x}", "C:", "\\", "\\/", "*/", "/*", "?", "[]", "[a", "]", "[^]", "[a-]", "[-a]", "{}x", "a/", "f1/", "f1/..", "-", "~/*", "#", "%", "%s", "!", "@", ":", "a:b", "file:///f1",
	"\"f1 \"", "\" \"", "\"\\n\"", "\x00", "\xff", "é/", "unix:", "||", "|", "<f1", "`f1`", "$HOME/f1", "f1,f2", "f1;f2", "=", "+", "^",
}

func genBytes(t *rapid.T) []byte {
	switch pick(t, 45, 20, 15, 10, 10) {
	case 0:
		var sb strings.Builder
		n := intn(t, 0, 14)
		if chance(t, 5) {
			n = intn(t, 50, 400)
		}
		for ; n > 0; n-- {
			if chance(t, 4) {
				sb.WriteString("include " + oneOf(t, oddPaths) + oneOf(t, []string{"", "", " "}) + ";")
				continue
			}
			sb.WriteString(oneOf(t, byteSegs))
			if chance(t, 60) {
				sb.WriteString(" ")
			}
		}
		return []byte(sb.String())
	case 1:
		g := &treeGen{comments: true, known: chance(t, 70), budget: 12}
		g.include = func(t *rapid.T, ctx []string) *Node {
			return &Node{N: bare("include"), A: []Word{bare(oneOf(t, []string{"f1", "f2", "f*", "f9", "chain0"}))}}
		}
		return []byte(genConf(t, g, nil).render().text)
	case 2:
		g := &treeGen{comments: true, known: chance(t, 70), budget: 12}
		b := []byte(genConf(t, g, nil).render().text)
		for k := intn(t, 1, 4); k > 0 && len(b) > 0; k-- {
			i := intn(t, 0, len(b)-1)
			switch pick(t, 1, 1, 1, 1) {
			case 0:
				b[i] = byte(intn(t, 0, 255))
			case 1:
				b = append(b[:i], b[i+1:]...)
			case 2:
				b = append(b[:i:i], append([]byte(oneOf(t, byteSegs)), b[i:]...)...)
			case 3:
				b = b[:i]
			}
		}
		return b
	case 3:
		return []byte(genSoup(t))
	default:
		return rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")
	}
}

func genBytesCase(t *rapid.T) bytesCase {
	c := bytesCase{Main: genBytes(t), O: genOpts(t), F: genFmt(t)}
	if chance(t, 50) {
		c.Files = map[string][]byte{}
		for i := 1; i <= 3; i++ {
			if chance(t, 70) {
				b := genBytes(t)
				// sharing files between many includes multiplies what combining gives
				if i > 1 {
					b = bytes.ReplaceAll(b, []byte("include"), []byte("includ"))
				}
				c.Files[fmt.Sprintf("/etc/nginx/f%d", i)] = b
			}
		}
	}
	if chance(t, 5) {
		c.Chain = intn(t, 2, 60)
	}
	return c
}

func init() {
	Register(Check{Prop: "C05", Name: "bytes", Quick: 200000,
		Rule: "1-4 files of arbitrary or mutated bytes x random options; non-trivial: more than 2 bytes and something is parsed or rejected"},
		genBytesCase, runBytes)
	Register(Check{Prop: "C05", Name: "deep", Quick: 24, Thorough: 240,
		Rule: "blocks nested up to 3000000 deep, of any kind: parsing ends, in an error or a payload, without exhausting the stack; non-trivial: all"},
		func(t *rapid.T) bytesCase {
			c := bytesCase{O: genOpts(t)}
			c.O.Combine = false
			c.Main = []byte(oneOf(t, []string{"x{", "server{", "location / {", "x_foo {", "http {", "a b{", "if ($x){", "map a b {", "content_by_lua_block {", "x \n{", "\"{\" {", "{", "types {a {"}))
			if chance(t, 50) {
				c.O.Ignore = append(c.O.Ignore, strings.Trim(string(c.Main), " {/"))
			}
			if chance(t, 30) {
				c.O.ErrUnknown = true
			}
			c.Rep = oneInt(t, []int{1 << 12, 1 << 16, 1 << 20, 3000000, 3000000})
			return c
		},
		func(c bytesCase, o *Obs) error {
			fs := c.fs()
			p, err := cp.Parse(mainFile, c.O.parseOptions(fs))
			if (p == nil) == (err == nil) {
				return fmt.Errorf("payload %v with error %v", p, err)
			}
			o.LabelIf(err != nil, "error")
			o.NonTrivial(true)
			return nil
		})
	Register(Check{Prop: "C05", Name: "large", Quick: 1200,
		Rule: "a short text repeated up to 200000 bytes, or a chain of up to 400 included files; non-trivial: more than 2 bytes and something is parsed or rejected"},
		func(t *rapid.T) bytesCase {
			c := bytesCase{O: genOpts(t), F: Fmt{Indent: 1}}
			for n := intn(t, 1, 2); n > 0; n-- {
				if chance(t, 70) {
					c.Main = append(c.Main, oneOf(t, byteSegs)...)
				} else {
					c.Main = append(c.Main, oneOf(t, []string{"a{", "a b{", "{}", "\"x\"", "a;", "a b\n", "${x}", "\\{", "if(", "'\\''", "content_by_lua_block{}"})...)
				}
				if chance(t, 50) {
					c.Main = append(c.Main, ' ')
				}
			}
			if chance(t, 20) {
				c.Main = []byte("include chain0;")
				c.Chain = intn(t, 50, 400)
				return c
			}
			max := 200000
			if bytes.Contains(c.Main, []byte("include")) {
				max = 20000
			}
			c.Rep = intn(t, 1, max/len(c.Main))
			return c
		}, runBytes)
}
