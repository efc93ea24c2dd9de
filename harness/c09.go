package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

// filesCase is a set of files; paths that do not start with "/" are relative to /etc/nginx.
type filesCase struct {
	Files map[string]string
	Main  string `json:",omitempty"` // in memory: the path of the main file, if it is not the usual one
	Rel   bool   `json:",omitempty"` // on disk: the main file is given by a relative path
	O     Opts
}

const confDir = "/etc/nginx"

// main gives the path of the main file.
func (c filesCase) main() string {
	if c.Main != "" {
		return c.Main
	}
	return mainFile
}

func (c filesCase) fs() FS {
	fs := FS{}
	dir := filepath.Dir(c.main())
	for n, s := range c.Files {
		if c.Main != "" {
			s = strings.ReplaceAll(s, confDir+"/", filepath.Join(dir, "x")[:len(filepath.Join(dir, "x"))-1])
		}
		if n == "nginx.conf" {
			fs[c.main()] = s
		}
		if !filepath.IsAbs(n) {
			n = filepath.Join(dir, n)
		}
		fs[n] = s
	}
	return fs
}

// mainNames are other paths of the main file.
var mainNames = []string{
	"/nginx.conf", "nginx.conf", "./nginx.conf", "sub/nginx.conf", "../nginx.conf", "../../x/nginx.conf", "/etc//nginx/nginx.conf", "/etc/./nginx/nginx.conf", "/etc/x/../nginx/nginx.conf", "//nginx.conf",
	"/opt/nginx.conf", "/etc/nginx/main", "/etc/nginx/[x]/nginx.conf", "/a b/nginx.conf", "/é/nginx.conf", "etc/nginx/nginx.conf", "conf.d/nginx.conf", "/etc/nginx/*.conf", `/a\b/nginx.conf`, "/nginx.conf/nginx.conf", ".nginx.conf",
}

var fileNamesPool = []string{"a.conf", "b.conf", "conf.d/1.conf", "conf.d/2.conf", "conf.d/10.conf", "sub/x/y.conf", "sub/z.conf", "/opt/z.conf", "/opt/w.conf", "conf.d/é.conf", "x y.conf"}

// oddFileNames are sorted, matched or read as patterns in another way by some.
var oddFileNames = []string{
	"B.conf", "A.conf", "Z.conf", "_.conf", "conf.d/B.conf", "conf.d/a.conf", "conf.D/1.conf", "conf.d/01.conf", "conf.d/1-1.conf", "sub-a/z.conf", "sub.x/z.conf", "sub/a/b.conf", "conf/1.conf",
	`c\d.conf`, `c\x`, "e{f}.conf", "g{h,i}.conf", "e{x", "$x.conf", "${x}.conf", "#k.conf", `q"q.conf`, "q'q.conf", "l;m.conf", "~n.conf", "~a/n.conf", "%41.conf", "%s.conf", ".h.conf", "a.conf.bak", "a.conf~", "ä.conf", "z.conf ", "日.conf",
	"a+b.conf", "(a).conf", "a|b.conf", "^a.conf", "!a.conf", "a]b", "-.conf", "a.con/b", "x/a.conf",
}

var includePatterns = []string{
	"a.conf", "b.conf", "conf.d/1.conf", "conf.d/2.conf", "sub/x/y.conf", "sub/z.conf", "/opt/z.conf", "/etc/nginx/a.conf", "./b.conf", "conf.d/../a.conf", "x y.conf",
	"conf.d/*.conf", "*.conf", "conf.d/?.conf", "conf.d/[12].conf", "sub/*/*.conf", "*/*.conf", "/opt/*.conf", "/etc/nginx/conf.d/*.conf", "[ab].conf", "conf.d/[^1].conf", "sub/[!a].conf",
	"[A-Z].conf", "[a-z]*.conf", "conf.[dD]/*.conf", "sub*/*.conf", `*\\*`, `c[\\]d.conf`, "*{*", "*}.conf", "$*", "#*.conf", "*;*", "conf*/1*.conf", "conf*/[0-9]*", ".*.conf", "*~", "*.conf*", "~*/*", "x/*",
	"nope.conf", "conf.d/nope.conf", "/nope/x.conf", "nope*.conf", "nope/*.conf", "/nope*/x", "[", "conf.d/[1", "a[", "nginx.conf", "../nginx/b.conf",
}

// incGen draws files that include each other.
type incGen struct {
	names  []string // pool of files, in an order such that each includes only later ones
	cyclic bool
	at     int // file being drawn
}

// target draws the argument of an include: an exact name of a later file, or a pattern.
func (g *incGen) target(t *rapid.T) string {
	later := g.names[g.at+1:]
	if g.cyclic && chance(t, 15) {
		later = g.names
	}
	if len(later) > 0 && chance(t, 70) {
		return oneOf(t, later)
	}
	p := oneOf(t, includePatterns)
	if g.cyclic {
		return p
	}
	// a pattern that matches earlier files would close a cycle
	full := p
	if !filepath.IsAbs(p) {
		full = filepath.Join(confDir, p)
	}
	for _, n := range append([]string{"nginx.conf"}, g.names[:g.at+1]...) {
		if !filepath.IsAbs(n) {
			n = filepath.Join(confDir, n)
		}
		if ok, _ := filepath.Match(full, n); ok {
			if len(later) > 0 {
				return oneOf(t, later)
			}
			return "nope*.conf"
		}
	}
	return p
}

func (g *incGen) stmt(t *rapid.T) string {
	w := spell(t, g.target(t))
	s := "include " + w.S + ";"
	if chance(t, 2) {
		s = oneOf(t, []string{"include;", "include a.conf b.conf;", "include \"\";", "include a.conf {}"})
	}
	return s
}

var ctxBlocks = []string{"http", "server", "location /", "if ($x)", "x", "x_foo", "map $a $b", "upstream u", "stream", "types", "limit_except GET", "events", "mail", "geo $g", "mgmt", "oidc_provider p"}
var ctxStmts = []string{"listen 80", "x 1", "x 2", "return 200", "user a", "server a", "default 1", "a b c", "gzip on", "deny all", "set $a b", "server_name a", "y", "y", "y a b", "z 1"}

// text draws statements and blocks with includes in them, mostly without regard to where they are allowed.
func (g *incGen) text(t *rapid.T, depth int) string {
	var sb strings.Builder
	for n := intn(t, 1, 4); n > 0; n-- {
		switch pick(t, 30, 35, 35) {
		case 0:
			sb.WriteString(oneOf(t, ctxStmts) + ";")
		case 1:
			sb.WriteString(g.stmt(t))
		case 2:
			if depth >= 7 {
				sb.WriteString(oneOf(t, ctxStmts) + ";")
				break
			}
			sb.WriteString(oneOf(t, ctxBlocks) + " {\n" + g.text(t, depth+1))
			if chance(t, 4) {
				sb.WriteString(oneOf(t, ctxStmts))
			}
			sb.WriteString("}")
		}
		sb.WriteString(oneOf(t, []string{"\n", " ", "\n\n"}))
		if chance(t, 8) {
			sb.WriteString("#" + genCommentText(t) + oneOf(t, []string{"\n", "\n  "}))
		}
	}
	return sb.String()
}

// nested draws a chain of blocks with includes at each level, before and after.
func (g *incGen) nested(t *rapid.T) string {
	var sb strings.Builder
	chain := validCtxs[intn(t, 0, len(validCtxs)-1)]
	if chance(t, 40) {
		chain = nil
		for n := intn(t, 2, 8); n > 0; n-- {
			chain = append(chain, strings.Fields(oneOf(t, ctxBlocks))[0])
		}
	}
	var end string
	for _, b := range chain {
		if chance(t, 40) {
			sb.WriteString(g.stmt(t) + "\n")
		}
		for _, k := range ctxBlocks {
			if strings.HasPrefix(k, b+" ") {
				b = k
				break
			}
		}
		if strings.TrimSpace(b) == "" || strings.HasSuffix(b, " ") {
			b = "x"
		}
		sb.WriteString(b + " {\n")
		tail := "}\n"
		if chance(t, 40) {
			tail += oneOf(t, ctxBlocks) + " {" + oneOf(t, []string{"", "x 1; ", g.stmt(t)}) + "}\n"
		}
		if chance(t, 25) {
			tail += g.stmt(t) + "\n"
		}
		end = tail + end
	}
	return sb.String() + g.stmt(t) + "\n" + g.text(t, 6) + end
}

func genFiles(t *rapid.T, cyclic bool) map[string]string {
	g := &incGen{cyclic: cyclic}
	for _, n := range fileNamesPool {
		if chance(t, 65) {
			g.names = append(g.names, n)
		}
	}
	if chance(t, 35) {
		for n := intn(t, 1, 5); n > 0; n-- {
			if x := oneOf(t, oddFileNames); !contains(g.names, x) {
				g.names = append(g.names, x)
			}
		}
	}
	files := map[string]string{}
	for i := -1; i < len(g.names); i++ {
		g.at = i
		name := "nginx.conf"
		if i >= 0 {
			name = g.names[i]
		}
		switch pick(t, 30, 30, 25, 15) {
		case 0:
			files[name] = g.text(t, 5)
		case 1:
			files[name] = g.nested(t)
		case 2:
			files[name] = g.text(t, 1)
		case 3:
			tg := &treeGen{comments: chance(t, 50), known: true, budget: 12}
			tg.include = func(t *rapid.T, ctx []string) *Node {
				return &Node{N: bare("include"), A: []Word{spell(t, g.target(t))}}
			}
			files[name] = genConf(t, tg, nil).render().text
		}
	}
	return files
}

func includeOpts(t *rapid.T) Opts {
	o := Opts{Comments: chance(t, 30), Single: chance(t, 7), Stop: chance(t, 7)}
	switch pick(t, 40, 40, 20) {
	case 1:
		o.SkipCtx, o.SkipArgs, o.ErrUnknown = true, true, chance(t, 40)
	case 2:
		o.SkipCtx, o.SkipArgs, o.ErrUnknown = chance(t, 50), chance(t, 50), chance(t, 40)
	}
	if chance(t, 15) {
		o.Ignore = []string{oneOf(t, []string{"server", "x", "include", "location", "map"})}
	}
	return o
}

func labelIncludes(p *cp.Payload, o *Obs) {
	n, deep, shared, multi := 0, false, false, false
	seen := map[int]bool{}
	for _, c := range p.Config {
		walkDirs(c.Parsed, 0, func(d *cp.Directive, depth int) {
			if len(d.Includes) > 0 {
				n++
				deep = deep || depth >= 3
			}
			multi = multi || len(d.Includes) > 1
			for _, i := range d.Includes {
				shared = shared || seen[i]
				seen[i] = true
			}
		})
	}
	o.LabelIf(deep, "include inside 3 or more blocks")
	o.LabelIf(shared, "file included more than once")
	o.LabelIf(multi, "include of several files")
	o.LabelIf(len(p.Config) > 3, "more than 3 files")
	o.LabelIf(p.Status == "failed", "with errors")
	o.NonTrivial(n > 0 && len(p.Config) > 1)
}

func runIncludes(c filesCase, o *Obs) error {
	fs := c.fs()
	want := refParse(fs, c.main(), c.O)
	po := c.O.parseOptions(fs)
	var opened []string
	po.Open = func(path string) (io.ReadCloser, error) {
		opened = append(opened, path)
		return fs.open(path)
	}
	p, err := cp.Parse(c.main(), po)
	if e := diffPayload(p, err, want); e != nil {
		return fmt.Errorf("files %q: %w", c.Files, e)
	}
	if c.O.Single && fmt.Sprint(opened) != fmt.Sprint([]string{c.main()}) {
		return fmt.Errorf("files %q: single-file parsing opens %v", c.Files, opened)
	}
	if err != nil {
		o.Label("error")
		return nil
	}
	for _, f := range opened {
		if _, ok := fs[f]; ok && !contains(fileNames(p), f) {
			return fmt.Errorf("files %q: %q is opened but not in the payload", c.Files, f)
		}
	}
	o.LabelIf(c.Main != "", "another main file")
	labelIncludes(p, o)
	return nil
}

// scratchDir gives a fresh directory inside the scratch directory of the worker.
func scratchDir() string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		panic(infraError{fmt.Errorf("no scratch directory")})
	}
	d, err := os.MkdirTemp(base, "case")
	if err != nil {
		panic(infraError{err})
	}
	return d
}

func must(err error) {
	if err != nil {
		panic(infraError{err})
	}
}

func writeFiles(files map[string]string) {
	for n, s := range files {
		must(os.MkdirAll(filepath.Dir(n), 0o755))
		must(os.WriteFile(n, []byte(s), 0o644))
	}
}

// runDisk uses the default ways to open files and to find those that match a pattern.
func runDisk(c filesCase, o *Obs) error {
	dir := scratchDir()
	defer os.RemoveAll(dir)
	etc := dir + confDir
	disk := map[string]string{}
	ref := FS{}
	for n, s := range c.Files {
		// absolute includes have to stay inside the scratch directory
		s = strings.ReplaceAll(s, "/etc/nginx/", etc+"/")
		s = strings.ReplaceAll(s, `include ""`, "include nope.conf") // it would name the directory
		for _, d := range []string{"/opt/", "/nope/", "/nope*/"} {
			s = strings.ReplaceAll(s, d, dir+d)
		}
		rel := ""
		if filepath.IsAbs(n) {
			n = dir + n
		} else {
			rel = filepath.Clean(n)
			n = filepath.Join(etc, n)
		}
		disk[n] = s
		ref[n] = s
		if c.Rel && rel != "" {
			ref[rel] = s
			ref["../nginx/"+rel] = s
		}
	}
	writeFiles(disk)
	name := etc + "/nginx.conf"
	if c.Rel {
		wd, err := os.Getwd()
		must(err)
		must(os.Chdir(etc))
		defer func() { must(os.Chdir(wd)) }()
		name = "nginx.conf"
	}
	want := refParse(ref, name, c.O)
	po := c.O.parseOptions(nil)
	p, err := cp.Parse(name, po)
	if po.Glob != nil || po.Open != nil {
		return fmt.Errorf("the options are changed")
	}
	if e := diffPayload(p, err, want); e != nil {
		return fmt.Errorf("files %q: %w", disk, e)
	}
	if err != nil {
		o.Label("error")
		return nil
	}
	o.LabelIf(c.Rel, "relative main file")
	labelIncludes(p, o)
	return nil
}

func init() {
	Register(Check{Prop: "C09", Name: "memory", Quick: 120000,
		Rule: "up to 12 files that include each other from random blocks by names and patterns, against the reference parser; non-trivial: an include names a file"},
		func(t *rapid.T) filesCase {
			c := filesCase{Files: genFiles(t, chance(t, 10)), O: includeOpts(t)}
			if chance(t, 12) {
				c.Main = oneOf(t, mainNames)
			}
			if chance(t, 15) {
				// absolute names are as they are written
				to := oneOf(t, []string{"//opt/", "/opt/./", "/opt//", "/x/../opt/", "/Opt/", "/opt /", "/./opt/", "/../opt/"})
				for _, n := range sortedKeys(c.Files) {
					text := strings.ReplaceAll(c.Files[n], "/opt/", to)
					delete(c.Files, n)
					c.Files[strings.ReplaceAll(n, "/opt/", to)] = text
				}
			}
			return c
		},
		runIncludes)
	Register(Check{Prop: "C09", Name: "disk", Quick: 8000,
		Rule: "the same on disk with the default Open and Glob, the main file given by an absolute or relative path; non-trivial: an include names a file"},
		func(t *rapid.T) filesCase {
			return filesCase{Files: genFiles(t, chance(t, 10)), O: includeOpts(t), Rel: chance(t, 40)}
		},
		runDisk)
}
