package main

import (
	"bytes"
	"errors"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/nginxinc/nginx-go-crossplane/internal/generator"
	"pgregory.net/rapid"
)

// CEntry is an entry of a command table.
type CEntry struct {
	Name string
	Bits []string // as in C
	Rest string
}

// CPart is a piece of a C file: a command table, or other code.
type CPart struct {
	Other   string   `json:",omitempty"`
	Table   string   `json:",omitempty"` // name of the array
	Prefix  string   `json:",omitempty"`
	Entries []CEntry `json:",omitempty"`
	Gaps    []string `json:",omitempty"` // used in turn between the tokens
	Between []string `json:",omitempty"` // used in turn between the entries
}

// CFile is a file of the source tree.
type CFile struct {
	Path  string
	Parts []CPart
	CRLF  bool `json:",omitempty"`
	// places (modulo the length of the text) in which a backslash and a line end are put, which join two lines into
	// one and so change nothing wherever they are
	Splices []int `json:",omitempty"`
}

type genCase struct {
	Files    []CFile
	Single   bool // the path given is that of the first file
	Filter   []string
	Override map[string][][]string
	Comment  string
	Map, Fn  string
	Fault    string // "", "writer": the output cannot be written; "unreadable": a source file cannot be read, "link": a link to a missing file, "closed": a directory that cannot be read
	Cut      int
}

// cBits maps the constants of NGINX to those of the package and their values.
var cBits = map[string]struct {
	Go  string
	Val uint64
}{
	"NGX_CONF_NOARGS": {"ngxConfNoArgs", 1}, "NGX_CONF_TAKE1": {"ngxConfTake1", 2}, "NGX_CONF_TAKE2": {"ngxConfTake2", 4}, "NGX_CONF_TAKE3": {"ngxConfTake3", 8},
	"NGX_CONF_TAKE4": {"ngxConfTake4", 16}, "NGX_CONF_TAKE5": {"ngxConfTake5", 32}, "NGX_CONF_TAKE6": {"ngxConfTake6", 64}, "NGX_CONF_TAKE7": {"ngxConfTake7", 128},
	"NGX_CONF_TAKE12": {"ngxConfTake12", 6}, "NGX_CONF_TAKE13": {"ngxConfTake13", 10}, "NGX_CONF_TAKE23": {"ngxConfTake23", 12}, "NGX_CONF_TAKE123": {"ngxConfTake123", 14},
	"NGX_CONF_TAKE1234": {"ngxConfTake1234", 30}, "NGX_CONF_BLOCK": {"ngxConfBlock", bitBlock}, "NGX_CONF_FLAG": {"ngxConfFlag", bitFlag}, "NGX_CONF_ANY": {"ngxConfAny", bitAny},
	"NGX_CONF_1MORE": {"ngxConf1More", bit1More}, "NGX_CONF_2MORE": {"ngxConf2More", bit2More},
	"NGX_DIRECT_CONF": {"ngxDirectConf", 1 << 16}, "NGX_MAIN_CONF": {"ngxMainConf", 1 << 18}, "NGX_EVENT_CONF": {"ngxEventConf", 1 << 19},
	"NGX_MAIL_MAIN_CONF": {"ngxMailMainConf", 1 << 20}, "NGX_MAIL_SRV_CONF": {"ngxMailSrvConf", 1 << 21}, "NGX_STREAM_MAIN_CONF": {"ngxStreamMainConf", 1 << 22},
	"NGX_STREAM_SRV_CONF": {"ngxStreamSrvConf", 1 << 23}, "NGX_STREAM_UPS_CONF": {"ngxStreamUpsConf", 1 << 24}, "NGX_HTTP_MAIN_CONF": {"ngxHTTPMainConf", 1 << 25},
	"NGX_HTTP_SRV_CONF": {"ngxHTTPSrvConf", 1 << 26}, "NGX_HTTP_LOC_CONF": {"ngxHTTPLocConf", 1 << 27}, "NGX_HTTP_UPS_CONF": {"ngxHTTPUpsConf", 1 << 28},
	"NGX_HTTP_SIF_CONF": {"ngxHTTPSifConf", 1 << 29}, "NGX_HTTP_LIF_CONF": {"ngxHTTPLifConf", 1 << 30}, "NGX_HTTP_LMT_CONF": {"ngxHTTPLmtConf", 1 << 31},
	"NGX_ANY_CONF": {"ngxAnyConf", 0xfffc0000}, // all but mgmt and oidc_provider, which NGINX has no bits for
}

var cBitNames = sortedKeys(cBits)

// goVals gives the value of each constant an override may name.
var goVals = func() map[string]uint64 {
	out := map[string]uint64{"ngxConfExpr": bitExpr, "ngxMgmtMainConf": 1 << 17, "ngxHTTPOIDCConf": 1 << 32}
	for _, b := range cBits {
		out[b.Go] = b.Val
	}
	return out
}()

var goNames = sortedKeys(goVals)

// ---------------------------------------------------------------- C text

type cWriter struct {
	sb   strings.Builder
	part *CPart
	i, j int
}

func (w *cWriter) gap(needed bool) {
	if len(w.part.Gaps) > 0 {
		g := w.part.Gaps[w.i%len(w.part.Gaps)]
		w.i++
		w.sb.WriteString(g)
		needed = needed && g == ""
	}
	if needed {
		w.sb.WriteByte(' ')
	}
}

func (w *cWriter) between() {
	if len(w.part.Between) > 0 {
		w.sb.WriteString(w.part.Between[w.j%len(w.part.Between)])
		w.j++
	}
}

// toks writes tokens with a gap before each.
func (w *cWriter) toks(ts ...string) {
	for _, t := range ts {
		w.gap(false)
		w.sb.WriteString(t)
	}
}

func (f CFile) text() string {
	w := &cWriter{}
	for i := range f.Parts {
		p := &f.Parts[i]
		w.part, w.i, w.j = p, 0, 0
		if p.Table == "" {
			w.sb.WriteString(p.Other + "\n")
			continue
		}
		w.sb.WriteString(p.Prefix + "ngx_command_t")
		w.gap(true)
		w.sb.WriteString(p.Table)
		w.toks("[", "]", "=", "{")
		for _, e := range p.Entries {
			w.between()
			w.toks("{", "ngx_string", "(", strconv.Quote(e.Name), ")", ",")
			for k, b := range e.Bits {
				if k > 0 {
					w.toks("|")
				}
				w.toks(b)
			}
			w.gap(false)
			w.sb.WriteString(e.Rest)
			w.toks("}", ",")
		}
		w.between()
		w.toks("ngx_null_command", "}", ";")
		w.sb.WriteByte('\n')
	}
	s := w.sb.String()
	var at []int
	for _, n := range f.Splices {
		at = append(at, n%(len(s)+1))
	}
	sort.Sort(sort.Reverse(sort.IntSlice(at))) // from the end, so that none is within another
	for _, n := range at {
		s = s[:n] + "\\\n" + s[n:]
	}
	if f.CRLF {
		s = strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\n", "\r\n")
	}
	return s
}

func (f CFile) source() bool {
	return strings.HasSuffix(f.Path, ".c") || strings.HasSuffix(f.Path, ".cpp")
}

// expected gives the definitions the tree has, each as its constants in Go, or an error.
func (c genCase) expected() (map[string][]string, error) {
	out := map[string][]string{}
	files := c.Files
	if c.Single {
		files = files[:1]
	}
	for _, f := range files {
		if !f.source() {
			continue
		}
		for _, p := range f.Parts {
			for _, e := range p.Entries {
				var bits []string
				for _, b := range e.Bits {
					g, ok := cBits[b]
					if !ok {
						return nil, fmt.Errorf("unknown bit %s", b)
					}
					bits = append(bits, g.Go)
				}
				out[e.Name] = append(out[e.Name], strings.Join(bits, "|"))
			}
		}
	}
	if len(out) == 0 {
		return nil, errors.New("no directive")
	}
	for _, n := range c.Filter {
		delete(out, n)
	}
	for n, ms := range c.Override {
		if _, ok := out[n]; ok {
			out[n] = nil
			for _, m := range ms {
				out[n] = append(out[n], strings.Join(m, "|"))
			}
		}
	}
	return out, nil
}

// ---------------------------------------------------------------- output

// packageConsts are the constant declarations of the package the generated file is for.
var packageConsts = sync.OnceValue(func() []ast.Decl {
	var out []ast.Decl
	files, _ := filepath.Glob("/repo/*.go")
	for _, p := range files {
		if strings.HasSuffix(p, "_test.go") || strings.HasSuffix(p, ".gen.go") {
			continue
		}
		f, err := parser.ParseFile(genFset, p, nil, parser.SkipObjectResolution)
		if err != nil {
			panic(infraError{err})
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.CONST && strings.Contains(fmt.Sprint(constNames(g)), "ngx") {
				out = append(out, d)
			}
		}
	}
	return out
})

func constNames(g *ast.GenDecl) (out []string) {
	for _, s := range g.Specs {
		for _, n := range s.(*ast.ValueSpec).Names {
			out = append(out, n.Name)
		}
	}
	return out
}

var genFset = token.NewFileSet()

// support is what a support file says.
type support struct {
	defs     map[string][]string
	order    []string
	comment  string
	hasDoc   bool
	Map, Fn  string
	vals     map[string][]uint64
	typeErrs []string
}

// readSupport reads a support file; the file must be valid Go that has the map and the function and nothing else.
func readSupport(src []byte) (*support, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	if f.Name.Name != "crossplane" {
		return nil, fmt.Errorf("package %s", f.Name.Name)
	}
	if len(f.Decls) != 2 || len(f.Imports) > 0 {
		return nil, fmt.Errorf("%d declarations", len(f.Decls))
	}
	s := &support{defs: map[string][]string{}, vals: map[string][]uint64{}}
	gd, ok := f.Decls[0].(*ast.GenDecl)
	if !ok || gd.Tok != token.VAR || len(gd.Specs) != 1 {
		return nil, errors.New("the first declaration is not a variable")
	}
	vs := gd.Specs[0].(*ast.ValueSpec)
	if len(vs.Names) != 1 || len(vs.Values) != 1 {
		return nil, errors.New("not one variable")
	}
	s.Map = vs.Names[0].Name
	cl, ok := vs.Values[0].(*ast.CompositeLit)
	if !ok {
		return nil, errors.New("the variable is not a literal")
	}
	// types and constants
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Error: func(err error) { s.typeErrs = append(s.typeErrs, err.Error()) }}
	consts := &ast.File{Name: ast.NewIdent("crossplane"), Decls: packageConsts()}
	conf.Check("crossplane", fset, []*ast.File{consts, f}, info) //nolint:errcheck
	if len(s.typeErrs) > 0 {
		return nil, fmt.Errorf("does not compile: %s", strings.Join(s.typeErrs, "; "))
	}
	if tv := info.Types[vs.Values[0]]; tv.Type == nil || tv.Type.String() != "map[string][]uint" {
		return nil, fmt.Errorf("the map has type %v", tv.Type)
	}
	for _, e := range cl.Elts {
		kv := e.(*ast.KeyValueExpr)
		key, err := strconv.Unquote(kv.Key.(*ast.BasicLit).Value)
		if err != nil {
			return nil, err
		}
		if _, dup := s.defs[key]; dup {
			return nil, fmt.Errorf("%q is defined twice", key)
		}
		s.order = append(s.order, key)
		s.defs[key] = []string{}
		for _, m := range kv.Value.(*ast.CompositeLit).Elts {
			var ids []string
			if err := orIdents(m, &ids); err != nil {
				return nil, err
			}
			s.defs[key] = append(s.defs[key], strings.Join(ids, "|"))
			v, exact := constant.Uint64Val(info.Types[m].Value)
			if !exact {
				return nil, fmt.Errorf("%q: value of %v", key, ids)
			}
			s.vals[key] = append(s.vals[key], v)
		}
	}
	fd, ok := f.Decls[1].(*ast.FuncDecl)
	if !ok || fd.Recv != nil {
		return nil, errors.New("the second declaration is not a function")
	}
	s.Fn = fd.Name.Name
	if fd.Doc != nil {
		s.hasDoc = true
		var ls []string
		for _, l := range fd.Doc.List {
			ls = append(ls, strings.TrimPrefix(l.Text, "//"))
		}
		s.comment = strings.Join(ls, "\n")
	}
	// the function looks its argument up in the map
	lookups := 0
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if ix, ok := n.(*ast.IndexExpr); ok && fmt.Sprint(ix.X) == s.Map && len(fd.Type.Params.List) == 1 && fmt.Sprint(ix.Index) == fd.Type.Params.List[0].Names[0].Name {
			lookups++
		}
		return true
	})
	if lookups != 1 {
		return nil, errors.New("the function does not look the directive up in the map")
	}
	return s, nil
}

func orIdents(e ast.Expr, out *[]string) error {
	switch e := e.(type) {
	case *ast.Ident:
		*out = append(*out, e.Name)
		return nil
	case *ast.BinaryExpr:
		if e.Op == token.OR {
			if err := orIdents(e.X, out); err != nil {
				return err
			}
			return orIdents(e.Y, out)
		}
	}
	return fmt.Errorf("a definition is %T", e)
}

func sortedCopy(xs []string) []string {
	out := append([]string{}, xs...)
	sort.Strings(out)
	return out
}

// judgeSupport compares a support file with what it has to say.
func judgeSupport(src []byte, want map[string][]string, mapName, fn, comment string) error {
	s, err := readSupport(src)
	if err != nil {
		return fmt.Errorf("output is not what it should be: %w\n%s", err, clip(string(src), 3000))
	}
	if s.Map != mapName || s.Fn != fn {
		return fmt.Errorf("map %s and function %s, want %s and %s", s.Map, s.Fn, mapName, fn)
	}
	for n := range want {
		if _, ok := s.defs[n]; !ok {
			return fmt.Errorf("%q is missing", n)
		}
	}
	for n, ds := range s.defs {
		w, ok := want[n]
		if !ok {
			return fmt.Errorf("%q is defined and should not be", n)
		}
		if fmt.Sprint(sortedCopy(ds)) != fmt.Sprint(sortedCopy(w)) {
			return fmt.Errorf("%q: definitions %q, want %q", n, ds, w)
		}
		for i, d := range ds {
			var v uint64
			for _, id := range strings.Split(d, "|") {
				v |= goVals[id]
			}
			if v != s.vals[n][i] {
				return fmt.Errorf("%q: %s is %#x, want %#x", n, d, s.vals[n][i], v)
			}
		}
	}
	if !sort.StringsAreSorted(s.order) {
		return fmt.Errorf("directives are not in order: %q", s.order)
	}
	if s.hasDoc != (comment != "") {
		return fmt.Errorf("comment %q, want %q", s.comment, comment)
	}
	if comment != "" {
		norm := func(s string) string { return strings.Join(strings.Fields(s), " ") }
		if norm(s.comment) != norm(comment) {
			return fmt.Errorf("comment %q, want %q", s.comment, comment)
		}
	}
	return nil
}

type limitedWriter struct {
	left int
	sb   bytes.Buffer
}

var errWrite = errors.New("write fault")

func (w *limitedWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		w.sb.Write(p[:w.left])
		n := w.left
		w.left = 0
		return n, errWrite
	}
	w.left -= len(p)
	w.sb.Write(p)
	return len(p), nil
}

func writeTree(root string, files []CFile) error {
	for _, f := range files {
		p := filepath.Join(root, f.Path)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(f.text()), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func runGen(c genCase, o *Obs) error {
	root := scratchDir()
	defer os.RemoveAll(root)
	if err := writeTree(root, c.Files); err != nil {
		return infraError{err}
	}
	cfg := generator.GenerateConfig{DirectiveMapName: c.Map, MatchFuncName: c.Fn, MatchFuncComment: c.Comment}
	for _, n := range c.Filter {
		if cfg.Filter == nil {
			cfg.Filter = generator.Filters{}
		}
		cfg.Filter[n] = struct{}{}
	}
	for n, ms := range c.Override {
		if cfg.Override == nil {
			cfg.Override = map[string][]generator.Mask{}
		}
		cfg.Override[n] = []generator.Mask{}
		for _, m := range ms {
			cfg.Override[n] = append(cfg.Override[n], generator.Mask(append([]string{}, m...)))
		}
	}
	src := root
	if c.Single {
		src = filepath.Join(root, c.Files[0].Path)
	}
	want, wantErr := c.expected()
	if c.Fault == "unreadable" && c.Files[0].source() && os.Getuid() != 0 {
		if err := os.Chmod(filepath.Join(root, c.Files[0].Path), 0); err != nil {
			return infraError{err}
		}
		wantErr = os.ErrPermission
	}
	if c.Fault == "link" && !c.Single {
		if err := os.Symlink(filepath.Join(root, "missing", "x.c"), filepath.Join(root, filepath.Dir(c.Files[0].Path), "zz-link."+[]string{"c", "cpp"}[c.Cut%2])); err != nil {
			return infraError{err}
		}
		wantErr = os.ErrNotExist
	}
	if c.Fault == "closed" && !c.Single && os.Getuid() != 0 {
		dir := filepath.Join(root, "closed")
		if err := os.Mkdir(dir, 0); err != nil {
			return infraError{err}
		}
		wantErr = os.ErrPermission
	}
	w := &limitedWriter{left: 1 << 30}
	if c.Fault == "writer" {
		w.left = c.Cut
	}
	err := generator.Generate(src, w, cfg)
	if wantErr != nil {
		o.Label("error: %v", strings.Fields(wantErr.Error())[0:2])
		if err == nil {
			return fmt.Errorf("no error, want one: %v\n%s", wantErr, c.show())
		}
		return nil
	}
	if c.Fault == "writer" && err != nil {
		o.Label("write fault")
		if !errors.Is(err, errWrite) {
			return fmt.Errorf("write error is reported as %v", err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("unexpected error: %v\n%s", err, c.show())
	}
	if err := judgeSupport(w.sb.Bytes(), want, c.Map, c.Fn, c.Comment); err != nil {
		return fmt.Errorf("%w\n%s", err, c.show())
	}
	if c.Fault == "writer" && w.left <= 0 {
		o.Label("written exactly")
	}
	// the result is a function of the tree
	var again bytes.Buffer
	if err := generator.Generate(src, &again, cfg); err != nil || again.String() != w.sb.String() {
		return fmt.Errorf("a second run gives another result: %v", err)
	}
	rep, spliced := false, false
	for _, f := range c.Files {
		spliced = spliced || len(f.Splices) > 0
	}
	for _, ds := range want {
		rep = rep || len(ds) > 1
	}
	o.LabelIf(spliced, "lines joined by a backslash")
	o.LabelIf(rep, "several definitions")
	o.LabelIf(len(c.Filter) > 0, "filter")
	o.LabelIf(len(c.Override) > 0, "override")
	o.LabelIf(len(want) == 0, "everything filtered")
	o.NonTrivial(len(want) >= 2)
	return nil
}

func (c genCase) show() string {
	var sb strings.Builder
	for _, f := range c.Files {
		fmt.Fprintf(&sb, "--- %s\n%s\n", f.Path, f.text())
	}
	return clip(sb.String(), 4000)
}

// ---------------------------------------------------------------- generator of trees

var cWS = []string{"", " ", "\n", "\t", "\n\n      ", "  ", "\r\n", " \n\t"}

var cCommentSegs = []string{
	"x", "'", "\"", "};", "}", "{", ", ", "ngx_string(\"zz\"), NGX_CONF_FLAG,", "it's", "//", "/*", "*", "/", "ngx_command_t  bad[] = {", " NGX_FOO|", "\\", "#if", "é", "\xe9", "; ", "http://x", "\\n",
	"{ ngx_string(\"yy\"), NGX_MAIN_CONF|NGX_CONF_FLAG, f, 0, 0, NULL },",
}

func cComment(t *rapid.T) string {
	var sb strings.Builder
	for n := intn(t, 0, 4); n > 0; n-- {
		sb.WriteString(oneOf(t, cCommentSegs))
	}
	s := sb.String()
	if chance(t, 60) {
		s = strings.ReplaceAll(s, "*/", "* /")
		s = strings.TrimRight(s, "*") // "/*" + "...*" + "*/" is fine, but keep it simple to read
		if chance(t, 40) {
			s += oneOf(t, []string{"\n", "\n *", "*", "**", "\r\n"})
			if chance(t, 50) {
				s += oneOf(t, []string{" x", "\n", "\"", "'"})
			}
		}
		return "/*" + s + "*/"
	}
	return "//" + strings.TrimRight(s, "\\") + "\n" // no line is continued
}

func cGap(t *rapid.T) string {
	s := oneOf(t, cWS)
	for chance(t, 22) {
		s += cComment(t) + oneOf(t, cWS)
	}
	return s
}

func cBetween(t *rapid.T) string {
	var sb strings.Builder
	for n := pick(t, 50, 35, 15); n > 0; n-- {
		if chance(t, 40) {
			sb.WriteString(cGap(t))
			continue
		}
		sb.WriteString("\n" + oneOf(t, []string{
			"#if (NGX_HTTP_SSL)", "#endif", "#else", "#ifdef X", "  # if 1", "#if !(NGX_WIN32) && defined X", "#pragma once", "#error it's", "#define A 1", "#if 0 /* \"x\" */", "#elif (NGX_X) // y",
			"#if (NGX_A || NGX_B)", "#undef B", "#define S \"a//b\"",
		}) + "\n")
	}
	return sb.String()
}

var cOthers = []string{
	"#include <ngx_config.h>\n#include \"ngx_http.h\"", "static ngx_command_t  *last;", "extern ngx_command_t  later[];", "static ngx_str_t  name = ngx_string(\"stray\");",
	"static ngx_http_variable_t  vars[] = {\n    { ngx_string(\"var\"), NULL, get_var, 0, 0, 0 },\n    ngx_http_null_variable\n};",
	"int f(void) { char c = '\"'; const char *s = \"/* no comment\"; return s[0] == c; }", "/* ngx_command_t dead[] = { { ngx_string(\"dead\"), NGX_MAIN_CONF, f, 0, 0, NULL }, ngx_null_command }; */",
	"// ngx_command_t dead[] = { { ngx_string(\"dead\"), NGX_MAIN_CONF, f, 0, 0, NULL }, ngx_null_command };", "char q = '\\'', r = '\"', b = '\\\\';", "const char *u = \"http://x\", *v = \"a\\\"b/*\";",
	"static ngx_conf_enum_t  e[] = {\n    { ngx_string(\"en\"), 1 },\n    { ngx_null_string, 0 }\n};", "ngx_module_t  m = {\n    NGX_MODULE_V1, &ctx, ngx_test_commands, NGX_HTTP_MODULE, NULL,\n    NGX_MODULE_V1_PADDING\n};",
	"/* it's */ int x; // \"", "/**/", "int y = 4 /2/* half */;", "char *p = \"*/\";", "", "if (a) { b(); }", "static char *set(ngx_conf_t *cf, ngx_command_t *cmd, void *conf);", "#if (T)\nint z;\n#endif",
	"void g(ngx_command_t *cmd) { return; }", "ngx_log_error(NGX_LOG_ERR, log, 0, \"it's /* \\\"%V\\\" // \", &v);",
}

var cNames = []string{"a", "b", "server", "location", "if", "x_y", "ssl", "resolver", "a-b", "init_by_lua_block", "listen", "http2", "a.b", "A"}

var cRests = []string{
	", f, 0, 0, NULL", ",\n      ngx_conf_set_flag_slot,\n      NGX_HTTP_LOC_CONF_OFFSET,\n      offsetof(ngx_http_x_conf_t, y),\n      NULL", ", ngx_x, 0, 0, &ngx_post", ",set,0,0,(void *) f", ", f, 0, offsetof(a, b), \"str, x\"",
	", f, NGX_HTTP_SRV_CONF_OFFSET, 0, NULL // x };\n", ", f /* , */ , 0, 0, NULL", ", ngx_conf_set_str_slot,\n#if (X)\n      1,\n#else\n      2,\n#endif\n 0, NULL",
}

func genEntries(t *rapid.T, bad int) []CEntry {
	var out []CEntry
	for n := []int{0, 1, 2, 3, 5, 12}[pick(t, 5, 30, 30, 20, 10, 5)]; n > 0; n-- {
		e := CEntry{Name: oneOf(t, cNames), Rest: oneOf(t, cRests)}
		if chance(t, 20) {
			e.Name = "d" + strconv.Itoa(intn(t, 0, 99))
		}
		for k := intn(t, 1, 5); k > 0; k-- {
			e.Bits = append(e.Bits, oneOf(t, cBitNames))
		}
		if chance(t, bad) {
			e.Bits[intn(t, 0, len(e.Bits)-1)] = oneOf(t, []string{"NGX_FOO", "NGX_RTMP_CONF", "ngx_main_conf", "NGX_CONF_TAKE8", "0", "NGX_MAIN", "NGX_CONF_TAKE1X", "NGX_CONF_TAKE11"})
		}
		out = append(out, e)
	}
	return out
}

func genTree(t *rapid.T, bad int) []CFile {
	var files []CFile
	used := map[string]bool{}
	for n := intn(t, 1, 4); n > 0; n-- {
		f := CFile{Path: oneOf(t, []string{"a.c", "b.cpp", "src/c.c", "src/http/d.c", "z/y/x/w.cpp", "e.h", "f.txt", "g.c.bak", "src/h.cc", "i.c/j.c", "k.cpp/l.h", "m", ".n.c", "src/o.C", "A.c", "p q.c", ".git/q.c", "test/a.c", "src/tests/b.c", "src/os/win32/c.c", "vendor/d.c", "_e/f.c", "testdata/g.cpp", "objs/ngx_modules.c", "test.c", "x_test.c", "src/ngx_x_module.c", "build/o/p.cpp", "third_party/q.c", "examples/r.c", "docs/s.c", "contrib/t.c", "node_modules/u.c", "auto/v.c", "é/w.c", "src/a.b.c", "TEST/x.c", "src/c++/y.cpp", "-z.c", "~a.c", "src/~/b.c", "#c.c"}), CRLF: chance(t, 15)}
		if used[f.Path] || chance(t, 15) {
			f.Path = fmt.Sprintf("s%d/%d.c", n%2, n)
		}
		used[f.Path] = true
		for k := intn(t, 1, 4); k > 0; k-- {
			p := CPart{}
			if chance(t, 45) {
				p.Other = oneOf(t, cOthers)
				if chance(t, 30) {
					p.Other = cComment(t)
				}
			} else {
				p.Table = oneOf(t, []string{"ngx_test_commands", "cmds", "ngx_http_core_commands", "x1"})
				p.Prefix = oneOf(t, []string{"static ", "", "static const ", "static  ", "extern \"C\" ", "static\n"})
				p.Entries = genEntries(t, bad)
				for g := intn(t, 0, 7); g > 0; g-- {
					p.Gaps = append(p.Gaps, cGap(t))
				}
				for g := intn(t, 0, 3); g > 0; g-- {
					p.Between = append(p.Between, cBetween(t))
				}
			}
			f.Parts = append(f.Parts, p)
		}
		if chance(t, 15) {
			for k := intn(t, 1, 4); k > 0; k-- {
				f.Splices = append(f.Splices, intn(t, 0, 1500))
			}
		}
		files = append(files, f)
	}
	return files
}

func genOverride(t *rapid.T, names []string) map[string][][]string {
	out := map[string][][]string{}
	for n := intn(t, 1, 3); n > 0; n-- {
		var ms [][]string
		for k := intn(t, 1, 3); k > 0; k-- {
			var m []string
			for j := intn(t, 1, 4); j > 0; j-- {
				m = append(m, oneOf(t, goNames))
			}
			ms = append(ms, m)
		}
		out[oneOf(t, names)] = ms
	}
	return out
}

// someEmpty lets one of the overrides give no definitions, which flags cannot do.
func someEmpty(t *rapid.T, ov map[string][][]string) map[string][][]string {
	if ks := sortedKeys(ov); len(ks) > 0 && chance(t, 12) {
		ov[oneOf(t, ks)] = [][]string{}
	}
	return ov
}

var goComments = []string{"MatchX contains directives", "MatchX is a function.\nIt has two lines", "x", "a /* b */ c", "// y", "<a> & \"b\"", "é", "func f() {\n}", "a\n\nb", "{{.X}}", "\\n", "`"}

func init() {
	Register(Check{Prop: "C19", Name: "trees", Quick: 60000,
		Rule: "trees of 1-4 files (.c, .cpp and others) with command tables laid out at random (comments, line ends, preprocessor lines, white space between any two tokens), other code, repeated definitions, unknown bits, filters and overrides; the output is parsed and type-checked as Go and compared with the tables; non-trivial: at least two directives in the output"},
		func(t *rapid.T) genCase {
			bad := 0
			if chance(t, 8) {
				bad = 30
			}
			c := genCase{Files: genTree(t, bad), Map: oneOf(t, []string{"xDirectives", "m0", "ngxDirectives"}), Fn: oneOf(t, []string{"MatchX", "Match_Y9"})}
			names := []string{"zzz"}
			for _, f := range c.Files {
				for _, p := range f.Parts {
					for _, e := range p.Entries {
						names = append(names, e.Name)
					}
				}
			}
			if chance(t, 30) {
				for n := intn(t, 1, 4); n > 0; n-- {
					c.Filter = append(c.Filter, oneOf(t, names))
				}
			}
			if chance(t, 35) {
				c.Override = someEmpty(t, genOverride(t, names))
			}
			if chance(t, 50) {
				c.Comment = oneOf(t, goComments)
			}
			c.Single = chance(t, 15)
			switch pick(t, 92, 3, 3, 1, 1) {
			case 1:
				c.Fault, c.Cut = "writer", intn(t, 0, 1500)
			case 2:
				c.Fault = "unreadable"
			case 3:
				c.Fault, c.Cut = "link", intn(t, 0, 1)
			case 4:
				c.Fault = "closed"
			}
			return c
		}, runGen)
}
