package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// ---------------------------------------------------------------- options

// Opts is a JSON-friendly form of the parse options.
type Opts struct {
	Ignore     []string            `json:",omitempty"`
	Comments   bool                `json:",omitempty"`
	Single     bool                `json:",omitempty"`
	Combine    bool                `json:",omitempty"`
	Stop       bool                `json:",omitempty"`
	ErrUnknown bool                `json:",omitempty"`
	SkipCtx    bool                `json:",omitempty"`
	SkipArgs   bool                `json:",omitempty"`
	Sources    []string            `json:",omitempty"` // built-in sources; none means the default
	Tables     []map[string][]uint `json:",omitempty"` // further sources
	Lua        bool                `json:",omitempty"`
}

var builtin = map[string]cp.MatchFunc{
	"default": cp.DefaultDirectivesMatchFunc,
	"oss124":  cp.MatchOss124, "oss126": cp.MatchOss126, "oss": cp.MatchOssLatest,
	"R30": cp.MatchNginxPlusR30, "R31": cp.MatchNginxPlusR31, "R33": cp.MatchNginxPlusR33, "R34": cp.MatchNginxPlusR34,
	"R35": cp.MatchNginxPlusR35, "R36": cp.MatchNginxPlusR36, "R37": cp.MatchNginxPlusR37, "plus": cp.MatchNginxPlusLatest,
	"nap4": cp.MatchAppProtectWAFv4, "nap5": cp.MatchAppProtectWAFv5, "njs": cp.MatchNjsLatest, "otel": cp.MatchOtelLatest,
	"lua": cp.MatchLuaLatest, "geoip2": cp.MatchGeoip2Latest, "headersmore": cp.MatchHeadersMoreLatest,
}

func (o Opts) sources() []cp.MatchFunc {
	var out []cp.MatchFunc
	for _, s := range o.Sources {
		f, ok := builtin[s]
		if !ok {
			panic(infraError{fmt.Errorf("unknown source %q", s)})
		}
		out = append(out, f)
	}
	for _, t := range o.Tables {
		t := t
		out = append(out, func(d string) ([]uint, bool) { m, ok := t[d]; return m, ok })
	}
	return out
}

// masks is what the sources in use say about a directive.
func (o Opts) masks(name string) (masks []uint, known bool) {
	src := o.sources()
	if len(src) == 0 {
		return cp.DefaultDirectivesMatchFunc(name)
	}
	for _, f := range src {
		if m, ok := f(name); ok {
			masks = append(masks, m...)
			known = true
		}
	}
	return masks, known
}

func (o Opts) parseOptions(fs FS) *cp.ParseOptions {
	po := &cp.ParseOptions{
		IgnoreDirectives: o.Ignore, StopParsingOnError: o.Stop, CombineConfigs: o.Combine, SingleFile: o.Single,
		ParseComments: o.Comments, ErrorOnUnknownDirectives: o.ErrUnknown, SkipDirectiveContextCheck: o.SkipCtx,
		SkipDirectiveArgsCheck: o.SkipArgs, DirectiveSources: o.sources(),
	}
	if fs != nil {
		po.Open = fs.open
		po.Glob = fs.glob
	}
	if o.Lua {
		po.LexOptions = cp.LexOptions{Lexers: []cp.RegisterLexer{(&cp.Lua{}).RegisterLexer()}}
	}
	return po
}

// ---------------------------------------------------------------- file system in memory

// FS maps paths to file contents.
type FS map[string]string

// errNoFile reads like the error of the operating system.
var errNoFile = syscall.ENOENT

func (fs FS) open(path string) (io.ReadCloser, error) {
	s, ok := fs[path]
	if !ok {
		return nil, fmt.Errorf("open %s: %w", path, errNoFile)
	}
	return io.NopCloser(strings.NewReader(s)), nil
}

// glob returns the matches in an order that is not the sorted one.
func (fs FS) glob(pattern string) ([]string, error) {
	var out []string
	for p := range fs {
		ok, err := filepath.Match(pattern, p)
		if err != nil {
			return nil, err
		}
		if ok {
			out = append(out, p)
		}
	}
	sort.Sort(sort.Reverse(sort.StringSlice(out)))
	if len(out) > 2 {
		out[0], out[1] = out[1], out[0]
	}
	return out, nil
}

// ---------------------------------------------------------------- reference validation

const (
	bitBlock = 0x100
	bitExpr  = 0x200
	bitFlag  = 0x400
	bitAny   = 0x800
	bit1More = 0x1000
	bit2More = 0x2000
)

// ctxBits gives the context bit of a block path.
var ctxBits = map[string]uint{
	"":                           1 << 18,
	"events":                     1 << 19,
	"mail":                       1 << 20,
	"mail>server":                1 << 21,
	"stream":                     1 << 22,
	"stream>server":              1 << 23,
	"stream>upstream":            1 << 24,
	"http":                       1 << 25,
	"http>server":                1 << 26,
	"http>location":              1 << 27,
	"http>upstream":              1 << 28,
	"http>server>if":             1 << 29,
	"http>location>if":           1 << 30,
	"http>location>limit_except": 1 << 31,
	"http>oidc_provider":         1 << 32,
	"mgmt":                       1 << 17,
}

// ctxBit gives the context bit of the blocks that enclose a statement.
func ctxBit(ctx []string) (uint, bool) {
	for _, c := range ctx {
		if strings.Contains(c, ">") {
			return 0, false
		}
	}
	bit, ok := ctxBits[strings.Join(ctx, ">")]
	return bit, ok
}

func enterCtx(ctx []string, name string) []string {
	if len(ctx) > 0 && ctx[0] == "http" && name == "location" {
		return []string{"http", "location"}
	}
	out := make([]string, 0, len(ctx)+1)
	out = append(out, ctx...)
	return append(out, name)
}

func lastCtx(ctx []string) string {
	if len(ctx) == 0 {
		return "main"
	}
	return ctx[len(ctx)-1]
}

func arityOK(mask uint, args []string) bool {
	n := len(args)
	switch {
	case n <= 7 && mask&(1<<uint(n)) != 0:
		return true
	case mask&bitAny != 0:
		return true
	case mask&bit1More != 0 && n >= 1:
		return true
	case mask&bit2More != 0 && n >= 2:
		return true
	case mask&bitFlag != 0 && n == 1 && isFlag(args[0]):
		return true
	}
	return false
}

func isFlag(s string) bool {
	return strings.EqualFold(s, "on") || strings.EqualFold(s, "off")
}

func exprOK(args []string) bool {
	n := len(args)
	if n == 0 || args[0] == "" || args[0][0] != '(' {
		return false
	}
	last := args[n-1]
	if last == "" || last[len(last)-1] != ')' {
		return false
	}
	switch n {
	case 1:
		return len(last) > 2
	case 2:
		return len(args[0]) > 1 || len(last) > 1
	}
	return true
}

// refValidate returns the messages that may be reported for a statement; none if it is valid.
func refValidate(name string, args []string, term string, ctx []string, o Opts) []string {
	masks, known := o.masks(name)
	if !known && o.ErrUnknown {
		return []string{fmt.Sprintf(`unknown directive "%s"`, name)}
	}
	notTerm := fmt.Sprintf(`directive "%s" is not terminated by ";"`, name)
	bit, knownCtx := ctxBit(ctx)
	if !known || !knownCtx {
		if term == "}" {
			return []string{notTerm}
		}
		return nil
	}
	use := masks
	if !o.SkipCtx {
		use = nil
		for _, m := range masks {
			if m&bit != 0 {
				use = append(use, m)
			}
		}
		if len(use) == 0 {
			return []string{fmt.Sprintf(`"%s" directive is not allowed here`, name)}
		}
	}
	if o.SkipArgs {
		if term == "}" {
			return []string{notTerm}
		}
		return nil
	}
	var whats []string
	for _, m := range use {
		switch {
		case m&bitExpr != 0 && !exprOK(args):
			whats = append(whats, fmt.Sprintf(`directive "%s"'s is not enclosed in parentheses`, name))
		case m&bitBlock != 0 && term != "{":
			whats = append(whats, fmt.Sprintf(`directive "%s" has no opening "{"`, name))
		case m&bitBlock == 0 && term != ";":
			whats = append(whats, notTerm)
		case arityOK(m, args):
			return nil
		case m&bitFlag != 0 && len(args) == 1:
			whats = append(whats, fmt.Sprintf(`invalid value "%s" in "%s" directive, it must be "on" or "off"`, args[0], name))
		default:
			whats = append(whats, fmt.Sprintf(`invalid number of arguments in "%s" directive`, name))
		}
	}
	if len(whats) == 0 {
		whats = []string{""}
	}
	return whats
}

// mapRule gives the number of values an entry of a map-like block takes: min and max (-1: any).
func mapRule(kind, key string) (min, max int) {
	switch kind {
	case "geo":
		if key == "ranges" || key == "proxy_recursive" {
			return 0, 0
		}
	case "map":
		if key == "volatile" || key == "hostnames" {
			return 0, 0
		}
	case "match", "types":
		return 1, -1
	case "geoip2":
		if key == "auto_reload" {
			return 1, 1
		}
		return 1, -1
	}
	return 1, 1
}

var mapKinds = []string{"charset_map", "geo", "map", "match", "types", "split_clients", "geoip2", "otel_exporter"}

// ---------------------------------------------------------------- reference parser

// RErr is an error as the reference parser reports it; any of Whats may be the message.
type RErr struct {
	Whats     []string
	File      string
	Line      int
	Statement string
	BlockCtx  string
	NoStmt    bool // errors of the text have no statement
}

type RConfig struct {
	File   string
	Errors []RErr
	Parsed cp.Directives
}

type RPayload struct {
	Configs []RConfig
	Fatal   *RErr  // parsing returns this error
	Cycle   bool   // parsing fails because of an include cycle
	OpenErr string // parsing fails because this file cannot be opened
}

func (p *RPayload) errs() []RErr {
	var out []RErr
	for _, c := range p.Configs {
		out = append(out, c.Errors...)
	}
	return out
}

type refParser struct {
	o     Opts
	fs    FS
	dir   string
	queue []struct {
		path string
		ctx  []string
	}
	index map[string]int
	edges map[string][]string

	cur  *RConfig
	toks []Tok
	pos  int
	stop *RErr

	depth int

	fault  *Fault         // an operation that fails
	counts map[string]int // operations so far, by kind and path
}

// Fault is a failing operation on the file system.
type Fault struct {
	Op   string // "open", "glob" or "read"
	Path string // file or pattern
	N    int    // the operation that fails, counting those of its kind on its path from 1; 0 for all from some point on
	At   int    `json:",omitempty"` // bytes read before the failure
	With bool   `json:",omitempty"` // the error comes together with the last bytes
	Kind string `json:",omitempty"` // what reading gives
	Then bool   `json:",omitempty"` // reading goes on after the error as if nothing was
}

var (
	errFault      = errors.New("injected fault")
	errWrappedEOF = fmt.Errorf("wrapped: %w", io.EOF)
	errDenied     = &os.PathError{Op: "open", Path: "somewhere", Err: os.ErrPermission}
	errMissing    = &os.PathError{Op: "stat", Path: "somewhere", Err: os.ErrNotExist}
)

// passing is an error that says of itself that it will go away.
type passing struct{ text string }

func (e *passing) Error() string   { return e.text }
func (e *passing) Temporary() bool { return true }
func (e *passing) Timeout() bool   { return true }

var errPassing = &passing{"injected: for now"}

func (f *Fault) is(op, path string, n int) bool {
	return f != nil && f.Op == op && f.Path == path && (f.N == n || f.N == 0)
}

// err is the error that the failing operation gives.
func (f *Fault) err() error {
	switch f.Kind {
	case "stuck":
		return io.ErrNoProgress
	case "unexpected":
		return io.ErrUnexpectedEOF
	case "wrapped eof":
		return errWrappedEOF
	case "denied":
		return errDenied
	case "missing":
		return errMissing
	case "eof":
		return io.EOF
	case "pattern":
		return filepath.ErrBadPattern
	case "passing":
		return errPassing
	case "interrupted":
		return syscall.EINTR
	case "again":
		return syscall.EAGAIN
	case "closed":
		return io.ErrClosedPipe
	case "deadline":
		return os.ErrDeadlineExceeded
	}
	return errFault
}

// count notes an operation and tells whether it fails.
func (p *refParser) fails(op, path string) bool {
	if p.counts == nil {
		p.counts = map[string]int{}
	}
	p.counts[op+path]++
	return p.fault.is(op, path, p.counts[op+path])
}

// text gives the tokens of a file.
func (p *refParser) text(path string) []Tok {
	if p.fault == nil || p.fault.Op != "read" || p.fault.Path != path {
		return refLex(p.fs[path])
	}
	return refLexCut(p.fs[path][:p.fault.At], p.fault.err())
}

// refLexCut gives the tokens of a text that cannot be read any further.
func refLexCut(text string, err error) []Tok {
	toks, more := refLex(text), refLex(text+"Q")
	n := 0
	for n < len(toks) && n < len(more) && toks[n] == more[n] && !toks[n].EOF {
		if toks[n].Err != "" {
			return toks
		}
		n++
	}
	return append(toks[:n:n], Tok{Err: err.Error(), Line: 1 + strings.Count(text, "\n")})
}

// maxDepth is how deep blocks may be nested.
const maxDepth = 4096

func (p *refParser) tooDeep(depth int, ctx []string) *RErr {
	if depth <= maxDepth {
		return nil
	}
	return &RErr{
		Whats: []string{"too many nested blocks"}, File: p.cur.File, Line: p.toks[p.pos-1].Line, BlockCtx: lastCtx(ctx), NoStmt: true,
	}
}

type refStop struct{ e RErr }

// refParse is an independent statement of what parsing yields.
func refParse(fs FS, main string, o Opts) *RPayload { return refParseFault(fs, main, o, nil) }

// refParseFault is the same when an operation fails.
func refParseFault(fs FS, main string, o Opts, f *Fault) *RPayload {
	p := &refParser{fault: f, o: o, fs: fs, dir: filepath.Dir(main), index: map[string]int{main: 0}, edges: map[string][]string{}}
	p.push(main, nil)
	res := &RPayload{}
	for i := 0; i < len(p.queue); i++ {
		q := p.queue[i]
		if _, ok := fs[q.path]; p.fails("open", q.path) || !ok {
			res.OpenErr = q.path
			return res
		}
		res.Configs = append(res.Configs, RConfig{File: q.path, Parsed: cp.Directives{}})
		p.cur = &res.Configs[len(res.Configs)-1]
		p.toks, p.pos, p.depth = p.text(q.path), 0, 0
		if e := p.file(q.ctx); e != nil {
			res.Fatal = e
			return res
		}
	}
	res.Cycle = hasCycle(p.edges)
	return res
}

func (p *refParser) push(path string, ctx []string) {
	p.queue = append(p.queue, struct {
		path string
		ctx  []string
	}{path, ctx})
}

// file parses the current tokens; it returns an error only if parsing stops at it.
func (p *refParser) file(ctx []string) (stopped *RErr) {
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(refStop)
			if !ok {
				panic(r)
			}
			stopped = &s.e
		}
	}()
	parsed, fatal := p.block(ctx)
	if fatal != nil {
		if p.o.Stop {
			return fatal
		}
		p.cur.Errors = append(p.cur.Errors, *fatal)
		return nil
	}
	if parsed != nil {
		p.cur.Parsed = parsed
	}
	return nil
}

func (p *refParser) report(e RErr) {
	if p.o.Stop {
		panic(refStop{e})
	}
	p.cur.Errors = append(p.cur.Errors, e)
}

func (p *refParser) textErr(t Tok, ctx []string) *RErr {
	return &RErr{Whats: []string{t.Err}, File: p.cur.File, Line: t.Line, BlockCtx: lastCtx(ctx), NoStmt: true}
}

// skip passes over the rest of a block.
func (p *refParser) skip(ctx []string) *RErr {
	if e := p.tooDeep(p.depth+1, ctx); e != nil {
		return e
	}
	for depth := 1; p.pos < len(p.toks); {
		t := p.toks[p.pos]
		p.pos++
		if t.Err != "" {
			return p.textErr(t, ctx)
		}
		if t.punct() && t.Val == "{" {
			depth++
			if e := p.tooDeep(p.depth+depth, ctx); e != nil {
				return e
			}
		}
		if t.punct() && t.Val == "}" {
			if depth--; depth == 0 {
				return nil
			}
		}
	}
	return nil
}

func (p *refParser) block(ctx []string) (out cp.Directives, fatal *RErr) {
	for p.pos < len(p.toks) {
		t := p.toks[p.pos]
		p.pos++
		if t.Err != "" {
			return nil, p.textErr(t, ctx)
		}
		if t.punct() && t.Val == "}" {
			return out, nil
		}
		file := ""
		if p.o.Combine {
			file = p.cur.File
		}
		if t.comment() {
			if p.o.Comments {
				c := t.Val[1:]
				out = append(out, &cp.Directive{Directive: "#", Line: t.Line, Args: []string{}, File: file, Comment: &c})
			}
			continue
		}

		d := &cp.Directive{Directive: t.Val, Line: t.Line, Args: []string{}, File: file}
		var comments []string
		term := ""
		for term == "" {
			if p.pos >= len(p.toks) || p.toks[p.pos].EOF {
				return nil, &RErr{Whats: []string{"premature end of file"}, File: p.cur.File, Line: d.Line, BlockCtx: lastCtx(ctx), NoStmt: true}
			}
			a := p.toks[p.pos]
			p.pos++
			switch {
			case a.Err != "":
				return nil, p.textErr(a, ctx)
			case a.punct():
				term = a.Val
			case a.comment():
				comments = append(comments, a.Val[1:])
			default:
				d.Args = append(d.Args, a.Val)
			}
		}
		stmt := d.Directive + " " + strings.Join(d.Args, " ")
		mkErr := func(whats ...string) RErr {
			return RErr{Whats: whats, File: p.cur.File, Line: d.Line, Statement: stmt, BlockCtx: lastCtx(ctx)}
		}

		if len(ctx) > 0 && contains(mapKinds, lastCtx(ctx)) {
			min, max := mapRule(lastCtx(ctx), d.Directive)
			switch {
			case term != ";":
				p.report(mkErr(`unexpected "` + term + `"`))
			case len(d.Args) < min || max >= 0 && len(d.Args) > max:
				p.report(mkErr("invalid number of parameters"))
			default:
				d.IsMapBlockParameter = true
				out = append(out, d)
				out = p.comments(out, comments, d)
			}
			if term == "{" {
				if e := p.skip(ctx); e != nil {
					return nil, e
				}
			}
			if term == "}" {
				return out, nil
			}
			continue
		}

		if term != "}" && contains(p.o.Ignore, d.Directive) {
			if term == "{" {
				if e := p.skip(ctx); e != nil {
					return nil, e
				}
			}
			continue
		}

		whats := refValidate(d.Directive, d.Args, term, ctx, p.o)
		if whats == nil && d.Directive == "include" && !p.o.Single && len(d.Args) == 0 {
			whats = []string{fmt.Sprintf(`invalid number of arguments in "include" directive in %s:%d`, p.cur.File, d.Line)}
		}
		if whats != nil {
			p.report(mkErr(whats...))
			if term == "{" {
				if e := p.skip(ctx); e != nil {
					return nil, e
				}
			}
			if term == "}" {
				return out, nil
			}
			continue
		}

		if d.Directive == "if" {
			d.Args = refIfArgs(d.Args)
		}

		if d.Directive == "include" && !p.o.Single {
			p.include(d, ctx, mkErr)
		}

		if term == "{" {
			d.Block = cp.Directives{}
			inner := enterCtx(ctx, d.Directive)
			if e := p.tooDeep(p.depth+1, inner); e != nil {
				return nil, e
			}
			p.depth++
			block, e := p.block(inner)
			p.depth--
			if e != nil {
				return nil, e
			}
			d.Block = append(d.Block, block...)
		}
		out = append(out, d)
		out = p.comments(out, comments, d)
	}
	return out, nil
}

// comments adds the comments found among the arguments of a statement.
func (p *refParser) comments(out cp.Directives, comments []string, d *cp.Directive) cp.Directives {
	if p.o.Comments {
		for _, c := range comments {
			c := c
			out = append(out, &cp.Directive{Directive: "#", Line: d.Line, Args: []string{}, File: d.File, Comment: &c})
		}
	}
	return out
}

func (p *refParser) include(d *cp.Directive, ctx []string, mkErr func(...string) RErr) {
	pattern := d.Args[0]
	if !filepath.IsAbs(pattern) {
		pattern = filepath.Join(p.dir, pattern)
	}
	var names []string
	if strings.ContainsAny(pattern, "*?[") {
		var err error
		names, err = p.fs.glob(pattern)
		if p.fails("glob", pattern) {
			names, err = nil, p.fault.err()
		}
		if err != nil {
			p.report(mkErr(err.Error()))
		}
		sort.Strings(names)
	} else if p.fails("open", pattern) {
		p.report(mkErr(p.fault.err().Error()))
	} else if _, err := p.fs.open(pattern); err != nil {
		p.report(mkErr(err.Error()))
	} else {
		names = []string{pattern}
	}
	for _, n := range names {
		if _, ok := p.index[n]; !ok {
			p.index[n] = len(p.index)
			p.push(n, ctx)
		}
		d.Includes = append(d.Includes, p.index[n])
		p.edges[p.cur.File] = append(p.edges[p.cur.File], n)
	}
}

// refIfArgs strips the parentheses around a condition.
func refIfArgs(args []string) []string {
	n := len(args)
	if n == 0 || !strings.HasPrefix(args[0], "(") || !strings.HasSuffix(args[n-1], ")") {
		return args
	}
	out := append([]string{}, args...)
	out[0] = strings.TrimLeft(out[0][1:], " \t\n\v\f\r")
	out[n-1] = strings.TrimRight(strings.TrimSuffix(out[n-1], ")"), " \t\n\v\f\r")
	if len(out) > 0 && out[0] == "" {
		out = out[1:]
	}
	if len(out) > 0 && out[len(out)-1] == "" && len(args) > 1 {
		out = out[:len(out)-1]
	}
	return out
}

// hasCycle looks for a cycle by depth-first search.
func hasCycle(edges map[string][]string) bool {
	const (
		active = 1
		done   = 2
	)
	state := map[string]int{}
	var visit func(string) bool
	visit = func(n string) bool {
		switch state[n] {
		case active:
			return true
		case done:
			return false
		}
		state[n] = active
		for _, m := range edges[n] {
			if visit(m) {
				return true
			}
		}
		state[n] = done
		return false
	}
	for _, n := range sortedKeys(edges) {
		if visit(n) {
			return true
		}
	}
	return false
}

// refCombine inlines the includes of a payload's configurations.
func refCombine(configs []cp.Directives) (cp.Directives, error) {
	if len(configs) == 0 {
		return nil, nil
	}
	var expand func(ds cp.Directives, path []int) (cp.Directives, error)
	budget := 200000
	expand = func(ds cp.Directives, path []int) (cp.Directives, error) {
		out := cp.Directives{}
		for _, d := range ds {
			if budget--; budget < 0 {
				return nil, errors.New("too large")
			}
			c := *d
			if d.Block != nil {
				b, err := expand(d.Block, path)
				if err != nil {
					return nil, err
				}
				c.Block = b
			}
			if d.Directive != "include" || d.Includes == nil {
				out = append(out, &c)
				continue
			}
			for _, i := range d.Includes {
				if i < 0 || i >= len(configs) {
					return nil, fmt.Errorf("index %d out of range", i)
				}
				for _, j := range path {
					if i == j {
						return nil, errors.New("cycle")
					}
				}
				sub, err := expand(configs[i], append(append([]int{}, path...), i))
				if err != nil {
					return nil, err
				}
				out = append(out, sub...)
			}
		}
		return out, nil
	}
	return expand(configs[0], []int{0})
}
