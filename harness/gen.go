package main

import (
	"fmt"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- small helpers

func intn(t *rapid.T, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, "n") }

func chance(t *rapid.T, percent int) bool { return rapid.IntRange(0, 99).Draw(t, "p") >= 100-percent }

// pick draws an index with the given weights; index 0 is what shrinking aims at.
func pick(t *rapid.T, weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	n := rapid.IntRange(0, sum-1).Draw(t, "k")
	for i, w := range weights {
		if n < w {
			return i
		}
		n -= w
	}
	return 0
}

func oneOf(t *rapid.T, xs []string) string { return xs[rapid.IntRange(0, len(xs)-1).Draw(t, "i")] }

// size draws a length that is mostly small and sometimes large.
func size(t *rapid.T, small, large int) int {
	if chance(t, 4) {
		return intn(t, small, large)
	}
	return intn(t, 0, small)
}

// ---------------------------------------------------------------- words

// Word is an argument: how it is spelled in the text, and the value that spelling has.
type Word struct {
	S string
	V string
	Q bool `json:",omitempty"`
}

func bare(s string) Word { return Word{S: s, V: s} }

var plainWords = []string{
	"a", "x1", "on", "off", "foo", "bar_baz", "80", "127.0.0.1:8080", "/var/log/nginx.log", "$host", "$remote_addr", "~*",
	"=", "\\.php$", "^~", "text/html", "10m", "*.example.com", "~^(www\\.)?(.+)$", "max_fails=3", "é", "日本", "𝄞x", "a-b", "[::]:80",
	"http://x/?a=b&c=d", "a#b", "a\"b", "it's", "(", ")", "!", "|", "a\\;b", "a\\{b", "a\\ b", "\\\"", "\\'q", "\\\\", "${x}", "a${b}c", "$$", "100%", "user",
	"server", "location", "http", "include", "map",
}

// bareSegs are pieces that can follow each other inside a bare word.
var bareSegs = []string{
	"a", "b", "Z", "0", "9", "_", "-", ".", "/", ":", "=", "?", "&", "*", "+", "~", "^", "(", ")", "[", "]", "|", "!", "@", "%", ",", "<", ">", "`",
	"#", "\"", "'", "$x", "$1", "${var}", "${a_b}", "${x[@]}", "é", "ß", "日", "本", "𝄞", "\u200b", "\u0301", "\x01", "\x7f",
	"\\a", "\\n", "\\t", "\\.", "\\\\", "\\\"", "\\'", "\\;", "\\{", "\\}", "\\ ", "\\#", "\\$", "\\é", "\\\t", "n", "t", "r",
}

// genBare draws a bare word: no quotes or "#" at its start, no unescaped space, brace or semicolon.
func genBare(t *rapid.T) Word {
	n := intn(t, 1, 6)
	if chance(t, 3) {
		n = intn(t, 20, 120)
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		s := oneOf(t, bareSegs)
		if i == 0 && strings.ContainsAny(s[:1], "\"'#") {
			s = "a" + s
		}
		sb.WriteString(s)
	}
	s := sb.String()
	if chance(t, 3) {
		s = s + strings.Repeat(oneOf(t, []string{"x", "é", "日", "ab", "\\;"}), intn(t, 100, 3000))
	}
	if strings.HasSuffix(s, "$") && chance(t, 50) {
		s += "z"
	}
	return bare(s)
}

var quotedSegs = []string{
	"a", "b c", " ", "  ", "{", "}", ";", "#", "# x", "$x", "${y}", "${", "$", "(", ")", "=", "é", "日本", "𝄞", "\u00a0", "\u200b", "\u2028", "\t", "\n", "\\n", "\\t", "\\r", "\\a",
	"\\\\", "\\;", "\\{", "\\}", "\\ ", "\\$", "0", "if", "include", "\x01", ".", "/", "'", "\"", "\\'", "\\\"", "/*", "//", "<", "&", "%20", "{{", "}}",
}

// genQuoted draws a quoted string.
func genQuoted(t *rapid.T, newlines bool) Word {
	q := oneOf(t, []string{"\"", "'"})
	n := intn(t, 0, 5)
	if chance(t, 3) {
		n = intn(t, 20, 150)
	}
	var src, val strings.Builder
	for i := 0; i < n; i++ {
		s := oneOf(t, quotedSegs)
		if s == "\n" && !newlines {
			s = " "
		}
		switch s {
		case q, "\\" + q:
			// the quote itself has to be escaped, and loses its backslash
			src.WriteString("\\" + q)
			val.WriteString(q)
		default:
			src.WriteString(s)
			val.WriteString(s)
		}
	}
	if chance(t, 2) {
		s := strings.Repeat(oneOf(t, []string{"x ", "é", "日;", "ab{"}), intn(t, 100, 3000))
		src.WriteString(s)
		val.WriteString(s)
	}
	return Word{S: q + src.String() + q, V: val.String(), Q: true}
}

func genWord(t *rapid.T) Word {
	switch pick(t, 45, 25, 25, 5) {
	case 0:
		return bare(oneOf(t, plainWords))
	case 1:
		return genBare(t)
	case 2:
		return genQuoted(t, true)
	default:
		return bare(fmt.Sprintf("w%d", intn(t, 0, 9999)))
	}
}

// spell draws a spelling of a value that needs no escapes.
func spell(t *rapid.T, v string) Word {
	if v == "" || strings.ContainsAny(v, " \t\n{};#\"'") {
		return Word{S: "\"" + strings.ReplaceAll(v, `"`, `\"`) + "\"", V: v, Q: true}
	}
	switch pick(t, 80, 10, 10) {
	case 1:
		return Word{S: "\"" + v + "\"", V: v, Q: true}
	case 2:
		return Word{S: "'" + v + "'", V: v, Q: true}
	}
	return bare(v)
}

// ---------------------------------------------------------------- layout

// Gap is what separates tokens: white space, and comments with the line ends after them.
type Gap struct {
	S string
	C []string `json:",omitempty"`
}

var wsShort = []string{" ", "  ", "\n", "\t", "\r\n", "\n    ", " \n\n ", "\r\n\r\n\t", "\n\t\t"}

func genWS(t *rapid.T) string {
	if chance(t, 60) {
		return " "
	}
	return oneOf(t, wsShort)
}

var commentSegs = []string{
	"a", " ", "word", "#", ";", "{", "}", "\"", "'", "\\", "\\n", "$", "${", "é", "日本", "\t", "\u00a0", "server { listen 80; }", "it's", "-- ", "x", "0", ".", "\\\\", "(", ")",
	"\x00", "\x01", "\x0b", "\x0c", "\x1b", "\x7f", "\u0085", "\u200b", "\ufeff", "\u2028", "𝄞", "e\u0301", "%d", "/*", "*/", "//", "A", "=", "!", "-", ":", ",",
}

func genCommentText(t *rapid.T) string {
	n := size(t, 4, 60)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(oneOf(t, commentSegs))
	}
	s := sb.String()
	// a backslash before the line end would be dropped
	return strings.TrimRight(s, "\\")
}

// genGap draws a separator; if needed, it is not empty.
func genGap(t *rapid.T, needed, comments bool) Gap {
	if comments && chance(t, 6) {
		var g Gap
		g.S = oneOf(t, []string{" ", "\n", "  ", "\r\n"})
		for n := intn(t, 1, 2); n > 0; n-- {
			c := genCommentText(t)
			g.C = append(g.C, c)
			g.S += "#" + c + oneOf(t, []string{"\n", "\r\n", "\n  ", "\n\n"})
		}
		return g
	}
	if needed {
		return Gap{S: genWS(t)}
	}
	if chance(t, 70) {
		return Gap{}
	}
	return Gap{S: genWS(t)}
}

// ---------------------------------------------------------------- configuration trees

// Node is a statement or a comment together with its layout.
type Node struct {
	Pre   string  `json:",omitempty"` // white space before the statement
	N     Word    `json:",omitempty"`
	A     []Word  `json:",omitempty"`
	G     []Gap   `json:",omitempty"` // before each argument
	End   Gap     `json:",omitempty"` // before the terminator
	Blk   bool    `json:",omitempty"`
	B     []*Node `json:",omitempty"`
	Close string  `json:",omitempty"` // white space before the closing brace
	C     *string `json:",omitempty"` // comment
	EOL   string  `json:",omitempty"` // line end after a comment
	Map   bool    `json:",omitempty"` // entry of a map-like block
	If    bool    `json:",omitempty"` // condition in parentheses
	IfO   string  `json:",omitempty"` // after the opening parenthesis
	IfC   string  `json:",omitempty"` // before the closing parenthesis
	R     int     `json:",omitempty"` // repeated this many more times
	D     int     `json:",omitempty"` // nested in itself this many more times
	Lua   *string `json:",omitempty"` // Lua code in braces, which takes the place of the terminator

	Bad *Bad   `json:",omitempty"` // the statement is invalid
	Raw string `json:",omitempty"` // replaces the terminator
}

// Bad is the error expected for an invalid statement.
type Bad struct {
	Whats        []string
	Ctx          string // enclosing block
	Unterminated bool   // ended by the brace of its block
}

type treeStats struct {
	stmts, depth, maxArgs, quoted, comments, argComments, empties, maps, ifs, newlines, luas int
}

// rendered is a configuration text and the tree it denotes.
type rendered struct {
	text  string
	dirs  cp.Directives // with comments
	errs  []RErr
	stats treeStats
}

type renderer struct {
	sb    strings.Builder
	line  int
	file  string
	errs  []RErr
	stats treeStats
}

func (r *renderer) w(s string) {
	r.sb.WriteString(s)
	r.line += strings.Count(s, "\n")
}

// render writes a tree as text and computes what parsing it yields.
func render(nodes []*Node, tail string) *rendered {
	r := &renderer{line: 1}
	dirs := r.block(nodes, 1)
	r.w(tail)
	if dirs == nil {
		dirs = cp.Directives{}
	}
	return &rendered{text: r.sb.String(), dirs: dirs, errs: r.errs, stats: r.stats}
}

func (r *renderer) block(nodes []*Node, depth int) cp.Directives {
	out := cp.Directives{}
	if depth > r.stats.depth {
		r.stats.depth = depth
	}
	for _, n := range nodes {
		for i := 0; i <= n.R; i++ {
			out = append(out, r.node(n, n.D, depth)...)
		}
	}
	return out
}

func (r *renderer) node(n *Node, d, depth int) cp.Directives {
	r.w(n.Pre)
	if n.C != nil {
		c := *n.C
		r.stats.comments++
		line := r.line
		r.w("#" + c + n.EOL)
		return cp.Directives{{Directive: "#", Line: line, Args: []string{}, Comment: &c}}
	}
	r.stats.stmts++
	dir := &cp.Directive{Directive: n.N.V, Line: r.line, Args: []string{}, IsMapBlockParameter: n.Map}
	r.w(n.N.S)
	var comments []string
	for i, a := range n.A {
		g := n.G[i]
		r.w(g.S)
		comments = append(comments, g.C...)
		if n.If && i == 0 {
			r.w("(" + n.IfO)
		}
		r.w(a.S)
		if n.If && i == len(n.A)-1 {
			r.w(n.IfC + ")")
		}
		if a.Q {
			r.stats.quoted++
		}
		dir.Args = append(dir.Args, a.V)
	}
	if len(n.A) > r.stats.maxArgs {
		r.stats.maxArgs = len(n.A)
	}
	if n.If {
		r.stats.ifs++
	}
	if n.Map {
		r.stats.maps++
	}
	r.w(n.End.S)
	comments = append(comments, n.End.C...)
	r.stats.argComments += len(comments)

	errAt := -1
	if n.Bad != nil {
		args := dir.Args
		if n.If && len(args) > 0 {
			panic(infraError{fmt.Errorf("invalid if statements are not supported")})
		}
		errAt = len(r.errs)
		r.errs = append(r.errs, RErr{
			Whats: n.Bad.Whats, Line: dir.Line, BlockCtx: n.Bad.Ctx,
			Statement: dir.Directive + " " + strings.Join(args, " "),
		})
	}
	switch {
	case n.Lua != nil:
		r.w("{" + *n.Lua + "}")
		dir.Args = append(dir.Args, *n.Lua)
		r.stats.luas++
	case n.Raw != "" || n.Bad != nil && n.Bad.Unterminated:
		r.w(n.Raw)
	case n.Blk:
		r.w("{")
		if d > 0 {
			dir.Block = r.node(n, d-1, depth+1)
			if depth+1 > r.stats.depth {
				r.stats.depth = depth + 1
			}
		} else {
			dir.Block = r.block(n.B, depth+1)
		}
		if len(dir.Block) == 0 {
			r.stats.empties++
		}
		r.w(n.Close + "}")
	default:
		r.w(";")
	}
	if errAt >= 0 {
		// what is inside an invalid statement is not looked at
		r.errs = r.errs[:errAt+1]
		return nil
	}
	out := cp.Directives{dir}
	for _, c := range comments {
		c := c
		out = append(out, &cp.Directive{Directive: "#", Line: dir.Line, Args: []string{}, Comment: &c})
	}
	return out
}

// withoutComments returns the tree without its comments.
func withoutComments(ds cp.Directives) cp.Directives {
	if ds == nil {
		return nil
	}
	out := cp.Directives{}
	for _, d := range ds {
		if d.Directive == "#" && d.Comment != nil {
			continue
		}
		c := *d
		c.Block = withoutComments(d.Block)
		out = append(out, &c)
	}
	return out
}

// ---------------------------------------------------------------- tree generator

// catalogue of valid statements by context; "{}" marks a block, "..." a list of words.
type tmpl struct {
	name string
	args []string // alternatives separated by "|"; "*w" any word; "*W" one or more words
	blk  bool
}

var catalogue = map[string][]tmpl{
	"": {
		{"user", []string{"nobody|www-data|nginx"}, false},
		{"worker_processes", []string{"auto|1|4"}, false},
		{"error_log", []string{"logs/error.log|/dev/null|stderr"}, false},
		{"pid", []string{"*w"}, false},
		{"daemon", []string{"on|off|ON"}, false},
		{"env", []string{"*w"}, false},
		{"load_module", []string{"*w"}, false},
		{"events", nil, true},
		{"http", nil, true},
		{"stream", nil, true},
		{"mail", nil, true},
	},
	"events": {
		{"worker_connections", []string{"1024|*w"}, false},
		{"multi_accept", []string{"on|off"}, false},
		{"use", []string{"epoll"}, false},
	},
	"http": {
		{"server", nil, true},
		{"upstream", []string{"*w"}, true},
		{"gzip", []string{"on|off|Off"}, false},
		{"log_format", []string{"main|*w", "*W"}, false},
		{"access_log", []string{"*w"}, false},
		{"map", []string{"$a|$http_upgrade|${x}", "$b|*w"}, true},
		{"geo", []string{"$geo"}, true},
		{"types", nil, true},
		{"split_clients", []string{"*w", "$v"}, true},
		{"charset_map", []string{"koi8-r", "utf-8"}, true},
		{"match", []string{"ok|*w"}, true},
		{"keepalive_timeout", []string{"65|0"}, false},
		{"proxy_cache_path", []string{"*w", "*W"}, false},
		{"add_header", []string{"X-A|*w", "*w"}, false},
		{"server_names_hash_bucket_size", []string{"64"}, false},
	},
	"http>server": {
		{"listen", []string{"80|127.0.0.1:8080|[::]:80|*w"}, false},
		{"server_name", []string{"*W"}, false},
		{"location", []string{"/|*w"}, true},
		{"location", []string{"=|~|~*|^~", "*w"}, true},
		{"if", nil, true},
		{"return", []string{"301|200", "*w"}, false},
		{"set", []string{"$x", "*w"}, false},
		{"rewrite", []string{"*w", "*w", "last|break"}, false},
		{"root", []string{"*w"}, false},
		{"error_page", []string{"404|500", "*W"}, false},
		{"ssl_certificate", []string{"*w"}, false},
		{"proxy_set_header", []string{"Host|*w", "$host|*w"}, false},
		{"access_log", []string{"off|*w"}, false},
	},
	"http>location": {
		{"proxy_pass", []string{"http://up|*w"}, false},
		{"return", []string{"200|204", "*w"}, false},
		{"if", nil, true},
		{"limit_except", []string{"GET", "*W"}, true},
		{"location", []string{"/|*w"}, true},
		{"alias", []string{"*w"}, false},
		{"try_files", []string{"$uri|*w", "*W"}, false},
		{"set", []string{"$y", "*w"}, false},
		{"deny", []string{"all"}, false},
		{"sub_filter", []string{"*w", "*w"}, false},
		{"internal", nil, false},
		{"proxy_buffering", []string{"on|off"}, false},
		{"fastcgi_param", []string{"*w", "*w"}, false},
	},
	"http>server>if": {
		{"return", []string{"403"}, false},
		{"set", []string{"$z", "*w"}, false},
		{"rewrite", []string{"*w", "*w"}, false},
		{"break", nil, false},
	},
	"http>location>if": {
		{"return", []string{"403"}, false},
		{"set", []string{"$z", "*w"}, false},
		{"proxy_pass", []string{"*w"}, false},
		{"break", nil, false},
	},
	"http>location>limit_except": {
		{"deny", []string{"all"}, false},
		{"allow", []string{"10.0.0.0/8|*w"}, false},
		{"proxy_pass", []string{"*w"}, false},
	},
	"http>upstream": {
		{"server", []string{"*W"}, false},
		{"keepalive", []string{"16|*w"}, false},
		{"ip_hash", nil, false},
		{"zone", []string{"*w", "64k"}, false},
	},
	"stream": {
		{"server", nil, true},
		{"upstream", []string{"*w"}, true},
		{"map", []string{"$a", "$b"}, true},
		{"geo", []string{"$g"}, true},
	},
	"stream>server": {
		{"listen", []string{"*w", "udp|ssl"}, false},
		{"proxy_pass", []string{"*w"}, false},
		{"proxy_timeout", []string{"3s"}, false},
	},
	"stream>upstream": {
		{"server", []string{"*W"}, false},
		{"least_conn", nil, false},
	},
	"mail": {
		{"server", nil, true},
		{"auth_http", []string{"*w"}, false},
	},
	"mail>server": {
		{"listen", []string{"*w"}, false},
		{"protocol", []string{"imap|pop3|smtp"}, false},
	},
}

// treeGen draws configurations that are valid under the default directive table.
type treeGen struct {
	comments bool
	budget   int
	known    bool // use the catalogue
	include  func(t *rapid.T, ctx []string) *Node
	bad      int // percentage of statements that are invalid
	lua      func(t *rapid.T) *Node
}

// layout fills in the white space of a node.
func layout(t *rapid.T, n *Node, first, comments bool) {
	n.Pre = ""
	if !first || chance(t, 50) {
		if chance(t, 85) {
			n.Pre = oneOf(t, []string{"\n", "\n  ", "\r\n", " ", "\n\n\t", "\n    "})
		}
	} else if chance(t, 20) {
		n.Pre = genWS(t)
	}
	prevQuoted := n.N.Q
	_ = prevQuoted
	n.G = nil
	for i := range n.A {
		n.G = append(n.G, genGap(t, true, comments))
		_ = i
	}
	last := n.N
	if len(n.A) > 0 {
		last = n.A[len(n.A)-1]
	}
	n.End = genGap(t, n.Blk && !n.If && !last.Q && strings.HasSuffix(last.S, "$"), comments)
	if n.Blk {
		n.Close = oneOf(t, []string{"\n", "", " ", "\r\n\t", "\n  "})
	}
}

func commentNode(t *rapid.T) *Node {
	c := genCommentText(t)
	return &Node{
		C: &c, EOL: oneOf(t, []string{"\n", "\r\n", "\n\n"}),
		Pre: oneOf(t, []string{"\n", " ", "", "\n  ", "\r\n"}),
	}
}

var unknownNames = []string{"x_foo", "x_bar", "xyz", "my-directive", "x_if", "x.y", "X_SERVER", "x_map", "éx", "x日本", "IF", "If", "iF", "if_x", "elsif", "INCLUDE", "Include", "includes", "x_include", "LUA_block"}

// parens are arguments like those of an if block.
var parens = []string{"(a)", "(", ")", "()", "(a", "a)", "($x", "=", "b)", "(a)b", "((a))", "(\\)", "(a\\)"}

// freeName draws a directive name that no definition is known for.
func freeName(t *rapid.T) Word {
	if chance(t, 85) {
		return spell(t, oneOf(t, unknownNames))
	}
	w := genWord(t)
	if _, known := cp.DefaultDirectivesMatchFunc(w.V); known || contains(mapKinds, w.V) || w.V == "if" || w.V == "include" ||
		strings.HasSuffix(w.V, "_by_lua_block") || strings.HasPrefix(w.V, "geoip2") {
		return bare("x_" + w.V)
	}
	return w
}

func genArgs(t *rapid.T, max int) []Word {
	var out []Word
	n := intn(t, 0, max)
	if chance(t, 3) {
		n = intn(t, 7, 15)
	}
	for i := 0; i < n; i++ {
		out = append(out, genWord(t))
	}
	if n > 0 && chance(t, 7) {
		for i := range out {
			out[i] = spell(t, oneOf(t, parens))
		}
	}
	return out
}

// condition draws the words of an if condition.
func condition(t *rapid.T, n *Node) {
	n.If = true
	count := intn(t, 1, 3)
	for i := 0; i < count; i++ {
		w := genWord(t)
		if i == 0 || i == count-1 {
			// white space next to the parentheses is trimmed, so do not end in an escaped space
			if w.V == "" || strings.TrimSpace(w.V) != w.V && !w.Q || hasUnicodeSpace(w.V) {
				w = bare("$x")
			}
		}
		if i == 0 && (strings.HasPrefix(w.V, ")") || strings.HasPrefix(w.V, "\\")) {
			w = bare("$x")
		}
		n.A = append(n.A, w)
	}
	n.IfO = oneOf(t, []string{"", " ", "\n"})
	if n.A[0].Q {
		n.IfO = " "
	}
	n.IfC = oneOf(t, []string{"", " ", "\n"})
	if w := n.A[count-1]; !w.Q && strings.HasSuffix(w.S, "\\") {
		n.IfC = " "
	}
}

// respelled changes a name slightly.
func respelled(t *rapid.T, s string) string {
	switch pick(t, 25, 25, 15, 15, 10, 10) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	case 2:
		return s + oneOf(t, []string{"s", "_", "-", "x", "2", "."})
	case 3:
		return oneOf(t, []string{"x", "_", ".", "-"}) + s
	case 4:
		return strings.ReplaceAll(s, "_", "-")
	}
	return s[:len(s)-1] + "x"
}

func mapEntry(t *rapid.T, kind string) *Node {
	n := &Node{Map: true}
	keys := []string{"default", "a", "~*x", "hostnames", "volatile", "ranges", "proxy_recursive", "proxy", "delete", "include", "if", "server", "1.2.3.0/24", "80", "auto_reload", "text/html", "*", "50%", "location", "#", "$x"}
	if chance(t, 60) {
		k := oneOf(t, keys)
		if chance(t, 12) {
			k = respelled(t, k)
		}
		n.N = spell(t, k)
	} else {
		n.N = genWord(t)
	}
	if !n.N.Q && strings.HasPrefix(n.N.S, "#") {
		n.N = Word{S: `"` + n.N.S + `"`, V: n.N.V, Q: true}
	}
	min, max := mapRule(kind, n.N.V)
	k := min
	if max < 0 {
		k = intn(t, min, min+3)
		if chance(t, 3) {
			k = intn(t, 7, 14)
		}
	}
	for i := 0; i < k; i++ {
		w := genWord(t)
		if chance(t, 8) {
			w = spell(t, oneOf(t, flagWords))
		}
		n.A = append(n.A, w)
	}
	return n
}

// flagWords are values that flags have.
var flagWords = []string{"on", "off", "ON", "Off", "yes", "no", "1", "0", "true"}

// stmts draws the contents of a block.
func (g *treeGen) stmts(t *rapid.T, ctx []string, depth int) []*Node {
	var out []*Node
	max := 6
	if depth > 3 {
		max = 2
	}
	count := intn(t, 0, max)
	kind := lastCtx(ctx)
	inMap := len(ctx) > 0 && contains(mapKinds, kind)
	for i := 0; i < count && g.budget > 0; i++ {
		g.budget--
		if g.comments && chance(t, 12) {
			out = append(out, commentNode(t))
			continue
		}
		var n *Node
		if g.bad > 0 && chance(t, g.bad) {
			n = g.badStmt(t, ctx, depth)
		}
		switch {
		case n != nil:
		case inMap:
			n = mapEntry(t, kind)
		case g.lua != nil && chance(t, 30):
			out = append(out, g.lua(t))
			continue
		default:
			n = g.stmt(t, ctx, depth)
		}
		layout(t, n, i == 0, g.comments)
		if !n.Blk && chance(t, 2) {
			n.R = intn(t, 1, 40)
			if chance(t, 30) {
				n.R = intn(t, 700, 1400)
			}
			n.R = atMost(n.R, n, 300000)
		}
		out = append(out, n)
	}
	if g.bad > 0 && depth > 0 && chance(t, g.bad/3) {
		out = append(out, g.unterminated(t, ctx))
	}
	return out
}

// badStmt draws a statement that is invalid where it is, or nil.
func (g *treeGen) badStmt(t *rapid.T, ctx []string, depth int) *Node {
	kind := lastCtx(ctx)
	if len(ctx) > 0 && contains(mapKinds, kind) {
		n := mapEntry(t, kind)
		n.Map = false
		n.Bad = &Bad{Ctx: kind}
		min, max := mapRule(kind, n.N.V)
		switch {
		case chance(t, 40):
			n.Blk = true
			n.Bad.Whats = []string{`unexpected "{"`}
			n.B = g.inside(t, ctx, depth)
			return n
		case min > 0 && chance(t, 50):
			n.A = n.A[:intn(t, 0, min-1)]
		case max >= 0:
			k := intn(t, 1, 3) + max - len(n.A)
			if chance(t, 30) {
				k = oneInt(t, []int{6, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 72})
			}
			for ; k > 0; k-- {
				w := bare("x")
				if chance(t, 30) {
					w = spell(t, oneOf(t, flagWords))
				} else if k < 5 {
					w = genWord(t)
				}
				n.A = append(n.A, w)
			}
		default:
			n.A = nil
		}
		n.Bad.Whats = []string{"invalid number of parameters"}
		return n
	}
	n := &Node{N: bare(oneOf(t, definedNames)), A: genArgs(t, 4), Blk: chance(t, 40)}
	if list := catalogue[strings.Join(ctx, ">")]; len(list) > 0 && chance(t, 60) {
		n.N = spell(t, list[intn(t, 0, len(list)-1)].name)
	}
	term := ";"
	if n.Blk {
		term = "{"
	}
	args := []string{}
	for _, a := range n.A {
		args = append(args, a.V)
	}
	whats := refValidate(n.N.V, args, term, ctx, Opts{})
	if whats == nil {
		return nil
	}
	n.Bad = &Bad{Whats: whats, Ctx: kind}
	if n.Blk {
		n.B = g.inside(t, ctx, depth)
	}
	return n
}

// inside draws what is in the block of an invalid statement.
func (g *treeGen) inside(t *rapid.T, ctx []string, depth int) []*Node {
	in := &treeGen{comments: true, known: g.known, budget: 6, bad: 20}
	return in.stmts(t, [][]string{nil, {"http"}, {"x"}, {"map"}, ctx}[intn(t, 0, 4)], depth+1)
}

// unterminated draws a statement that is ended by the brace of its block.
func (g *treeGen) unterminated(t *rapid.T, ctx []string) *Node {
	kind := lastCtx(ctx)
	n := &Node{N: freeName(t), A: genArgs(t, 3), Bad: &Bad{Ctx: kind, Unterminated: true}}
	if len(ctx) > 0 && contains(mapKinds, kind) {
		n.Bad.Whats = []string{`unexpected "}"`}
	} else {
		if chance(t, 40) {
			n.N = bare(oneOf(t, definedNames))
		}
		args := []string{}
		for _, a := range n.A {
			args = append(args, a.V)
		}
		n.Bad.Whats = refValidate(n.N.V, args, "}", ctx, Opts{})
	}
	layout(t, n, false, g.comments)
	return n
}

// atMost limits a repetition of a statement so that the text stays below size.
func atMost(r int, n *Node, size int) int {
	l := len(n.N.S) + 10
	for _, a := range n.A {
		l += len(a.S) + 1
	}
	if r*l > size {
		return size / l
	}
	return r
}

func (g *treeGen) stmt(t *rapid.T, ctx []string, depth int) *Node {
	key := strings.Join(ctx, ">")
	if g.include != nil && chance(t, 25) {
		if n := g.include(t, ctx); n != nil {
			return n
		}
	}
	list := catalogue[key]
	if g.known && len(list) > 0 && chance(t, 75) {
		tm := list[intn(t, 0, len(list)-1)]
		n := &Node{N: spell(t, tm.name), Blk: tm.blk}
		for _, a := range tm.args {
			alts := strings.Split(a, "|")
			a = alts[intn(t, 0, len(alts)-1)]
			switch a {
			case "*w":
				n.A = append(n.A, genWord(t))
			case "*W":
				for k := intn(t, 1, 3); k > 0; k-- {
					n.A = append(n.A, genWord(t))
				}
				if chance(t, 4) {
					for k := intn(t, 4, 12); k > 0; k-- {
						n.A = append(n.A, genWord(t))
					}
				}
			default:
				n.A = append(n.A, spell(t, a))
			}
		}
		if tm.name == "if" {
			condition(t, n)
		}
		if n.Blk {
			n.B = g.stmts(t, enterCtx(ctx, tm.name), depth+1)
		}
		return n
	}
	if chance(t, 75) {
		return &Node{N: freeName(t), A: genArgs(t, 4)}
	}
	// a block that nothing is known about; what is inside is not validated
	n := &Node{N: freeName(t), A: genArgs(t, 2), Blk: true}
	if n.N.V == "" {
		n.N = bare("x_foo") // a block with an empty name is read as no block
	}
	if chance(t, 15) {
		n.N = bare(oneOf(t, []string{"if", "if", oneOf(t, mapKinds)}))
		if _, known := ctxBits[key]; known {
			n.N = bare("x_unknown")
		}
		if n.N.V == "if" {
			n.A = nil
			condition(t, n)
		}
	}
	if !contains(mapKinds, n.N.V) && chance(t, 4) {
		n.D = intn(t, 1, 12)
		if chance(t, 40) {
			n.D = intn(t, 20, 130)
		}
		n.D = atMost(n.D, n, 100000)
	}
	n.B = g.stmts(t, enterCtx(ctx, n.N.V), depth+1)
	if len(ctx) > 0 && n.D > 0 && n.N.V == "location" {
		n.D = 0
	}
	return n
}

// Conf is a configuration with its layout.
type Conf struct {
	Nodes []*Node
	Tail  string `json:",omitempty"`
}

func (c Conf) render() *rendered { return render(c.Nodes, c.Tail) }

func genConf(t *rapid.T, g *treeGen, ctx []string) Conf {
	if g.budget == 0 {
		g.budget = 40
	}
	c := Conf{Nodes: g.stmts(t, ctx, 0)}
	if n := len(c.Nodes); n > 0 && c.Nodes[n-1].C != nil && chance(t, 30) {
		c.Nodes[n-1].EOL = ""
		c.Tail = oneOf(t, []string{"", "\n"})
		return c
	}
	c.Tail = oneOf(t, []string{"", "\n", " ", "\r\n", "\n\n"})
	return c
}

func (s treeStats) label(o *Obs, text string) {
	o.LabelIf(s.depth > 3, "depth>3")
	o.LabelIf(s.depth > 25, "depth>25")
	o.LabelIf(s.stmts > 10, "statements>10")
	o.LabelIf(s.stmts > 690, "tokens>2048 possible")
	o.LabelIf(s.maxArgs >= 7, "args>=7")
	o.LabelIf(s.quoted > 0, "quoted argument")
	o.LabelIf(s.comments > 0, "comment")
	o.LabelIf(s.argComments > 0, "comment inside a statement")
	o.LabelIf(s.empties > 0, "empty block")
	o.LabelIf(s.maps > 0, "map entry")
	o.LabelIf(s.ifs > 0, "if")
	o.LabelIf(len(text) > 4096, "text>4096 bytes")
	o.LabelIf(strings.Contains(text, "\r\n"), "CRLF")
}
