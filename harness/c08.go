package main

import (
	"fmt"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

// mapBlocks are the ways in which map-like blocks occur: the blocks around them and their arguments.
var mapBlocks = []struct {
	ctx  []string
	kind string
	args []string
	src  []string
}{
	{[]string{"http"}, "map", []string{"$a", "$b"}, nil},
	{[]string{"stream"}, "map", []string{"$a", "$b"}, nil},
	{[]string{"http"}, "geo", []string{"$a"}, nil},
	{[]string{"http"}, "geo", []string{"$a", "$b"}, nil},
	{[]string{"stream"}, "geo", []string{"$a"}, nil},
	{[]string{"http"}, "types", nil, nil},
	{[]string{"http", "server"}, "types", nil, nil},
	{[]string{"http", "location"}, "types", nil, nil},
	{[]string{"http"}, "charset_map", []string{"koi8-r", "utf-8"}, nil},
	{[]string{"http"}, "split_clients", []string{"$a", "$b"}, nil},
	{[]string{"stream"}, "split_clients", []string{"$a", "$b"}, nil},
	{[]string{"http"}, "match", []string{"ok"}, nil},
	{[]string{"stream"}, "match", []string{"ok"}, nil},
	{[]string{"http"}, "otel_exporter", nil, nil},
	{[]string{"http"}, "geoip2", []string{"f.mmdb"}, []string{"default", "geoip2"}},
	{[]string{"stream"}, "geoip2", []string{"f.mmdb"}, []string{"geoip2", "plus"}},
}

type mapCase struct {
	Conf Conf
	O    Opts
	Kind string
	In   []string // blocks around the map-like block
}

func genMapCase(t *rapid.T) mapCase {
	mb := mapBlocks[intn(t, 0, len(mapBlocks)-1)]
	c := mapCase{Kind: mb.kind, In: mb.ctx}
	args := mb.args
	c.O = Opts{Single: chance(t, 50), Comments: chance(t, 60), Stop: chance(t, 10), SkipArgs: chance(t, 20), SkipCtx: chance(t, 20), Sources: mb.src}
	if chance(t, 20) {
		// nothing is known about where it is
		c.In = []string{"x_foo"}
		if chance(t, 30) {
			for n := intn(t, 1, oneInt(t, []int{3, 12})); n > 0; n-- {
				c.In = append(c.In, oneOf(t, []string{"x_foo", "x_bar", "x"}))
			}
		}
		if chance(t, 40) {
			args = []string{"any", "number", "of", "arguments"}
		}
	} else if chance(t, 25) {
		c.O.ErrUnknown = true
	}
	if len(c.O.Sources) == 0 && chance(t, 20) {
		c.O.Sources = []string{"plus", "otel", "geoip2"}
	}
	g := &treeGen{comments: chance(t, 50), known: true, budget: 25, bad: oneInt(t, []int{0, 0, 10, 40})}
	entries := func() []*Node { return g.stmts(t, append(append([]string{}, c.In...), c.Kind), 1) }
	blk := &Node{N: spell(t, c.Kind), Blk: true}
	for _, a := range args {
		blk.A = append(blk.A, spell(t, a))
	}
	blk.B = entries()
	layout(t, blk, false, g.comments)
	nodes := []*Node{blk}
	if chance(t, 60) {
		// another one directly before or after it
		b2 := &Node{N: bare(c.Kind), A: blk.A, Blk: true, B: entries()}
		layout(t, b2, false, g.comments)
		nodes = append(nodes, b2)
	}
	other := func() *Node {
		n := &Node{N: bare("include"), A: []Word{bare("none*")}}
		if c.In[0] == "x_foo" && chance(t, 50) {
			n = &Node{N: bare("default"), A: genArgs(t, 4)}
		}
		layout(t, n, false, g.comments)
		return n
	}
	if chance(t, 60) {
		nodes = append(nodes, other())
	}
	if chance(t, 30) {
		nodes = append([]*Node{other()}, nodes...)
	}
	for i := len(c.In) - 1; i >= 0; i-- {
		n := &Node{N: bare(c.In[i]), Blk: true, B: nodes}
		if n.N.V == "location" {
			n.A = []Word{bare("/")}
		}
		layout(t, n, false, false)
		nodes = []*Node{n}
	}
	if c.In[0] == "http" && len(c.In) > 1 && c.In[1] == "location" {
		// a location is in a server
		srv := &Node{N: bare("server"), Blk: true, B: nodes[0].B}
		layout(t, srv, false, false)
		nodes[0].B = []*Node{srv}
	}
	c.Conf = Conf{Nodes: nodes}
	if chance(t, 40) {
		for n := intn(t, 1, 3); n > 0; n-- {
			c.O.Ignore = append(c.O.Ignore, oneOf(t, []string{"default", "a", "hostnames", "volatile", "ranges", "if", "80", "text/html", "$x", "auto_reload", "*", "#", "1.2.3.0/24", "proxy_recursive", "proxy"}))
		}
	}
	return c
}

func init() {
	Register(Check{Prop: "C08", Name: "entries", Quick: 150000,
		Rule: "map-like blocks with valid and invalid entries spelled like directives, in every context, x options (also ignoring what entries are spelled like); non-trivial: at least 2 entries"},
		genMapCase, func(c mapCase, o *Obs) error {
			if contains(c.In, "x_foo") {
				// directives that are to be ignored may come after the block
				for _, d := range c.O.Ignore {
					if d == "default" {
						c.O.Ignore = nil
					}
				}
			}
			r := c.Conf.render()
			want := r.dirs
			if !c.O.Comments {
				want = withoutComments(want)
			}
			for i := range r.errs {
				r.errs[i].File = mainFile
			}
			exp := &RPayload{Configs: []RConfig{{File: mainFile, Errors: r.errs, Parsed: want}}}
			if c.O.Stop && len(r.errs) > 0 {
				exp = &RPayload{Fatal: &r.errs[0]}
			}
			fs := FS{mainFile: r.text}
			p, err := cp.Parse(mainFile, c.O.parseOptions(fs))
			if e := diffPayload(p, err, exp); e != nil {
				return fmt.Errorf("text %q: %w", clip(r.text, 2000), e)
			}
			n, m := 0, 0
			walkDirs(want, 0, func(d *cp.Directive, _ int) {
				if d.IsMapBlockParameter {
					n++
					_, known := cp.DefaultDirectivesMatchFunc(d.Directive)
					o.LabelIf(known, "entry spelled like a directive")
					o.LabelIf(d.Directive == "include", "include as an entry")
					o.LabelIf(contains(c.O.Ignore, d.Directive), "entry spelled like an ignored directive")
				} else {
					m++
				}
			})
			o.Label("block " + c.Kind)
			o.LabelIf(len(r.errs) > 0, "invalid entry")
			o.LabelIf(len(r.errs) > 0 && n > 0, "valid and invalid entries")
			o.NonTrivial(n >= 2)
			return nil
		})
}
