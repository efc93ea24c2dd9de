package main

import (
	"bytes"
	"fmt"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

// Fmt is a JSON-friendly form of the build options.
type Fmt struct {
	Indent int  `json:",omitempty"`
	Tabs   bool `json:",omitempty"`
	Header bool `json:",omitempty"`
}

func (f Fmt) options() *cp.BuildOptions {
	return &cp.BuildOptions{Indent: f.Indent, Tabs: f.Tabs, Header: f.Header}
}

func genFmt(t *rapid.T) Fmt {
	f := Fmt{Tabs: chance(t, 25)}
	if chance(t, 60) {
		f.Indent = oneInt(t, []int{1, 2, 3, 4, 7, 8, 16, 33, 50, 99, 100, 101, 150, -1, -100})
	}
	return f
}

// limit keeps the text of a deep and wide tree to a reasonable size.
func (f Fmt) limit(ds cp.Directives) Fmt {
	indent := f.Indent
	if indent <= 0 {
		indent = 4 // the default
	}
	if n, depth := countDirs(ds); n*depth*indent > 4<<20 {
		f.Indent = 1
	}
	return f
}

func oneInt(t *rapid.T, xs []int) int { return xs[rapid.IntRange(0, len(xs)-1).Draw(t, "i")] }

func buildText(c cp.Config, o *cp.BuildOptions) (string, error) {
	var b bytes.Buffer
	err := cp.Build(&b, c, o)
	return b.String(), err
}

// mergeComments joins the comments that building writes to one line.
func mergeComments(ds cp.Directives) cp.Directives { return mergeFrom(ds, 0) }

func mergeFrom(ds cp.Directives, lastLine int) cp.Directives {
	if ds == nil {
		return nil
	}
	out := cp.Directives{}
	prev := false // the last thing written is a comment
	for _, d := range ds {
		c := *d
		if d.IsComment() {
			if d.Line == lastLine && prev {
				s := *out[len(out)-1].Comment + " #" + *d.Comment
				out[len(out)-1].Comment = &s
				continue
			}
			if d.Line != lastLine {
				lastLine = d.Line
			}
			prev = true
			out = append(out, &c)
			continue
		}
		c.Block = mergeFrom(d.Block, d.Line)
		out = append(out, &c)
		lastLine = d.Line
		prev = false
	}
	return out
}

type roundCase struct {
	Text string
	F    Fmt
	O    Opts
}

func runRound(c roundCase, o *Obs) error {
	c.O.Single, c.O.Comments = true, true
	p1, err := parseText(c.Text, c.O)
	if err != nil {
		return fmt.Errorf("parse: %w", err)
	}
	if p1.Status != "ok" || len(p1.Errors) > 0 {
		o.Label("does not parse")
		return nil
	}
	d1 := p1.Config[0].Parsed
	c.F = c.F.limit(d1)
	b1, err := buildText(p1.Config[0], c.F.options())
	if err != nil {
		return fmt.Errorf("build: %w", err)
	}
	where := func() string { return fmt.Sprintf("text %q, built %q", clip(c.Text, 1500), clip(b1, 1500)) }
	p2, err := parseText(b1, c.O)
	if err != nil {
		return fmt.Errorf("%s: second parse: %w", where(), err)
	}
	if p2.Status != "ok" || len(p2.Errors) > 0 {
		return fmt.Errorf("%s: second parse: %v", where(), p2.Errors[0].Error)
	}
	d2 := p2.Config[0].Parsed
	if err := diffDirs(d2, mergeComments(d1), cmpOpt{noLine: true, sameArg: true}); err != nil {
		return fmt.Errorf("%s: %w", where(), err)
	}
	b2, err := buildText(p2.Config[0], c.F.options())
	if err != nil {
		return fmt.Errorf("second build: %w", err)
	}
	if b1 != b2 {
		return fmt.Errorf("%s: building again gives %q", where(), clip(b2, 1500))
	}
	n, depth := countDirs(d1)
	hostile, comment := false, false
	walkDirs(d1, 1, func(d *cp.Directive, _ int) {
		for _, a := range d.Args {
			hostile = hostile || a == "" || strings.ContainsAny(a, " \t\n{};\"'#\\$")
		}
		comment = comment || d.IsComment()
	})
	o.LabelIf(hostile, "argument with special characters")
	o.LabelIf(comment, "comment")
	o.LabelIf(depth > 3, "depth>3")
	o.LabelIf(depth > 25, "depth>25")
	o.NonTrivial(n >= 2 && (hostile || comment || depth > 1))
	return nil
}

func includeStmt(t *rapid.T, ctx []string) *Node {
	return &Node{N: bare("include"), A: []Word{genWord(t)}}
}

func init() {
	Register(Check{Prop: "C03", Name: "tree", Quick: 40000,
		Rule: "valid configuration with random layout, parsed, built, parsed, built; non-trivial: at least 2 statements and an argument with special characters, a comment or a block"},
		func(t *rapid.T) roundCase {
			g := &treeGen{comments: chance(t, 60), known: chance(t, 70)}
			if chance(t, 20) {
				g.include = includeStmt
			}
			return roundCase{Text: genConf(t, g, nil).render().text, F: genFmt(t)}
		}, runRound)
	Register(Check{Prop: "C03", Name: "mutated", Quick: 40000,
		Rule: "valid configuration with 1-3 characters changed that still parses; non-trivial as for tree"},
		func(t *rapid.T) roundCase {
			g := &treeGen{comments: chance(t, 60), known: chance(t, 50), budget: 12}
			return roundCase{Text: mutateText(t, genConf(t, g, nil).render().text), F: genFmt(t)}
		}, runRound)
	Register(Check{Prop: "C03", Name: "argument", Quick: 60000,
		Rule: "one statement, or an if condition, with a sequence of arguments made of special characters; non-trivial as for tree"},
		func(t *rapid.T) roundCase {
			s := &Node{N: freeName(t), A: genArgs(t, 4)}
			if chance(t, 30) {
				s = &Node{N: bare("if"), Blk: true}
				condition(t, s)
			}
			layout(t, s, true, chance(t, 20))
			n := &Node{N: bare("x"), A: []Word{bare("y")}, G: []Gap{{S: " "}}}
			text := Conf{Nodes: []*Node{s, n}}.render().text
			if chance(t, 30) {
				text = oneOf(t, []string{"a ", "if (", "a b ", "map $a $b { "}) + genSoup(t) + oneOf(t, []string{";", ") {}", " c; }"})
			}
			return roundCase{Text: text, F: genFmt(t)}
		}, runRound)
}
