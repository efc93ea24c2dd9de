package main

import (
	"fmt"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

type confCase struct {
	Conf Conf
	O    Opts
}

func parseText(text string, o Opts) (*cp.Payload, error) {
	const name = "/etc/nginx/nginx.conf"
	return cp.Parse(name, o.parseOptions(FS{name: text}))
}

// includeNothing draws an include statement, spelled in any way, of a pattern that no file matches.
func includeNothing(t *rapid.T, _ []string) *Node {
	p := oneOf(t, []string{"", "./", "../", "/", "//", "a/../", "a//", "./a/./", "é/", "a b/", "a\\ b/", "$a/", "x*/../", "~/", "C:\\", "A/"}) +
		oneOf(t, []string{"*.none", "none?", "n[o]ne", "a*//none", "none*/", "none*/.", "*/none/./b.conf", "../*/none.d/*.Conf", "none*.conf ", "\\n*one"})
	return &Node{N: spell(t, "include"), A: []Word{spell(t, p)}}
}

func init() {
	Register(Check{Prop: "C02", Name: "tree", Quick: 40000,
		Rule: "valid configuration tree rendered with random layout; non-trivial: at least 3 statements and a block, quoted argument, comment or map entry"},
		func(t *rapid.T) confCase {
			g := &treeGen{comments: chance(t, 60), known: chance(t, 70)}
			if chance(t, 30) {
				g.include = includeNothing
			}
			c := confCase{Conf: genConf(t, g, nil)}
			c.O.Comments = chance(t, 60)
			return c
		},
		func(c confCase, o *Obs) error {
			r := c.Conf.render()
			want := r.dirs
			if !c.O.Comments {
				want = withoutComments(want)
			}
			p, err := parseText(r.text, c.O)
			if err != nil {
				return fmt.Errorf("text %q: error %w", clip(r.text, 2000), err)
			}
			if p.Status != "ok" || len(p.Errors) != 0 || len(p.Config) != 1 {
				return fmt.Errorf("text %q: status %q, errors %v, %d configs", clip(r.text, 2000), p.Status, p.Errors, len(p.Config))
			}
			k := p.Config[0]
			if k.Status != "ok" || len(k.Errors) != 0 || k.File != "/etc/nginx/nginx.conf" {
				return fmt.Errorf("text %q: config status %q, errors %v, file %q", clip(r.text, 2000), k.Status, k.Errors, k.File)
			}
			if err := diffDirs(k.Parsed, want, cmpOpt{}); err != nil {
				return fmt.Errorf("text %q: %w", clip(r.text, 2000), err)
			}
			r.stats.label(o, r.text)
			s := r.stats
			o.NonTrivial(s.stmts >= 3 && (s.depth > 1 || s.quoted > 0 || s.comments > 0 || s.maps > 0))
			return nil
		})
	Register(Check{Prop: "C02", Name: "reference", Quick: 20000,
		Rule: "configuration with 0-3 characters changed, against the reference parser; non-trivial: it still parses without error and has at least 2 statements"},
		func(t *rapid.T) textCaseO {
			g := &treeGen{comments: chance(t, 60), known: chance(t, 70), budget: 15}
			text := genConf(t, g, nil).render().text
			if chance(t, 80) {
				text = mutateText(t, text)
			}
			return textCaseO{Text: text, O: Opts{Comments: chance(t, 60), Single: true}}
		},
		func(c textCaseO, o *Obs) error {
			const name = "/etc/nginx/nginx.conf"
			fs := FS{name: c.Text}
			want := refParse(fs, name, c.O)
			p, err := cp.Parse(name, c.O.parseOptions(fs))
			if len(want.errs()) > 0 || want.Fatal != nil {
				o.Label("invalid")
				return nil // C07
			}
			if e := diffPayload(p, err, want); e != nil {
				return fmt.Errorf("text %q: %w", clip(c.Text, 2000), e)
			}
			n, _ := countDirs(want.Configs[0].Parsed)
			o.NonTrivial(n >= 2)
			return nil
		})
}

type textCaseO struct {
	Text string
	O    Opts
}
