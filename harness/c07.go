package main

import (
	"fmt"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

// isolateCase is a set of files, of which one is changed.
type isolateCase struct {
	Files []string // the contents of f0, f1, ...; the main file includes them all
	Main  []int    // the order in which it does
	K     int      // this one is changed
	To    string   // to this
	O     Opts
}

func (c isolateCase) fs(changed bool) FS {
	var sb strings.Builder
	for _, i := range c.Main {
		fmt.Fprintf(&sb, "include f%d;\n", i)
	}
	fs := FS{mainFile: sb.String()}
	for i, s := range c.Files {
		if changed && i == c.K {
			s = c.To
		}
		fs[fmt.Sprintf("/etc/nginx/f%d", i)] = s
	}
	return fs
}

func errTexts(es []cp.ConfigError) []string {
	out := []string{}
	for _, e := range es {
		out = append(out, fmt.Sprint(e.Error))
	}
	return out
}

// brokenText draws a configuration text with something wrong.
func brokenText(t *rapid.T, o Opts) string {
	g := &treeGen{comments: chance(t, 50), known: chance(t, 70), budget: 12, bad: oneInt(t, []int{0, 15, 40})}
	text := genConf(t, g, nil).render().text
	if chance(t, 60) {
		text = mutateText(t, text)
	}
	return text
}

func init() {
	Register(Check{Prop: "C07", Name: "inserted", Quick: 50000,
		Rule: "valid configuration with invalid statements put in; non-trivial: at least one invalid and two valid statements"},
		func(t *rapid.T) confCase {
			g := &treeGen{comments: chance(t, 50), known: chance(t, 80), bad: oneInt(t, []int{8, 20, 45})}
			c := confCase{Conf: genConf(t, g, nil)}
			c.O = Opts{Comments: chance(t, 50), Single: true}
			return c
		},
		func(c confCase, o *Obs) error {
			r := c.Conf.render()
			for i := range r.errs {
				r.errs[i].File = mainFile
			}
			want := r.dirs
			if !c.O.Comments {
				want = withoutComments(want)
			}
			fs := FS{mainFile: r.text}
			p, err := cp.Parse(mainFile, c.O.parseOptions(fs))
			if e := diffPayload(p, err, &RPayload{Configs: []RConfig{{File: mainFile, Errors: r.errs, Parsed: want}}}); e != nil {
				return fmt.Errorf("text %q: %w", clip(r.text, 2000), e)
			}
			for _, e := range r.errs {
				o.LabelIf(strings.HasPrefix(e.Whats[0], "unexpected"), "map entry not ended by ;")
				o.LabelIf(strings.Contains(e.Whats[0], "parameters"), "map entry with wrong number of values")
				o.LabelIf(strings.Contains(e.Whats[0], "not allowed"), "not allowed here")
				o.LabelIf(strings.Contains(e.Whats[0], "terminated"), "not terminated")
				o.LabelIf(strings.Contains(e.Whats[0], "no opening"), "no block")
				o.LabelIf(strings.Contains(e.Whats[0], "of arguments"), "number of arguments")
			}
			o.LabelIf(len(r.errs) > 1, "several errors")
			n, depth := countDirs(want)
			o.LabelIf(depth > 2, "depth>2")
			o.NonTrivial(len(r.errs) > 0 && n >= 2)
			return nil
		})

	Register(Check{Prop: "C07", Name: "reference", Quick: 50000,
		Rule: "configuration with invalid statements and changed characters x options, against the reference parser; non-trivial: it has an error and something is left in the tree"},
		func(t *rapid.T) textCaseO {
			o := genOpts(t)
			o.Combine, o.Single, o.Lua = false, true, false
			return textCaseO{Text: brokenText(t, o), O: o}
		},
		func(c textCaseO, o *Obs) error {
			fs := FS{mainFile: c.Text}
			want := refParse(fs, mainFile, c.O)
			p, err := cp.Parse(mainFile, c.O.parseOptions(fs))
			if e := diffPayload(p, err, want); e != nil {
				return fmt.Errorf("text %q: %w", clip(c.Text, 2000), e)
			}
			n := 0
			if want.Fatal == nil {
				n, _ = countDirs(want.Configs[0].Parsed)
			}
			o.LabelIf(want.Fatal != nil, "stopped")
			o.LabelIf(len(want.errs()) > 1, "several errors")
			o.NonTrivial(len(want.errs()) > 0 && n > 0)
			return nil
		})

	Register(Check{Prop: "C07", Name: "lexical", Quick: 40000,
		Rule: "text that is lexically broken x any options, also inside ignored and rejected blocks; non-trivial: it is broken after at least 5 tokens"},
		func(t *rapid.T) textCaseO {
			o := genOpts(t)
			o.Lua = false
			g := &treeGen{comments: chance(t, 50), known: chance(t, 70), budget: 12, bad: oneInt(t, []int{0, 15, 40})}
			text := genConf(t, g, nil).render().text
			if chance(t, 70) {
				// break it at a brace or semicolon
				var at []int
				for i, r := range text {
					if strings.ContainsRune("{};\n", r) {
						at = append(at, i)
					}
				}
				if len(at) > 0 {
					i := at[intn(t, 0, len(at)-1)]
					switch pick(t, 2, 2, 1) {
					case 0:
						text = text[:i] + text[i+1:]
					case 1:
						text = text[:i] + oneOf(t, []string{";", "{", "}", ";;", "{;"}) + text[i:]
					case 2:
						text = text[:i]
					}
				}
				if chance(t, 30) {
					// something to ignore
					text = "x_foo { " + text
					if chance(t, 50) {
						text += "}"
					}
				}
			} else {
				text = mutateText(t, text)
			}
			return textCaseO{Text: text, O: o}
		},
		func(c textCaseO, o *Obs) error {
			toks := refLex(c.Text)
			// premature end: the last statement has no end
			broken := false
			if n := len(toks); n > 0 {
				last := toks[n-1]
				broken = last.Err != "" || !last.punct() && !last.comment()
				if last.comment() {
					i := n - 1
					for i >= 0 && toks[i].comment() {
						i--
					}
					broken = i >= 0 && !toks[i].punct()
				}
			}
			if !broken {
				o.Label("not broken")
				return nil
			}
			fs := FS{mainFile: c.Text}
			p, err := cp.Parse(mainFile, c.O.parseOptions(fs))
			switch {
			case err != nil && c.O.Stop:
			case err != nil:
				return fmt.Errorf("text %q: error %w, not collected", clip(c.Text, 2000), err)
			case p.Status != "failed" || p.Config[0].Status != "failed" || len(p.Errors) == 0:
				return fmt.Errorf("text %q: status %q, although the text is broken", clip(c.Text, 2000), p.Status)
			}
			o.LabelIf(len(c.O.Ignore) > 0, "directives are ignored")
			o.Label("stop %v", c.O.Stop)
			o.NonTrivial(len(toks) >= 5)
			return nil
		})

	Register(Check{Prop: "C07", Name: "isolation", Quick: 20000,
		Rule: "2-4 included files, one replaced by another text: both sets come out as the reference parser says, and the others the same; non-trivial: the replaced file or its replacement has an error and another file has statements"},
		func(t *rapid.T) isolateCase {
			c := isolateCase{O: Opts{Comments: chance(t, 50), ErrUnknown: chance(t, 20), SkipArgs: chance(t, 20), SkipCtx: chance(t, 20)}}
			n := intn(t, 2, 4)
			for i := 0; i < n; i++ {
				c.Files = append(c.Files, noIncludes(brokenText(t, c.O)))
				c.Main = append(c.Main, i)
			}
			for k := intn(t, 0, 2); k > 0; k-- {
				c.Main = append(c.Main, intn(t, 0, n-1))
			}
			c.K = intn(t, 0, n-1)
			if chance(t, 70) {
				c.To = noIncludes(brokenText(t, c.O))
			}
			return c
		},
		func(c isolateCase, o *Obs) error {
			p1, err := cp.Parse(mainFile, c.O.parseOptions(c.fs(false)))
			if err != nil {
				return fmt.Errorf("files %q: %w", c.Files, err)
			}
			p2, err := cp.Parse(mainFile, c.O.parseOptions(c.fs(true)))
			if err != nil {
				return fmt.Errorf("files %q: %w", c.Files, err)
			}
			if fmt.Sprint(fileNames(p1)) != fmt.Sprint(fileNames(p2)) {
				return fmt.Errorf("configurations %v and %v", fileNames(p1), fileNames(p2))
			}
			for _, changed := range []bool{false, true} {
				fs, p := c.fs(changed), p1
				if changed {
					p = p2
				}
				if err := diffPayload(p, nil, refParse(fs, mainFile, c.O)); err != nil {
					return fmt.Errorf("files %q: %w", fs, err)
				}
			}
			interesting := false
			for i := range p1.Config {
				a, b := &p1.Config[i], &p2.Config[i]
				if a.File == fmt.Sprintf("/etc/nginx/f%d", c.K) {
					interesting = interesting || a.Status == "failed" || b.Status == "failed"
					continue
				}
				if a.Status != b.Status || strings.Join(errTexts(a.Errors), "\n") != strings.Join(errTexts(b.Errors), "\n") {
					return fmt.Errorf("files %q, f%d changed to %q: %s has errors %v, then %v", c.Files, c.K, c.To, a.File, errTexts(a.Errors), errTexts(b.Errors))
				}
				if err := diffDirs(b.Parsed, a.Parsed, cmpOpt{}); err != nil {
					return fmt.Errorf("files %q, f%d changed to %q: %s: %w", c.Files, c.K, c.To, a.File, err)
				}
			}
			o.NonTrivial(interesting && len(p1.Config) > 2)
			return nil
		})
}

// noIncludes makes sure that a text includes nothing.
func noIncludes(s string) string { return strings.ReplaceAll(s, "include", "in_clude") }
