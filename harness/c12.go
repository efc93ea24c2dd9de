package main

import (
	"fmt"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

// without gives the tree without the directives of these names; entries of map-like blocks are data.
func without(ds cp.Directives, names []string) cp.Directives {
	if ds == nil {
		return nil
	}
	out := cp.Directives{}
	for i, d := range ds {
		if contains(names, d.Directive) && !d.IsMapBlockParameter && d.Comment == nil {
			_ = i
			continue
		}
		c := *d
		c.Block = without(d.Block, names)
		out = append(out, &c)
	}
	return out
}

// subsequence tells whether all of a occurs in b in the same order.
func subsequence(a, b []string) bool {
	i := 0
	for _, s := range b {
		if i < len(a) && a[i] == s {
			i++
		}
	}
	return i == len(a)
}

func parseFiles(fs FS, o Opts) (*cp.Payload, error) { return cp.Parse(mainFile, o.parseOptions(fs)) }

func allErrs(p *cp.Payload) []string {
	out := []string{}
	for _, e := range p.Errors {
		out = append(out, fmt.Sprint(e.Error))
	}
	return out
}

// namesIn lists the names of the directives in a text.
func namesIn(ds cp.Directives) []string {
	var out []string
	walkDirs(ds, 0, func(d *cp.Directive, _ int) {
		if !contains(out, d.Directive) && d.Comment == nil {
			out = append(out, d.Directive)
		}
	})
	return out
}

type ignoreCase struct {
	Text string
	O    Opts
	Pick []int // which of the directives of the text are ignored
}

func init() {
	Register(Check{Prop: "C12", Name: "comments", Quick: 30000,
		Rule: "files with valid and invalid statements parsed with and without comments x other options; non-trivial: there is a comment and a statement"},
		func(t *rapid.T) filesCase {
			c := filesCase{Files: genFiles(t, false), O: includeOpts(t)}
			if chance(t, 60) {
				c.Files["nginx.conf"] = brokenText(t, c.O)
			}
			c.O.Combine = chance(t, 20)
			return c
		},
		func(c filesCase, o *Obs) error {
			fs := c.fs()
			if c.O.Combine {
				plain := c.O
				plain.Combine = false
				if p, err := parseFiles(fs, plain); err == nil {
					if _, err := refCombine(configsOf(p, false)); err != nil {
						o.Label(errTooLarge)
						return nil
					}
				}
			}
			with, without := c.O, c.O
			with.Comments, without.Comments = true, false
			p1, err1 := parseFiles(fs, with)
			p0, err0 := parseFiles(fs, without)
			if fmt.Sprint(err1) != fmt.Sprint(err0) {
				return fmt.Errorf("files %q: error %v with comments, %v without", c.Files, err1, err0)
			}
			if err1 != nil {
				o.Label("error")
				return nil
			}
			n, m := 0, 0
			for i := range p1.Config {
				walkDirs(p1.Config[i].Parsed, 0, func(d *cp.Directive, _ int) {
					if d.IsComment() {
						n++
					} else {
						m++
					}
				})
				ds := withoutComments(p1.Config[i].Parsed)
				p1.Config[i].Parsed = ds
			}
			if err := samePayload(p1, p0); err != nil {
				return fmt.Errorf("files %q: with comments (left out): %w without", c.Files, err)
			}
			o.LabelIf(p0.Status == "failed", "with errors")
			o.NonTrivial(n > 0 && m > 0)
			return nil
		})

	Register(Check{Prop: "C12", Name: "ignore", Quick: 40000,
		Rule: "a text with valid and invalid statements, some of its directives ignored; non-trivial: a directive is ignored and another is left"},
		func(t *rapid.T) ignoreCase {
			c := ignoreCase{O: genOpts(t)}
			c.O.Ignore, c.O.Combine, c.O.Lua, c.O.Single = nil, false, false, true
			c.Text = brokenText(t, c.O)
			for n := intn(t, 1, 3); n > 0; n-- {
				c.Pick = append(c.Pick, intn(t, 0, 9))
			}
			return c
		},
		func(c ignoreCase, o *Obs) error {
			fs := FS{mainFile: c.Text}
			if c.O.Stop {
				// an error may come from what is ignored
				if _, err := parseFiles(fs, c.O); err != nil {
					o.Label("error")
					return nil
				}
			}
			p0, err := parseFiles(fs, c.O)
			if err != nil {
				return fmt.Errorf("text %q: %w", clip(c.Text, 2000), err)
			}
			names := namesIn(p0.Config[0].Parsed)
			var ign []string
			for _, i := range c.Pick {
				if len(names) > 0 {
					ign = append(ign, names[i%len(names)])
				}
			}
			io := c.O
			io.Ignore = append(ign, "x_none")
			p1, err := parseFiles(fs, io)
			if err != nil {
				return fmt.Errorf("text %q, ignoring %q: %w", clip(c.Text, 2000), ign, err)
			}
			// comments inside an ignored statement go with it
			a := withoutComments(p1.Config[0].Parsed)
			b := withoutComments(without(p0.Config[0].Parsed, ign))
			if err := diffDirs(a, b, cmpOpt{}); err != nil {
				return fmt.Errorf("text %q, ignoring %q: %w", clip(c.Text, 2000), ign, err)
			}
			e0, e1 := errTexts(p0.Config[0].Errors), errTexts(p1.Config[0].Errors)
			if !subsequence(e1, e0) {
				return fmt.Errorf("text %q, ignoring %q: errors %q, without ignoring %q", clip(c.Text, 2000), ign, e1, e0)
			}
			n0, _ := countDirs(p0.Config[0].Parsed)
			n1, _ := countDirs(p1.Config[0].Parsed)
			o.LabelIf(len(e1) < len(e0), "an error is ignored")
			o.LabelIf(n1 < n0-1, "several statements are ignored")
			o.NonTrivial(n1 < n0 && n1 > 0)
			return nil
		})

	Register(Check{Prop: "C12", Name: "single", Quick: 30000,
		Rule: "files that include each other, parsed alone and with what they include; non-trivial: an include names a file"},
		func(t *rapid.T) filesCase {
			c := filesCase{Files: genFiles(t, false), O: includeOpts(t)}
			c.O.Stop = false
			return c
		},
		func(c filesCase, o *Obs) error {
			fs := c.fs()
			c.O.Stop = false
			multi, single := c.O, c.O
			multi.Single, single.Single = false, true
			p1, err := parseFiles(fs, single)
			if err != nil {
				return fmt.Errorf("files %q: %w", c.Files, err)
			}
			p0, err := parseFiles(fs, multi)
			if err != nil {
				o.Label("error")
				return nil
			}
			bare := false
			walkDirs(p1.Config[0].Parsed, 0, func(d *cp.Directive, _ int) {
				bare = bare || d.Directive == "include" && len(d.Args) == 0 && !d.IsMapBlockParameter
				if d.Includes != nil {
					bare = true
				}
			})
			if bare {
				o.Label("include without a file")
				return nil
			}
			if len(p1.Config) != 1 {
				return fmt.Errorf("files %q: configurations %v", c.Files, fileNames(p1))
			}
			if err := diffDirs(p1.Config[0].Parsed, p0.Config[0].Parsed, cmpOpt{noIncl: true}); err != nil {
				return fmt.Errorf("files %q: alone: %w", c.Files, err)
			}
			var rest []string
			one := errTexts(p1.Config[0].Errors)
			for _, e := range p0.Config[0].Errors {
				pe := asParseError(e.Error)
				if strings.HasPrefix(pe.Statement, "include ") && !contains(one, pe.Error()) {
					continue // it cannot be resolved
				}
				rest = append(rest, pe.Error())
			}
			if strings.Join(rest, "\n") != strings.Join(one, "\n") {
				return fmt.Errorf("files %q: errors %q alone, %q otherwise", c.Files, one, rest)
			}
			labelIncludes(p0, o)
			return nil
		})

	Register(Check{Prop: "C12", Name: "combination", Quick: 40000,
		Rule: "files that include each other x any combination of options, against the reference parser; non-trivial: at least two options are set and the tree is not empty"},
		func(t *rapid.T) filesCase {
			c := filesCase{Files: genFiles(t, chance(t, 5)), O: genOpts(t)}
			c.O.Lua = false
			return c
		},
		func(c filesCase, o *Obs) error {
			fs := c.fs()
			want := refParse(fs, mainFile, c.O)
			var tree cp.Directives
			if c.O.Combine && want.Fatal == nil && want.OpenErr == "" && !want.Cycle {
				var all []cp.Directives
				for _, k := range want.Configs {
					all = append(all, k.Parsed)
				}
				var err error
				if tree, err = refCombine(all); err != nil {
					o.Label(err.Error())
					return nil
				}
			}
			p, err := parseFiles(fs, c.O)
			if tree == nil || err != nil {
				if e := diffPayload(p, err, want); e != nil {
					return fmt.Errorf("files %q: %w", c.Files, e)
				}
			} else {
				if len(p.Config) != 1 || p.Status != status(len(want.errs())) {
					return fmt.Errorf("files %q: status %q, configurations %v", c.Files, p.Status, fileNames(p))
				}
				if e := diffDirs(p.Config[0].Parsed, tree, cmpOpt{}); e != nil {
					return fmt.Errorf("files %q: %w", c.Files, e)
				}
				we := want.errs()
				if len(p.Errors) != len(we) || len(p.Config[0].Errors) != len(we) {
					return fmt.Errorf("files %q: errors %q, want %v", c.Files, allErrs(p), we)
				}
				for i := range we {
					if e := diffErr(p.Errors[i].Error, we[i]); e != nil {
						return fmt.Errorf("files %q: %w", c.Files, e)
					}
				}
			}
			if err != nil {
				o.Label("error")
				return nil
			}
			k := 0
			for _, b := range []bool{len(c.O.Ignore) > 0, c.O.Comments, c.O.Single, c.O.Combine, c.O.Stop, c.O.ErrUnknown, c.O.SkipArgs, c.O.SkipCtx, len(c.O.Sources)+len(c.O.Tables) > 0} {
				if b {
					k++
				}
			}
			o.Label("%d options", k)
			o.NonTrivial(k >= 2 && len(p.Config[0].Parsed) > 0)
			return nil
		})
}
