package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
)

// cmpOpt says what a comparison of trees disregards.
type cmpOpt struct {
	noLine   bool
	noFile   bool
	sameArg  bool // arguments are compared as NGINX reads them
	noIncl   bool
	nilBlock bool // an empty block equals no block
}

// diffDirs returns the first difference between two trees.
func diffDirs(got, want cp.Directives, o cmpOpt) error {
	return diffDirsAt("", got, want, o)
}

func diffDirsAt(at string, got, want cp.Directives, o cmpOpt) error {
	for i := 0; i < len(got) && i < len(want); i++ {
		if err := diffDir(fmt.Sprintf("%s/%d", at, i), got[i], want[i], o); err != nil {
			return err
		}
	}
	if len(got) != len(want) {
		extra := "missing " + brief(want, len(got))
		if len(got) > len(want) {
			extra = "extra " + brief(got, len(want))
		}
		return fmt.Errorf("at %q: %d statements, want %d (%s)", at, len(got), len(want), extra)
	}
	return nil
}

func brief(ds cp.Directives, i int) string {
	if i >= len(ds) || ds[i] == nil {
		return "nil"
	}
	d := ds[i]
	s := fmt.Sprintf("%q %q", d.Directive, d.Args)
	if d.Comment != nil {
		s += fmt.Sprintf(" comment %q", *d.Comment)
	}
	return s
}

func diffDir(at string, g, w *cp.Directive, o cmpOpt) error {
	if g == nil || w == nil {
		if g == w {
			return nil
		}
		return fmt.Errorf("at %q: nil directive", at)
	}
	eq := func(a, b string) bool { return a == b || o.sameArg && sameArg(a, b) }
	if !eq(g.Directive, w.Directive) {
		return fmt.Errorf("at %q: directive %q, want %q", at, g.Directive, w.Directive)
	}
	at += ":" + clip(g.Directive, 40)
	if len(g.Args) != len(w.Args) {
		return fmt.Errorf("at %q: %d args %q, want %d %q", at, len(g.Args), g.Args, len(w.Args), w.Args)
	}
	for i := range g.Args {
		if !eq(g.Args[i], w.Args[i]) {
			return fmt.Errorf("at %q: arg %d is %q, want %q", at, i, g.Args[i], w.Args[i])
		}
	}
	if !o.noLine && g.Line != w.Line {
		return fmt.Errorf("at %q: line %d, want %d", at, g.Line, w.Line)
	}
	if !o.noFile && g.File != w.File {
		return fmt.Errorf("at %q: file %q, want %q", at, g.File, w.File)
	}
	if (g.Comment == nil) != (w.Comment == nil) || g.Comment != nil && *g.Comment != *w.Comment {
		return fmt.Errorf("at %q: comment %s, want %s", at, pstr(g.Comment), pstr(w.Comment))
	}
	if g.IsMapBlockParameter != w.IsMapBlockParameter {
		return fmt.Errorf("at %q: map parameter mark %v, want %v", at, g.IsMapBlockParameter, w.IsMapBlockParameter)
	}
	if !o.noIncl {
		if fmt.Sprint(g.Includes) != fmt.Sprint(w.Includes) {
			return fmt.Errorf("at %q: includes %v, want %v", at, g.Includes, w.Includes)
		}
	}
	if !o.nilBlock && (g.Block == nil) != (w.Block == nil) {
		return fmt.Errorf("at %q: block present %v, want %v", at, g.Block != nil, w.Block != nil)
	}
	return diffDirsAt(at, g.Block, w.Block, o)
}

func pstr(s *string) string {
	if s == nil {
		return "none"
	}
	return fmt.Sprintf("%q", *s)
}

// asParseError returns the error as the library's error type.
func asParseError(err error) *cp.ParseError {
	var pe *cp.ParseError
	if errors.As(err, &pe) {
		return pe
	}
	return nil
}

// diffErr compares an error with the one that is expected.
func diffErr(err error, w RErr) error {
	pe := asParseError(err)
	if pe == nil {
		return fmt.Errorf("error %v (%T) is not a ParseError, want %q", err, err, w.Whats)
	}
	if !contains(w.Whats, pe.What) {
		return fmt.Errorf("error %q, want %q", pe.What, w.Whats)
	}
	if pe.File == nil || *pe.File != w.File {
		return fmt.Errorf("error %q names file %s, want %q", pe.What, pstr(pe.File), w.File)
	}
	if pe.Line == nil || *pe.Line != w.Line {
		return fmt.Errorf("error %q names line %s, want %d", pe.What, pint(pe.Line), w.Line)
	}
	if pe.BlockCtx != w.BlockCtx {
		return fmt.Errorf("error %q names block %q, want %q", pe.What, pe.BlockCtx, w.BlockCtx)
	}
	if !w.NoStmt && pe.Statement != w.Statement {
		return fmt.Errorf("error %q names statement %q, want %q", pe.What, pe.Statement, w.Statement)
	}
	return nil
}

func pint(i *int) string {
	if i == nil {
		return "none"
	}
	return fmt.Sprint(*i)
}

// diffPayload compares the outcome of Parse with the reference outcome (without combining).
func diffPayload(got *cp.Payload, err error, want *RPayload) error {
	switch {
	case want.Fatal != nil:
		if err == nil {
			return fmt.Errorf("no error, want %q", want.Fatal.Whats)
		}
		return diffErr(err, *want.Fatal)
	case want.OpenErr != "":
		if err == nil {
			return fmt.Errorf("no error although %q cannot be opened", want.OpenErr)
		}
		return nil
	case want.Cycle:
		if err == nil || !strings.Contains(err.Error(), "include cycle") {
			return fmt.Errorf("error %v, want include cycle", err)
		}
		return nil
	case err != nil:
		return fmt.Errorf("unexpected error %v", err)
	}
	if len(got.Config) != len(want.Configs) {
		return fmt.Errorf("%d configs %v, want %d", len(got.Config), fileNames(got), len(want.Configs))
	}
	for i := range got.Config {
		g, w := &got.Config[i], &want.Configs[i]
		if g.File != w.File {
			return fmt.Errorf("config %d is %q, want %q", i, g.File, w.File)
		}
		if len(g.Errors) != len(w.Errors) {
			return fmt.Errorf("%s: errors %v, want %d: %v", g.File, cfgErrs(g.Errors), len(w.Errors), w.Errors)
		}
		for j := range g.Errors {
			if e := diffErr(g.Errors[j].Error, w.Errors[j]); e != nil {
				return fmt.Errorf("%s: error %d: %w", g.File, j, e)
			}
			if l := g.Errors[j].Line; l == nil || *l != w.Errors[j].Line {
				return fmt.Errorf("%s: error %d has line %s, want %d", g.File, j, pint(l), w.Errors[j].Line)
			}
		}
		if want := status(len(w.Errors)); g.Status != want {
			return fmt.Errorf("%s: status %q, want %q", g.File, g.Status, want)
		}
		if e := diffDirs(g.Parsed, w.Parsed, cmpOpt{}); e != nil {
			return fmt.Errorf("%s: %w", g.File, e)
		}
	}
	we := want.errs()
	if got.Status != status(len(we)) {
		return fmt.Errorf("status %q, want %q", got.Status, status(len(we)))
	}
	if len(got.Errors) != len(we) {
		return fmt.Errorf("%d payload errors, want %d", len(got.Errors), len(we))
	}
	for i := range we {
		if e := diffErr(got.Errors[i].Error, we[i]); e != nil {
			return fmt.Errorf("payload error %d: %w", i, e)
		}
		if got.Errors[i].File != we[i].File || got.Errors[i].Line == nil || *got.Errors[i].Line != we[i].Line {
			return fmt.Errorf("payload error %d at %s:%s, want %s:%d", i, got.Errors[i].File, pint(got.Errors[i].Line), we[i].File, we[i].Line)
		}
	}
	return nil
}

func status(nerr int) string {
	if nerr > 0 {
		return "failed"
	}
	return "ok"
}

func fileNames(p *cp.Payload) []string {
	var out []string
	for _, c := range p.Config {
		out = append(out, c.File)
	}
	return out
}

func cfgErrs(es []cp.ConfigError) []string {
	var out []string
	for _, e := range es {
		out = append(out, fmt.Sprint(e.Error))
	}
	return out
}

// toJSON encodes a value; it fails the case if that is impossible.
func toJSON(v interface{}) (string, error) {
	b, err := json.Marshal(v)
	if err != nil {
		return "", fmt.Errorf("cannot encode as JSON: %w", err)
	}
	return string(b), nil
}

// copyDirs makes a deep copy.
func copyDirs(ds cp.Directives) cp.Directives {
	if ds == nil {
		return nil
	}
	out := make(cp.Directives, 0, len(ds))
	for _, d := range ds {
		if d == nil {
			out = append(out, nil)
			continue
		}
		c := *d
		c.Args = append([]string(nil), d.Args...)
		if d.Args != nil && c.Args == nil {
			c.Args = []string{}
		}
		if d.Includes != nil {
			c.Includes = append([]int{}, d.Includes...)
		}
		if d.Comment != nil {
			s := *d.Comment
			c.Comment = &s
		}
		c.Block = copyDirs(d.Block)
		out = append(out, &c)
	}
	return out
}

// walkDirs calls f for every directive, parents first.
func walkDirs(ds cp.Directives, depth int, f func(d *cp.Directive, depth int)) {
	for _, d := range ds {
		if d == nil {
			continue
		}
		f(d, depth)
		walkDirs(d.Block, depth+1, f)
	}
}

func countDirs(ds cp.Directives) (n, maxDepth int) {
	walkDirs(ds, 1, func(_ *cp.Directive, depth int) {
		n++
		if depth > maxDepth {
			maxDepth = depth
		}
	})
	return
}
