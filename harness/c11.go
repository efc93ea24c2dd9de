package main

import (
	"errors"
	"fmt"
	"runtime"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

var errTooLarge = "too large"

// configsOf gives the trees of a payload, each directive with the file that it is in.
func configsOf(p *cp.Payload, files bool) []cp.Directives {
	var out []cp.Directives
	for _, c := range p.Config {
		ds := copyDirs(c.Parsed)
		if files {
			walkDirs(ds, 0, func(d *cp.Directive, _ int) { d.File = c.File })
		}
		out = append(out, ds)
	}
	return out
}

// copyPayload makes a deep copy; errors are shared.
func copyPayload(p *cp.Payload) *cp.Payload {
	q := &cp.Payload{Status: p.Status, Errors: append([]cp.PayloadError(nil), p.Errors...)}
	for _, c := range p.Config {
		c.Errors = append([]cp.ConfigError(nil), c.Errors...)
		c.Parsed = copyDirs(c.Parsed)
		q.Config = append(q.Config, c)
	}
	return q
}

// samePayload compares payloads in everything.
func samePayload(got, want *cp.Payload) error {
	if got.Status != want.Status || len(got.Errors) != len(want.Errors) || len(got.Config) != len(want.Config) {
		return fmt.Errorf("status %q, %d errors, %d configurations; want %q, %d, %d",
			got.Status, len(got.Errors), len(got.Config), want.Status, len(want.Errors), len(want.Config))
	}
	for i := range got.Errors {
		g, w := got.Errors[i], want.Errors[i]
		if g.File != w.File || pint(g.Line) != pint(w.Line) || fmt.Sprint(g.Error) != fmt.Sprint(w.Error) || fmt.Sprint(g.Callback) != fmt.Sprint(w.Callback) {
			return fmt.Errorf("error %d is %v in %s, want %v in %s", i, g.Error, g.File, w.Error, w.File)
		}
	}
	for i := range got.Config {
		g, w := &got.Config[i], &want.Config[i]
		if g.File != w.File || g.Status != w.Status {
			return fmt.Errorf("configuration %d is %q with status %q, want %q, %q", i, g.File, g.Status, w.File, w.Status)
		}
		if err := sameErrs(g.Errors, w.Errors); err != nil {
			return fmt.Errorf("%s: %w", g.File, err)
		}
		if err := diffDirs(g.Parsed, w.Parsed, cmpOpt{}); err != nil {
			return fmt.Errorf("%s: %w", g.File, err)
		}
	}
	return nil
}

func sameErrs(g, w []cp.ConfigError) error {
	if len(g) != len(w) {
		return fmt.Errorf("errors %v, want %v", errTexts(g), errTexts(w))
	}
	for i := range g {
		if pint(g[i].Line) != pint(w[i].Line) || fmt.Sprint(g[i].Error) != fmt.Sprint(w[i].Error) {
			return fmt.Errorf("error %d is %v line %s, want %v line %s", i, g[i].Error, pint(g[i].Line), w[i].Error, pint(w[i].Line))
		}
	}
	return nil
}

// checkCombined compares the result of combining p with the tree that is expected.
func checkCombined(q, p *cp.Payload, want cp.Directives) error {
	if len(q.Config) != 1 {
		return fmt.Errorf("%d configurations", len(q.Config))
	}
	k := q.Config[0]
	if k.File != p.Config[0].File {
		return fmt.Errorf("file %q, want %q", k.File, p.Config[0].File)
	}
	var errs []cp.ConfigError
	st := "ok"
	for _, c := range p.Config {
		errs = append(errs, c.Errors...)
		if c.Status == "failed" {
			st = "failed"
		}
	}
	if k.Status != st || q.Status != p.Status {
		return fmt.Errorf("status %q, of the configuration %q, want %q, %q", q.Status, k.Status, p.Status, st)
	}
	if err := sameErrs(k.Errors, errs); err != nil {
		return err
	}
	if len(q.Errors) != len(p.Errors) {
		return fmt.Errorf("%d payload errors, want %d", len(q.Errors), len(p.Errors))
	}
	for i := range q.Errors {
		if q.Errors[i].File != p.Errors[i].File || fmt.Sprint(q.Errors[i].Error) != fmt.Sprint(p.Errors[i].Error) ||
			pint(q.Errors[i].Line) != pint(p.Errors[i].Line) || fmt.Sprint(q.Errors[i].Callback) != fmt.Sprint(p.Errors[i].Callback) {
			return fmt.Errorf("payload error %d is %v, want %v", i, q.Errors[i], p.Errors[i])
		}
	}
	return diffDirs(k.Parsed, want, cmpOpt{})
}

func runCombine(c filesCase, o *Obs) error {
	fs := c.fs()
	c.O.Combine, c.O.Stop = false, false
	p, err := cp.Parse(mainFile, c.O.parseOptions(fs))
	if err != nil {
		o.Label("error")
		return nil
	}
	want, err := refCombine(configsOf(p, false))
	if err != nil {
		if err.Error() == errTooLarge {
			o.Label(errTooLarge)
			return nil
		}
		return fmt.Errorf("files %q: the includes of the payload: %w", c.Files, err)
	}
	keep := copyPayload(p)
	before := runtime.NumGoroutine()
	q, err := p.Combined()
	if err != nil {
		return fmt.Errorf("files %q: %w", c.Files, err)
	}
	if n := settle(before); n > 0 {
		return fmt.Errorf("files %q: %d goroutines left over", c.Files, n)
	}
	if err := checkCombined(q, p, want); err != nil {
		return fmt.Errorf("files %q: combined: %w", c.Files, err)
	}
	if err := samePayload(p, keep); err != nil {
		return fmt.Errorf("files %q: combining changes the payload: %w", c.Files, err)
	}
	// combining again changes nothing
	q2, err := q.Combined()
	if err != nil {
		return fmt.Errorf("files %q: combining again: %w", c.Files, err)
	}
	if err := samePayload(q2, q); err != nil {
		return fmt.Errorf("files %q: combining again: %w", c.Files, err)
	}
	// combining while parsing
	co := c.O
	co.Combine = true
	r, err := cp.Parse(mainFile, co.parseOptions(fs))
	if err != nil {
		return fmt.Errorf("files %q: combining while parsing: %w", c.Files, err)
	}
	wantR, err := refCombine(configsOf(p, true))
	if err != nil {
		return infraError{err}
	}
	if err := checkCombined(r, p, wantR); err != nil {
		return fmt.Errorf("files %q: combined while parsing: %w", c.Files, err)
	}
	labelIncludes(p, o)
	return nil
}

// Made is a payload made by a program.
type Made struct {
	Trees [][]DN
	Bad   []string `json:",omitempty"` // error of configuration i, if not empty
}

func (m Made) payload() *cp.Payload {
	p := &cp.Payload{Status: "ok", Errors: []cp.PayloadError{}, Config: []cp.Config{}}
	for i, tr := range m.Trees {
		c := cp.Config{File: fmt.Sprintf("f%d", i), Status: "ok", Errors: []cp.ConfigError{}, Parsed: toDirs(tr)}
		if i < len(m.Bad) && m.Bad[i] != "" {
			var at *int // some errors are those of the file
			if line := i + 1; !strings.HasPrefix(m.Bad[i], "file") {
				at = &line
			}
			e := errors.New(m.Bad[i])
			c.Status, p.Status = "failed", "failed"
			c.Errors = append(c.Errors, cp.ConfigError{Line: at, Error: e})
			p.Errors = append(p.Errors, cp.PayloadError{File: c.File, Line: at, Error: e, Callback: m.Bad[i]})
		}
		p.Config = append(p.Config, c)
	}
	return p
}

func genMade(t *rapid.T) Made {
	var m Made
	n := intn(t, 1, 5)
	wild := chance(t, 50)
	var tree func(i, depth int) []DN
	tree = func(i, depth int) []DN {
		var out []DN
		for k := intn(t, 0, 4); k > 0; k-- {
			d := DN{N: oneOf(t, []string{"a", "b", "server", "x"}), A: []string{oneOf(t, plainWords)}, L: intn(t, 0, 30)}
			switch pick(t, 40, 35, 25) {
			case 1:
				d = DN{N: "include", A: []string{"x"}, L: intn(t, 0, 30), HasI: true}
				for j := intn(t, 0, 3); j > 0; j-- {
					lo, hi := i+1, n-1
					if wild && chance(t, 30) {
						lo, hi = -1, n
					}
					if lo <= hi {
						d.I = append(d.I, intn(t, lo, hi))
					}
				}
				if chance(t, 10) {
					d.HasI, d.I = false, nil
				}
				if chance(t, 5) {
					d.N = "x" // not an include
				}
			case 2:
				d.K = true
				if depth < 4 {
					d.B = tree(i, depth+1)
				}
			}
			if chance(t, 10) {
				s := "comment"
				d = DN{N: "#", C: &s, L: intn(t, 0, 30)}
			}
			out = append(out, d)
		}
		return out
	}
	for i := 0; i < n; i++ {
		m.Trees = append(m.Trees, tree(i, 0))
		b := ""
		if chance(t, 20) {
			b = oneOf(t, []string{"bad ", "file "}) + fmt.Sprint(i)
		}
		m.Bad = append(m.Bad, b)
	}
	return m
}

func init() {
	Register(Check{Prop: "C11", Name: "files", Quick: 60000,
		Rule: "up to 12 files that include each other, combined after and while parsing, against inlining the parsed trees; non-trivial: an include names a file"},
		func(t *rapid.T) filesCase {
			c := filesCase{Files: genFiles(t, false), O: includeOpts(t)}
			c.O.Single = chance(t, 5)
			return c
		}, runCombine)
	Register(Check{Prop: "C11", Name: "made", Quick: 100000,
		Rule: "payloads made by a program, with include indices in and out of range and cycles; non-trivial: at least 2 configurations and an include"},
		genMade, func(m Made, o *Obs) error {
			p := m.payload()
			want, werr := refCombine(configsOf(p, false))
			if werr != nil && werr.Error() == errTooLarge {
				o.Label(errTooLarge)
				return nil
			}
			keep := copyPayload(p)
			before := runtime.NumGoroutine()
			q, err := p.Combined()
			if n := settle(before); n > 0 {
				return fmt.Errorf("%d goroutines left over", n)
			}
			if (err != nil) != (werr != nil) {
				return fmt.Errorf("error %v, want %v", err, werr)
			}
			if e := samePayload(p, keep); e != nil {
				return fmt.Errorf("combining changes the payload: %w", e)
			}
			js, e := toJSON(p)
			if e != nil {
				return e
			}
			o.NonTrivial(len(m.Trees) > 1 && strings.Contains(js, `"includes"`))
			if werr != nil {
				o.Label("rejected: " + strings.Join(strings.FieldsFunc(werr.Error(), func(r rune) bool { return r == '-' || r >= '0' && r <= '9' }), "N"))
				if q != nil {
					return fmt.Errorf("payload together with error %w", err)
				}
				return nil
			}
			return checkCombined(q, p, want)
		})
}
