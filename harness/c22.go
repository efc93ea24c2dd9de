package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

// sameError compares two errors of different parses in everything.
func sameError(g, w error) error {
	gp, wp := asParseError(g), asParseError(w)
	if (gp == nil) != (wp == nil) {
		return fmt.Errorf("error %T %v, want %T %v", g, g, w, w)
	}
	if gp == nil {
		if g.Error() != w.Error() {
			return fmt.Errorf("error %v, want %v", g, w)
		}
		return nil
	}
	if gp.What != wp.What || pstr(gp.File) != pstr(wp.File) || pint(gp.Line) != pint(wp.Line) || gp.Statement != wp.Statement || gp.BlockCtx != wp.BlockCtx ||
		fmt.Sprint(gp.Unwrap()) != fmt.Sprint(wp.Unwrap()) {
		return fmt.Errorf("error %#v (%v), want %#v (%v)", *gp, gp, *wp, wp)
	}
	return nil
}

// printed checks the text of an error.
func printed(e error) error {
	pe := asParseError(e)
	if pe == nil || pe.File == nil || pe.Line == nil {
		return fmt.Errorf("error %#v has no file or line", e)
	}
	want := fmt.Sprintf("%s in %s:%d", pe.What, *pe.File, *pe.Line)
	if e.Error() != want {
		return fmt.Errorf("error prints as %q, want %q", e.Error(), want)
	}
	b, err := json.Marshal(e)
	if err != nil {
		return err
	}
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return fmt.Errorf("error is encoded as %s: %w", b, err)
	}
	if s != strings.ToValidUTF8(want, "\uFFFD") {
		return fmt.Errorf("error is encoded as %q, want %q", s, want)
	}
	// causes
	switch {
	case strings.HasPrefix(pe.What, "premature end of file"), strings.HasPrefix(pe.What, "unexpected end of file"):
		if !errors.Is(e, cp.ErrPrematureLexEnd) {
			return fmt.Errorf("error %v is not ErrPrematureLexEnd", e)
		}
	case strings.HasPrefix(pe.What, "open /"), strings.HasPrefix(pe.What, "syntax error in pattern"):
		if pe.Unwrap() == nil || pe.Unwrap().Error() != pe.What {
			return fmt.Errorf("error %v unwraps to %v", e, pe.Unwrap())
		}
		if strings.HasPrefix(pe.What, "open /") && !errors.Is(e, errNoFile) {
			return fmt.Errorf("error %v does not unwrap to its cause", e)
		}
	default:
		if pe.Unwrap() != nil && !strings.Contains(pe.What, pe.Unwrap().Error()) {
			return fmt.Errorf("error %v unwraps to %v", e, pe.Unwrap())
		}
		if errors.Is(e, cp.ErrPrematureLexEnd) {
			return fmt.Errorf("error %v is ErrPrematureLexEnd", e)
		}
	}
	return nil
}

type modeCase struct {
	C     filesCase
	Ticks []int // what the callback returns, in turn; -1 is nil
}

// tickValue is what the callback returns for k the n-th time.
func tickValue(k, n int) interface{} {
	if k < 0 {
		return nil
	}
	switch k % 10 {
	case 3:
		return ""
	case 4:
		return 0
	case 5:
		return false
	case 6:
		return k + n
	case 7:
		return &tickText{n}
	case 8:
		return fmt.Errorf("error %d", n)
	case 9:
		return tickText{n}
	}
	return fmt.Sprintf("result %d of %d", k, n)
}

type tickText struct{ N int }

func runModes(c modeCase, o *Obs) error {
	fs := c.C.fs()
	where := func(err error) error { return fmt.Errorf("files %q: %w", c.C.Files, err) }
	c.C.O.Stop = false
	var log []error
	var ticks []interface{}
	po := c.C.O.parseOptions(fs)
	po.ErrorCallback = func(e error) interface{} {
		log = append(log, e)
		var r interface{}
		if len(c.Ticks) > 0 {
			r = tickValue(c.Ticks[len(ticks)%len(c.Ticks)], len(ticks))
		}
		ticks = append(ticks, r)
		return r
	}
	p, err := cp.Parse(mainFile, po)

	so := c.C.O
	so.Stop = true
	spo := so.parseOptions(fs)
	called := 0
	spo.ErrorCallback = func(error) interface{} { called++; return nil }
	sp, serr := cp.Parse(mainFile, spo)
	if (sp == nil) == (serr == nil) {
		return where(fmt.Errorf("stopping at errors: payload %v and error %v", sp != nil, serr))
	}
	if called > 0 {
		return where(fmt.Errorf("stopping at errors: the callback is called %d times", called))
	}

	switch {
	case len(log) > 0:
		if serr == nil {
			return where(fmt.Errorf("stopping at errors gives no error, want %v", log[0]))
		}
		if e := sameError(serr, log[0]); e != nil {
			return where(fmt.Errorf("stopping at errors: %w", e))
		}
		if e := printed(serr); e != nil {
			return where(e)
		}
	case err != nil:
		if serr == nil || serr.Error() != err.Error() {
			return where(fmt.Errorf("stopping at errors gives error %v, want %v", serr, err))
		}
	default:
		if serr != nil {
			return where(fmt.Errorf("stopping at errors gives error %v, want none", serr))
		}
		if e := samePayload(sp, p); e != nil {
			return where(fmt.Errorf("stopping at errors: %w", e))
		}
	}
	o.LabelIf(len(log) > 1, "several errors")
	o.LabelIf(len(log) == 0 && err == nil, "no error")
	o.LabelIf(err != nil, "parsing fails")
	o.LabelIf(c.C.O.Combine, "combined")

	// without a callback everything is the same
	npo := c.C.O.parseOptions(fs)
	np, nerr := cp.Parse(mainFile, npo)
	if fmt.Sprint(nerr) != fmt.Sprint(err) || (np == nil) != (p == nil) {
		return where(fmt.Errorf("without a callback error %v, with one %v", nerr, err))
	}
	for _, e := range log {
		if e := printed(e); e != nil {
			return where(e)
		}
	}
	if err != nil {
		return nil
	}
	for i := range np.Errors {
		if np.Errors[i].Callback != nil {
			return where(fmt.Errorf("error %v has a callback result although there is no callback", np.Errors[i]))
		}
		np.Errors[i].Callback = nil
	}
	q := copyPayload(p)
	for i := range q.Errors {
		q.Errors[i].Callback = nil
	}
	if e := samePayload(np, q); e != nil {
		return where(fmt.Errorf("without a callback: %w", e))
	}

	if len(p.Errors) != len(log) {
		return where(fmt.Errorf("%d errors, the callback is called %d times", len(p.Errors), len(log)))
	}
	for i := range log {
		if p.Errors[i].Error != log[i] {
			return where(fmt.Errorf("error %d is %v, the callback got %v", i, p.Errors[i].Error, log[i]))
		}
		if p.Errors[i].Callback != ticks[i] {
			return where(fmt.Errorf("error %d has the callback result %v, want %v", i, p.Errors[i].Callback, ticks[i]))
		}
		pe := asParseError(log[i])
		if p.Errors[i].File != *pe.File || pint(p.Errors[i].Line) != pint(pe.Line) {
			return where(fmt.Errorf("error %v is listed for %s:%s", pe, p.Errors[i].File, pint(p.Errors[i].Line)))
		}
	}
	if p.Status != status(len(p.Errors)) {
		return where(fmt.Errorf("status %q with %d errors", p.Status, len(p.Errors)))
	}
	k := 0
	for _, f := range p.Config {
		if f.Status != status(len(f.Errors)) {
			return where(fmt.Errorf("%s: status %q with %d errors", f.File, f.Status, len(f.Errors)))
		}
		for _, e := range f.Errors {
			if k >= len(log) || e.Error != log[k] || !c.C.O.Combine && p.Errors[k].File != f.File || pint(e.Line) != pint(p.Errors[k].Line) {
				return where(fmt.Errorf("%s: error %v is not the one the callback got", f.File, e.Error))
			}
			k++
		}
	}
	if k != len(log) {
		return where(fmt.Errorf("the configurations list %d errors, the callback got %d", k, len(log)))
	}

	// combining later keeps what the callback returned
	if !c.C.O.Combine {
		m, err := p.Combined()
		if err != nil {
			return where(err)
		}
		for i := range m.Errors {
			if m.Errors[i].Callback != ticks[i] || m.Errors[i].Error != log[i] {
				return where(fmt.Errorf("combined: error %d is %v with %v", i, m.Errors[i].Error, m.Errors[i].Callback))
			}
		}
		if len(m.Errors) != len(log) {
			return where(fmt.Errorf("combined: %d errors, want %d", len(m.Errors), len(log)))
		}
	}
	o.NonTrivial(len(log) > 0)
	return nil
}

// ---------------------------------------------------------------- errors made by a program

type madeError struct {
	What      string
	File      *string
	Line      *int
	Statement string
	BlockCtx  string
}

func runMadeError(c madeError, o *Obs) error {
	e := &cp.ParseError{What: c.What, File: c.File, Line: c.Line, Statement: c.Statement, BlockCtx: c.BlockCtx}
	want := c.What + " in "
	if c.File != nil {
		want += *c.File
	} else {
		want += "(nofile)"
	}
	if c.Line != nil {
		want += fmt.Sprintf(":%d", *c.Line)
	}
	if e.Error() != want {
		return fmt.Errorf("prints as %q, want %q", e.Error(), want)
	}
	b, err := json.Marshal(e)
	if err != nil {
		return err
	}
	var s string
	if err := json.Unmarshal(b, &s); err != nil || s != want {
		return fmt.Errorf("encoded as %s, want %q", b, want)
	}
	if e.Unwrap() != nil {
		return fmt.Errorf("unwraps to %v", e.Unwrap())
	}
	o.LabelIf(c.File == nil, "no file")
	o.LabelIf(c.Line == nil, "no line")
	o.NonTrivial(len(c.What) > 0)
	return nil
}

func init() {
	Register(Check{Prop: "C22", Name: "modes", Quick: 40000,
		Rule: "files with any number of errors of any kind, parsed stopping at errors, collecting them with and without a callback; non-trivial: at least one error is collected"},
		func(t *rapid.T) modeCase {
			var c modeCase
			switch pick(t, 40, 40, 20) {
			case 0:
				c.C = genAnyFiles(t)
			case 1:
				c.C = filesCase{Files: genFiles(t, chance(t, 10)), O: includeOpts(t)}
				for _, n := range sortedKeys(c.C.Files) {
					if chance(t, 30) {
						c.C.Files[n] = brokenText(t, c.C.O)
					}
				}
			case 2:
				g := &treeGen{comments: chance(t, 50), known: true}
				c.C = filesCase{Files: map[string]string{"nginx.conf": genConf(t, g, nil).render().text}, O: includeOpts(t)}
			}
			c.C.O.Combine = chance(t, 25)
			for n := intn(t, 0, 4); n > 0; n-- {
				c.Ticks = append(c.Ticks, intn(t, -1, 9))
			}
			return c
		}, runModes)
	Register(Check{Prop: "C22", Name: "errors", Quick: 20000,
		Rule: "errors made by a program with any strings, with and without file and line; non-trivial: there is a message"},
		func(t *rapid.T) madeError {
			c := madeError{What: hostile(t), Statement: hostile(t), BlockCtx: hostile(t)}
			if chance(t, 60) {
				s := hostile(t)
				c.File = &s
			}
			if chance(t, 60) {
				n := oneInt(t, []int{0, 1, 2, 10, -1, 1 << 40, 7, 123456})
				c.Line = &n
			}
			return c
		}, runMadeError)
}
