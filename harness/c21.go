package main

import (
	"fmt"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

// EN is a directive of a generated tree, or nil.
type EN struct {
	Nil bool     `json:",omitempty"`
	D   string   `json:",omitempty"`
	A   []string `json:",omitempty"`
	L   int      `json:",omitempty"`
	F   string   `json:",omitempty"`
	I   []int    `json:",omitempty"`
	C   *string  `json:",omitempty"`
	M   bool     `json:",omitempty"`
	Nul bool     `json:",omitempty"` // no list stands for an empty list of arguments, and the other way round for the includes
	Blk bool     `json:",omitempty"` // it has a block
	B   []EN     `json:",omitempty"`
}

func (e EN) directive() *cp.Directive {
	if e.Nil {
		return nil
	}
	d := &cp.Directive{
		Directive: e.D, Args: append([]string{}, e.A...), Line: e.L, File: e.F, Includes: append([]int(nil), e.I...), IsMapBlockParameter: e.M,
	}
	if e.Nul {
		if len(e.A) == 0 {
			d.Args = nil
		}
		if len(e.I) == 0 {
			d.Includes = []int{}
		}
	}
	if e.C != nil {
		c := *e.C
		d.Comment = &c
	}
	if e.Blk {
		d.Block = cp.Directives{}
		for _, b := range e.B {
			d.Block = append(d.Block, b.directive())
		}
	}
	return d
}

// same is what equality of directives means.
func (e EN) same(f EN) bool {
	if e.Nil || f.Nil {
		return e.Nil && f.Nil
	}
	if e.D != f.D || e.L != f.L || e.F != f.F || e.M != f.M || e.Blk != f.Blk || (e.C == nil) != (f.C == nil) || e.C != nil && *e.C != *f.C {
		return false
	}
	if len(e.A) != len(f.A) || len(e.I) != len(f.I) || e.Blk && len(e.B) != len(f.B) {
		return false
	}
	for i := range e.A {
		if e.A[i] != f.A[i] {
			return false
		}
	}
	for i := range e.I {
		if e.I[i] != f.I[i] {
			return false
		}
	}
	for i := range e.B {
		if e.Blk && !e.B[i].same(f.B[i]) {
			return false
		}
	}
	return true
}

func (e EN) count() (n, depth int) {
	n = 1
	for _, b := range e.B {
		m, d := b.count()
		n += m
		if d+1 > depth {
			depth = d + 1
		}
	}
	return
}

func (e EN) clone() EN {
	e.A = append([]string(nil), e.A...)
	e.I = append([]int(nil), e.I...)
	if e.C != nil {
		c := *e.C
		e.C = &c
	}
	var b []EN
	for _, x := range e.B {
		b = append(b, x.clone())
	}
	e.B = b
	return e
}

// nulls gives a copy in which no list stands for an empty one wherever it did not.
func (e EN) nulls() EN {
	e = e.clone()
	e.Nul = !e.Nul
	for i := range e.B {
		e.B[i] = e.B[i].nulls()
	}
	return e
}

// nearStrings gives the strings that some readings would take for s.
func nearStrings(s string) []string {
	all := []string{
		" " + s, s + " ", s + "\n", s + "\r", "\t" + s, s + "\x00", s + "\u00a0", "./" + s, s + "/", "/" + s, "x/../" + s, "0" + s, s + "0", s + ".0", s + "." + s, s + s, `"` + s + `"`, "'" + s + "'", `\` + s, s + `\`,
		strings.ToUpper(s), strings.ToLower(s), strings.Title(s), strings.Trim(s, "\"' /."), strings.TrimLeft(s, "0"), strings.ReplaceAll(s, "é", "e\u0301"), strings.ReplaceAll(s, "a", "\u0430"), //nolint:staticcheck
		strings.ReplaceAll(s, "k", "\u212a"), strings.ReplaceAll(s, "${a}", "$a"), strings.ReplaceAll(s, "/", "//"), strings.ReplaceAll(s, "\n", "\r\n"), strings.ToValidUTF8(s, "\ufffd"), s + "\xff", s + "\ufffd", s + ";", "(" + s + ")",
	}
	var out []string
	for _, x := range all {
		if x != s && !contains(out, x) {
			out = append(out, x)
		}
	}
	return out
}

// edits gives all the changes of one thing of one directive; each is a change of the tree.
func (e EN) edits() map[string]func(*EN) {
	out := map[string]func(*EN){}
	if e.Nil {
		out["nil to directive"] = func(e *EN) { *e = EN{D: "x"} }
		out["nil to empty directive"] = func(e *EN) { *e = EN{} }
		return out
	}
	out["directive to nil"] = func(e *EN) { *e = EN{Nil: true} }
	out["name longer"] = func(e *EN) { e.D += "x" }
	out["name empty or not"] = func(e *EN) {
		if e.D == "" {
			e.D = " "
		} else {
			e.D = ""
		}
	}
	near := func(what, s string, set func(*EN, string)) {
		for _, x := range nearStrings(s) {
			x := x
			out[fmt.Sprintf("%s %q", what, x)] = func(e *EN) { set(e, x) }
		}
	}
	near("name", e.D, func(e *EN, s string) { e.D = s })
	near("file", e.F, func(e *EN, s string) { e.F = s })
	if e.C != nil {
		near("comment", *e.C, func(e *EN, s string) { e.C = &s })
	}
	for i := range e.A {
		i := i
		if i < 2 || i == len(e.A)-1 {
			near(fmt.Sprintf("arg %d", i), e.A[i], func(e *EN, s string) { e.A[i] = s })
		}
	}
	out["line+1"] = func(e *EN) { e.L++ }
	out["line-1"] = func(e *EN) { e.L-- }
	out["line+2^32"] = func(e *EN) { e.L += 1 << 32 }
	out["file longer"] = func(e *EN) { e.F += "f" }
	out["mark"] = func(e *EN) { e.M = !e.M }
	out["comment nil or not"] = func(e *EN) {
		if e.C == nil {
			s := ""
			e.C = &s
		} else {
			e.C = nil
		}
	}
	if e.C != nil {
		out["comment longer"] = func(e *EN) { *e.C += " " }
		out["comment other"] = func(e *EN) { *e.C = "~" + *e.C }
	}
	out["block or not"] = func(e *EN) { e.Blk = !e.Blk }
	if e.Blk {
		out["block longer"] = func(e *EN) { e.B = append(e.B, EN{D: "x"}) }
		out["block longer by nil"] = func(e *EN) { e.B = append(e.B, EN{Nil: true}) }
		out["block starts with more"] = func(e *EN) { e.B = append([]EN{{D: "x"}}, e.B...) }
	}
	if e.Blk && len(e.B) > 0 {
		out["block shorter"] = func(e *EN) { e.B = e.B[:len(e.B)-1] }
		out["block without its first"] = func(e *EN) { e.B = e.B[1:] }
	}
	for i := range e.A {
		i := i
		out[fmt.Sprintf("arg %d longer", i)] = func(e *EN) { e.A[i] += "x" }
		if e.A[i] != "" {
			out[fmt.Sprintf("arg %d empty", i)] = func(e *EN) { e.A[i] = "" }
		}
	}
	out["one more arg"] = func(e *EN) { e.A = append(e.A, "") }
	if len(e.A) > 0 {
		out["one arg less"] = func(e *EN) { e.A = e.A[:len(e.A)-1] }
		out["first arg less"] = func(e *EN) { e.A = e.A[1:] }
	}
	if len(e.A) > 1 {
		out["args joined"] = func(e *EN) { e.A = append([]string{e.A[0] + " " + e.A[1]}, e.A[2:]...) }
		if e.A[0] != e.A[1] {
			out["args swapped"] = func(e *EN) { e.A[0], e.A[1] = e.A[1], e.A[0] }
		}
	}
	for i := range e.I {
		i := i
		out[fmt.Sprintf("include %d", i)] = func(e *EN) { e.I[i]++ }
	}
	out["one more include"] = func(e *EN) { e.I = append(e.I, 0) }
	if len(e.I) > 0 {
		out["one include less"] = func(e *EN) { e.I = e.I[:len(e.I)-1] }
	}
	if len(e.I) > 1 && e.I[0] != e.I[1] {
		out["includes swapped"] = func(e *EN) { e.I[0], e.I[1] = e.I[1], e.I[0] }
	}
	return out
}

// at gives the directive at a place, numbering the tree from 0.
func (e *EN) at(k *int) *EN {
	if *k == 0 {
		return e
	}
	*k--
	for i := range e.B {
		if r := e.B[i].at(k); r != nil {
			return r
		}
	}
	return nil
}

func equalBoth(a, b *cp.Directive, want bool) error {
	if g := a.Equal(b); g != want {
		return fmt.Errorf("Equal gives %v", g)
	}
	if g := b.Equal(a); g != want {
		return fmt.Errorf("Equal the other way round gives %v", g)
	}
	return nil
}

func classify(d *cp.Directive) error {
	if d == nil {
		return nil
	}
	if g, w := d.IsBlock(), d.Block != nil; g != w {
		return fmt.Errorf("IsBlock of %+v is %v", *d, g)
	}
	if g, w := d.IsInclude(), d.Directive == "include" && d.Includes != nil; g != w {
		return fmt.Errorf("IsInclude of %+v is %v", *d, g)
	}
	if g, w := d.IsComment(), d.Directive == "#" && d.Comment != nil; g != w {
		return fmt.Errorf("IsComment of %+v is %v", *d, g)
	}
	return nil
}

type editCase struct {
	A EN
}

// runEdits changes each thing of each directive of the tree in turn.
func runEdits(c editCase, o *Obs) error {
	a, b := c.A.directive(), c.A.directive()
	if err := equalBoth(a, a, true); err != nil {
		return fmt.Errorf("with itself: %w", err)
	}
	if err := equalBoth(a, b, true); err != nil {
		return fmt.Errorf("with a copy: %w", err)
	}
	if err := equalBoth(a, c.A.nulls().directive(), true); err != nil {
		return fmt.Errorf("with a copy in which no list stands for an empty one: %w", err)
	}
	if err := equalBoth(a, nil, c.A.Nil); err != nil {
		return fmt.Errorf("with nil: %w", err)
	}
	if err := classify(a); err != nil {
		return err
	}
	n, depth := c.A.count()
	edits := 0
	for i := 0; i < n; i++ {
		k := i
		orig := c.A.at(&k)
		if orig == nil {
			return infraError{fmt.Errorf("no directive %d of %d", i, n)}
		}
		es := orig.edits()
		for _, name := range sortedKeys(es) {
			x := c.A.clone()
			k := i
			es[name](x.at(&k))
			if c.A.same(x) {
				return infraError{fmt.Errorf("edit %s changes nothing", name)}
			}
			if err := equalBoth(a, x.directive(), false); err != nil {
				return fmt.Errorf("directive %d changed (%s): %w", i, name, err)
			}
			edits++
		}
	}
	if err := equalBoth(a, b, true); err != nil {
		return fmt.Errorf("with a copy, later: %w", err)
	}
	o.LabelIf(depth >= 3, "depth>=3")
	o.LabelIf(edits > 200, "more than 200 changes")
	o.LabelIf(n > 10, "more than 10 directives")
	o.NonTrivial(n > 1)
	return nil
}

type poolCase struct {
	P []EN
}

// runPool compares all pairs of a pool of trees, of which many are equal.
func runPool(c poolCase, o *Obs) error {
	var ds []*cp.Directive
	for _, e := range c.P {
		ds = append(ds, e.directive())
	}
	eq, ne := 0, 0
	for i := range ds {
		if err := classify(ds[i]); err != nil {
			return err
		}
		for j := range ds {
			want := c.P[i].same(c.P[j])
			if got := ds[i].Equal(ds[j]); got != want {
				return fmt.Errorf("trees %d and %d: Equal gives %v", i, j, got)
			}
			if i != j {
				if want {
					eq++
				} else {
					ne++
				}
			}
		}
	}
	o.LabelIf(eq > 0, "equal pair")
	o.LabelIf(ne > 0, "unequal pair")
	o.NonTrivial(eq > 0 && ne > 0)
	return nil
}

var eqNames = []string{"a", "b", "ab", "", "#", "include", "if", "server", "A", "é", "a ", "\x00",
	"on", "Off", "./a", "/etc/nginx/x.conf", "10k", "1", "01", "${a}", "a\nb", "\"a\"", "\xff"}

func genEN(t *rapid.T, depth int, budget *int) EN {
	*budget--
	if chance(t, 6) {
		return EN{Nil: true}
	}
	e := EN{D: oneOf(t, eqNames), Nul: chance(t, 15)}
	for n := intn(t, 0, 3); n > 0; n-- {
		e.A = append(e.A, oneOf(t, eqNames))
	}
	if chance(t, 3) {
		for n := intn(t, 8, 40); n > 0; n-- {
			e.A = append(e.A, oneOf(t, eqNames))
		}
	}
	if chance(t, 60) {
		e.L = intn(t, -1, 5)
	}
	if chance(t, 30) {
		e.F = oneOf(t, eqNames)
	}
	if chance(t, 30) {
		for n := intn(t, 0, 4); n > 0; n-- {
			e.I = append(e.I, intn(t, -1, 4))
		}
	}
	if chance(t, 30) {
		s := oneOf(t, eqNames)
		e.C = &s
	}
	e.M = chance(t, 25)
	if depth > 0 && chance(t, 65) {
		e.Blk = true
		for n := intn(t, 0, 4); n > 0 && *budget > 0; n-- {
			e.B = append(e.B, genEN(t, depth-1, budget))
		}
	} else {
		e.Blk = chance(t, 20)
	}
	return e
}

func init() {
	Register(Check{Prop: "C21", Name: "edits", Quick: 12000,
		Rule: "trees with nil directives, compared with themselves, a copy, nil, and with every copy in which one thing of one directive at any depth is changed, both ways; non-trivial: more than one directive"},
		func(t *rapid.T) editCase {
			budget := intn(t, 1, 30)
			c := editCase{A: genEN(t, intn(t, 0, 5), &budget)}
			if chance(t, 10) {
				for n := intn(t, 1, 40); n > 0; n-- {
					c.A = EN{D: oneOf(t, eqNames), Blk: true, B: []EN{c.A}}
				}
			}
			return c
		}, runEdits)
	Register(Check{Prop: "C21", Name: "pairs", Quick: 60000,
		Rule: "all pairs, both ways, of pools of trees made by copying and changing a tree, against structural equality of the model (so reflexive, symmetric and transitive); non-trivial: equal and unequal pairs"},
		func(t *rapid.T) poolCase {
			budget := intn(t, 1, 12)
			c := poolCase{P: []EN{genEN(t, 3, &budget)}}
			for n := intn(t, 2, 6); n > 0; n-- {
				x := c.P[intn(t, 0, len(c.P)-1)].clone()
				if chance(t, 20) {
					x = x.nulls()
				}
				for m := intn(t, 0, 2); m > 0; m-- {
					cnt, _ := x.count()
					k := intn(t, 0, cnt-1)
					d := x.at(&k)
					es := d.edits()
					es[oneOf(t, sortedKeys(es))](d)
				}
				// a block that is not there has nothing in it
				var drop func(e *EN)
				drop = func(e *EN) {
					if !e.Blk {
						e.B = nil
					}
					for i := range e.B {
						drop(&e.B[i])
					}
				}
				drop(&x)
				c.P = append(c.P, x)
			}
			return c
		}, runPool)
	Register(Check{Prop: "C21", Name: "parsed", Quick: 10000,
		Rule: "directives of parsed files, compared with each other and with those of a second parse; non-trivial: more than 3 directives and equal ones among them"},
		func(t *rapid.T) filesCase {
			c := genAnyFiles(t)
			if len(c.Files["nginx.conf"]) > 4000 {
				c.Files["nginx.conf"] = "a;a; b {a;} b {}"
			}
			c.O.Combine = chance(t, 30)
			return c
		},
		func(c filesCase, o *Obs) error {
			fs := c.fs()
			var all [2][]*cp.Directive
			for k := range all {
				p, err := cp.Parse(mainFile, c.O.parseOptions(fs))
				if err != nil {
					o.Label("error")
					return nil
				}
				for _, f := range p.Config {
					walkDirs(f.Parsed, 0, func(d *cp.Directive, _ int) { all[k] = append(all[k], d) })
				}
			}
			if len(all[0]) != len(all[1]) {
				return fmt.Errorf("files %q: %d directives, then %d", c.Files, len(all[0]), len(all[1]))
			}
			n := len(all[0])
			if n > 60 {
				n = 60
			}
			eq := 0
			for i, a := range all[0][:n] {
				if err := classify(a); err != nil {
					return fmt.Errorf("files %q: %w", c.Files, err)
				}
				if err := equalBoth(a, all[1][i], true); err != nil {
					return fmt.Errorf("files %q: %v of two parses: %w", c.Files, a, err)
				}
				for j, b := range all[1][:n] {
					want := diffDir("", a, b, cmpOpt{}) == nil
					if got := a.Equal(b); got != want {
						return fmt.Errorf("files %q: Equal of %+v and %+v gives %v", c.Files, *a, *b, got)
					}
					if want && i != j {
						eq++
					}
				}
			}
			o.LabelIf(eq > 0, "equal ones")
			o.NonTrivial(n > 3 && eq > 0)
			return nil
		})
}
