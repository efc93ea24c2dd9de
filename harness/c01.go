package main

import (
	"errors"
	"fmt"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

// lexAll collects the tokens of a text.
func lexAll(text string) []Tok { return collect(cp.Lex(strings.NewReader(text))) }

func collect(ch <-chan cp.NgxToken) []Tok {
	var out []Tok
	for t := range ch {
		k := Tok{Val: t.Value, Line: t.Line, Quoted: t.IsQuoted}
		if t.Error != nil {
			k = Tok{Err: t.Error.Error(), Line: t.Line}
			var pe *cp.ParseError
			if errors.As(t.Error, &pe) {
				k.Err = pe.What
				k.Line = -1
				if pe.Line != nil {
					k.Line = *pe.Line
				}
			}
		}
		out = append(out, k)
	}
	return out
}

func diffToks(got, want []Tok) error {
	for i := 0; i < len(got) && i < len(want); i++ {
		g, w := got[i], want[i]
		g.EOF, w.EOF = false, false
		if g != w {
			return fmt.Errorf("token %d is %s, want %s", i, g, w)
		}
	}
	if len(got) > len(want) {
		return fmt.Errorf("extra token %s after %d tokens", got[len(want)], len(want))
	}
	if len(got) < len(want) {
		return fmt.Errorf("missing token %s after %d tokens", want[len(got)], len(got))
	}
	return nil
}

// lexItem is a token with its spelling and what separates it from the token before.
type lexItem struct {
	G string `json:",omitempty"` // white space before it
	S string // spelling
	V string // value
	Q bool   `json:",omitempty"`
	E string `json:",omitempty"` // line end after a comment
	R int    `json:",omitempty"` // repeated
}

type lexCase struct {
	Items []lexItem
	Err   string `json:",omitempty"` // this punctuation follows, and is an error
	G     string `json:",omitempty"` // before it
	Tail  string `json:",omitempty"`
}

func (c lexCase) build() (string, []Tok) {
	var sb strings.Builder
	line, depth := 1, 0
	var toks []Tok
	w := func(s string) {
		sb.WriteString(s)
		line += strings.Count(s, "\n")
	}
	for _, it := range c.Items {
		for r := 0; r <= it.R; r++ {
			w(it.G)
			toks = append(toks, Tok{Val: it.V, Line: line, Quoted: it.Q})
			w(it.S + it.E)
		}
		if !it.Q {
			switch it.V {
			case "{":
				depth++
			case "}":
				depth--
			}
		}
	}
	w(c.G)
	if c.Err != "" {
		toks = append(toks, Tok{Err: `unexpected "` + c.Err + `"`, Line: line})
		w(c.Err)
	}
	w(c.Tail)
	if c.Err == "" && depth > 0 {
		toks = append(toks, Tok{Err: `unexpected end of file, expecting "}"`, Line: line})
	}
	return sb.String(), toks
}

func genLexWord(t *rapid.T) Word {
	switch pick(t, 30, 30, 30, 4) {
	case 0:
		return bare(oneOf(t, plainWords))
	case 1:
		return genBare(t)
	case 2:
		return genQuoted(t, true)
	default:
		// an escaped line end is part of the word
		a, b := genBare(t), genBare(t)
		if chance(t, 20) {
			a = Word{}
		}
		if strings.HasSuffix(a.S, "\\") {
			return a
		}
		nl := oneOf(t, []string{"\\\n", "\\\r\n"})
		return Word{S: a.S + nl + b.S, V: a.V + "\\\n" + b.V}
	}
}

func genLexCase(t *rapid.T) lexCase {
	var c lexCase
	depth := 0
	n := intn(t, 1, 10)
	prev := lexItem{}
	gap := func(word bool) string {
		need := word && prev.S != "" && !prev.Q && prev.E == "" && !isPunct(prev.V)
		if !need && chance(t, 50) {
			return ""
		}
		return genWS(t)
	}
	add := func(it lexItem) {
		c.Items = append(c.Items, it)
		prev = it
	}
	comment := func() {
		txt := genCommentText(t)
		add(lexItem{G: gap(true), S: "#" + txt, V: "#" + txt, E: oneOf(t, []string{"\n", "\r\n"})})
	}
	for i := 0; i < n; i++ {
		for k := intn(t, 1, 4); k > 0; k-- {
			if chance(t, 8) {
				comment()
			}
			w := genLexWord(t)
			add(lexItem{G: gap(true), S: w.S, V: w.V, Q: w.Q})
		}
		if chance(t, 5) {
			comment()
		}
		p := ";"
		if chance(t, 35) {
			p = "{"
			depth++
		}
		g := gap(false)
		if p == "{" && g == "" && !prev.Q && strings.HasSuffix(prev.S, "$") {
			g = " "
		}
		add(lexItem{G: g, S: p, V: p})
		for depth > 0 && chance(t, 35) {
			if chance(t, 10) {
				comment()
			}
			depth--
			add(lexItem{G: gap(false), S: "}", V: "}"})
		}
		if chance(t, 3) {
			// a long run
			w := genLexWord(t)
			r := intn(t, 100, 2500)
			if r*len(w.S) > 300000 {
				r = 300000 / len(w.S)
			}
			add(lexItem{G: genWS(t), S: w.S, V: w.V, Q: w.Q, R: r})
			add(lexItem{G: " ", S: ";", V: ";"})
		}
		if chance(t, 1) {
			r := intn(t, 50, 1200)
			for k := 0; k < r; k++ {
				add(lexItem{G: " ", S: "b", V: "b"})
				add(lexItem{G: " ", S: "{", V: "{"})
			}
			depth += r
		}
	}
	switch {
	case chance(t, 70):
		for ; depth > 0; depth-- {
			add(lexItem{G: gap(false), S: "}", V: "}"})
		}
		if chance(t, 25) {
			c.Err, c.G, c.Tail = "}", gap(false), " a b; } c {"
		}
	case isPunct(prev.V) && chance(t, 60):
		c.Err, c.G, c.Tail = oneOf(t, []string{";", "{"}), gap(false), " x; y { }"
		if chance(t, 30) && depth == 0 {
			c.Items = nil
			depth = 0
		}
	}
	if c.Err == "" {
		c.Tail = oneOf(t, []string{"", "\n", " ", "\n\n"})
		if prev.E != "" && chance(t, 50) {
			c.Items[len(c.Items)-1].E = ""
			c.Tail = ""
		}
	}
	return c
}

func isPunct(v string) bool { return v == "{" || v == "}" || v == ";" }

var soup = []string{
	"a", "b", "user", "server", " ", " ", "\n", "\t", "\r", "\r\n", ";", ";", "{", "}", "#", "\"", "'", "\\", "\\", "$", "${", "{", "}",
	"é", "日本", "\u00a0", "\u2028", "\u0085", "\u3000", "\v", "\f", "0", "=", "(", ")", "\x00", "\ufeff", "\ufffd", "a b;", "x { y; }", "\"q\"", "'q' ", "# c\n", "${v}", "${v w}",
}

func genSoup(t *rapid.T) string {
	n := intn(t, 0, 14)
	if chance(t, 5) {
		n = intn(t, 30, 200)
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(oneOf(t, soup))
	}
	return sb.String()
}

type textCase struct{ Text string }

// mutateText changes a few characters of a text.
func mutateText(t *rapid.T, s string) string {
	rs := []rune(s)
	for k := intn(t, 1, 3); k > 0 && len(rs) > 0; k-- {
		i := intn(t, 0, len(rs)-1)
		switch pick(t, 1, 1, 1, 1) {
		case 0:
			rs = append(rs[:i:i], rs[i+1:]...)
		case 1:
			rs = append(rs[:i:i], append([]rune(oneOf(t, soup)), rs[i:]...)...)
		case 2:
			rs = append(rs[:i:i], append([]rune{rs[i]}, rs[i:]...)...)
		case 3:
			rs = rs[:i]
		}
	}
	return string(rs)
}

func runLexText(c textCase, o *Obs) error {
	got, want := lexAll(c.Text), refLex(c.Text)
	if err := diffToks(got, want); err != nil {
		return fmt.Errorf("text %q: %w", clip(c.Text, 2000), err)
	}
	o.NonTrivial(len(want) >= 3)
	for _, k := range want {
		if k.Err != "" {
			o.Label("error: " + k.Err)
		}
		o.LabelIf(k.Quoted, "quoted")
		o.LabelIf(strings.Contains(k.Val, "${"), "variable in braces")
		o.LabelIf(strings.Contains(k.Val, "\\"), "escape")
	}
	return nil
}

func init() {
	Register(Check{Prop: "C01", Name: "spelled", Quick: 60000,
		Rule: "token list spelled out with random quoting, escapes, white space and comments, optionally ended by an error; non-trivial: at least 4 tokens, one of them quoted, escaped, a comment or multi-line"},
		genLexCase, func(c lexCase, o *Obs) error {
			text, want := c.build()
			if err := diffToks(lexAll(text), want); err != nil {
				return fmt.Errorf("text %q: %w", clip(text, 2000), err)
			}
			interesting := false
			for _, it := range c.Items {
				if it.Q || it.E != "" || strings.ContainsAny(it.S, "\\\n$") {
					interesting = true
				}
				o.LabelIf(it.Q, "quoted")
				o.LabelIf(it.E != "", "comment")
				o.LabelIf(strings.Contains(it.S, "\\"), "escape")
				o.LabelIf(strings.Contains(it.S, "${"), "variable in braces")
				o.LabelIf(strings.Contains(it.S, "\n"), "token over several lines")
				o.LabelIf(len(it.S) > 4096, "token>4096 bytes")
			}
			o.LabelIf(c.Err != "", "misplaced "+c.Err)
			o.LabelIf(len(want) > 2048, "tokens>2048")
			o.LabelIf(len(want) > 0 && want[len(want)-1].Err != "" && c.Err == "", "unclosed block")
			o.NonTrivial(interesting && len(want) >= 4)
			return nil
		})
	Register(Check{Prop: "C01", Name: "mutated", Quick: 40000,
		Rule: "spelled token list with 1-3 characters changed, against the reference lexer; non-trivial: at least 3 tokens"},
		func(t *rapid.T) textCase {
			text, _ := genLexCase(t).build()
			return textCase{mutateText(t, text)}
		}, runLexText)
	Register(Check{Prop: "C01", Name: "soup", Quick: 60000,
		Rule: "random sequences of delimiters, escapes, quotes and words, against the reference lexer; non-trivial: at least 3 tokens"},
		func(t *rapid.T) textCase { return textCase{genSoup(t)} }, runLexText)
}
