package main

import (
	"fmt"
	"strings"
	"unicode"
)

// Tok is a token as the reference lexer sees it.
type Tok struct {
	Val    string
	Line   int
	Quoted bool
	Err    string // set for the error token that ends the stream
	EOF    bool   // the error is that the text ended inside a block
}

func (t Tok) String() string {
	if t.Err != "" {
		return fmt.Sprintf("<error %q line %d>", t.Err, t.Line)
	}
	q := ""
	if t.Quoted {
		q = " quoted"
	}
	return fmt.Sprintf("%q@%d%s", t.Val, t.Line, q)
}

func (t Tok) punct() bool {
	return !t.Quoted && t.Err == "" && (t.Val == "{" || t.Val == "}" || t.Val == ";")
}

func (t Tok) comment() bool { return !t.Quoted && t.Err == "" && strings.HasPrefix(t.Val, "#") }

// unit is a character, or a backslash and the character after it.
type unit struct {
	s    string
	line int // line the unit ends on, after counting a line end that it is
}

func (u unit) space() bool { return strings.TrimSpace(u.s) == "" }
func (u unit) eol() bool   { return strings.HasSuffix(u.s, "\n") }

func units(text string) []unit {
	var out []unit
	line := 1
	esc := false
	for _, r := range text {
		if r == '\r' {
			continue
		}
		if r == '\n' {
			line++
		}
		switch {
		case esc:
			out = append(out, unit{"\\" + string(r), line})
			esc = false
		case r == '\\':
			esc = true
		default:
			out = append(out, unit{string(r), line})
		}
	}
	if esc {
		out = append(out, unit{"\\", line})
	}
	return out
}

// refExt describes how the text after a registered directive name is read: it returns the tokens, and the
// number of bytes of text consumed.
type refExt func(name, text string, line int) (toks []Tok, n int)

// refLex is an independent statement of the lexical rules, written over slices.
func refLex(text string) []Tok {
	us := units(text)
	var toks []Tok
	depth := 0
	dup := true
	lastLine := 1
	for _, r := range text {
		if r == '\n' {
			lastLine++
		}
	}
	i := 0
	for i < len(us) {
		u := us[i]
		start := u.line
		if u.eol() {
			start-- // it starts with an escaped line end
		}
		switch {
		case u.space():
			i++
		case u.s == "#":
			// comment: up to the end of the line
			var sb strings.Builder
			for i < len(us) && !us[i].eol() {
				if us[i].s != "\\" { // a backslash at the end of a comment is dropped
					sb.WriteString(us[i].s)
				}
				i++
			}
			i++
			toks = append(toks, Tok{Val: sb.String(), Line: start})
		case u.s == `"` || u.s == "'":
			q := u.s
			dup = false
			i++
			var sb strings.Builder
			closed := false
			for i < len(us) {
				c := us[i].s
				i++
				if c == q {
					closed = true
					break
				}
				if c == "\\"+q {
					c = q
				}
				sb.WriteString(c)
			}
			if closed || sb.Len() > 0 {
				toks = append(toks, Tok{Val: sb.String(), Line: start, Quoted: true})
			}
		case u.s == "{" || u.s == "}" || u.s == ";":
			if dup && u.s != "}" {
				return append(toks, Tok{Err: `unexpected "` + u.s + `"`, Line: start})
			}
			dup = true
			if u.s == "{" {
				depth++
			}
			if u.s == "}" {
				depth--
				if depth < 0 {
					return append(toks, Tok{Err: `unexpected "}"`, Line: start})
				}
			}
			toks = append(toks, Tok{Val: u.s, Line: start})
			i++
		default:
			// bare word
			var word []byte
			for i < len(us) {
				c := us[i]
				if len(word) > 0 && word[len(word)-1] == '$' && c.s == "{" {
					// variable in braces
					word = append(word, c.s...)
					i++
					for i < len(us) {
						c = us[i]
						word = append(word, c.s...)
						i++
						if strings.HasSuffix(c.s, "}") || c.space() {
							break
						}
					}
					dup = false
					continue
				}
				if c.space() || c.s == "{" || c.s == "}" || c.s == ";" {
					break
				}
				dup = false
				word = append(word, c.s...)
				i++
			}
			toks = append(toks, Tok{Val: string(word), Line: start})
		}
	}
	if depth > 0 {
		toks = append(toks, Tok{Err: `unexpected end of file, expecting "}"`, Line: lastLine, EOF: true})
	}
	return toks
}

// normArg is an argument with raw carriage returns, which the lexer skips, and a lone backslash at the end written
// as the escapes that NGINX reads as those characters.
func normArg(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '\\' && (i+1 == len(s) || s[i+1] == '\r'):
			sb.WriteString(`\\`)
		case c == '\\':
			i++
			sb.WriteByte(c)
			sb.WriteByte(s[i])
		case c == '\r':
			sb.WriteString(`\r`)
		default:
			sb.WriteByte(c)
		}
	}
	return sb.String()
}

// nginxValue is what NGINX reads from a token value that still has its backslash escapes.
func nginxValue(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			switch s[i+1] {
			case '"', '\'', '\\':
				sb.WriteByte(s[i+1])
				i++
				continue
			case 't':
				sb.WriteByte('\t')
				i++
				continue
			case 'r':
				sb.WriteByte('\r')
				i++
				continue
			case 'n':
				sb.WriteByte('\n')
				i++
				continue
			}
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

// sameArg tells whether two token values are the same argument: textually up to the spelling of control
// characters, or, where both kinds of quotes occur escaped, as NGINX reads them.
func sameArg(a, b string) bool {
	if a == b || normArg(a) == normArg(b) {
		return true
	}
	if bothEscaped(a) || bothEscaped(b) {
		return nginxValue(normArg(a)) == nginxValue(normArg(b))
	}
	return false
}

func bothEscaped(s string) bool { return strings.Contains(s, `\"`) && strings.Contains(s, `\'`) }

func hasUnicodeSpace(s string) bool {
	for _, r := range s {
		if r > 127 && unicode.IsSpace(r) {
			return true
		}
	}
	return false
}
