package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

// docDirs gives the JSON document of a tree, written down from the documentation of the format.
func docDirs(ds cp.Directives) interface{} {
	if ds == nil {
		return nil
	}
	out := []interface{}{}
	for _, d := range ds {
		m := map[string]interface{}{"directive": d.Directive, "line": num(d.Line), "args": strs(d.Args)}
		if d.File != "" {
			m["file"] = d.File
		}
		if len(d.Includes) > 0 {
			var is []interface{}
			for _, i := range d.Includes {
				is = append(is, num(i))
			}
			m["includes"] = is
		}
		if d.Block != nil {
			m["block"] = docDirs(d.Block)
		}
		if d.Comment != nil {
			m["comment"] = *d.Comment
		}
		if d.IsMapBlockParameter {
			m["mapBlockParameter"] = true
		}
		out = append(out, m)
	}
	return out
}

func num(i int) interface{} { return json.Number(fmt.Sprint(i)) }

func numPtr(i *int) interface{} {
	if i == nil {
		return nil
	}
	return num(*i)
}

func strs(ss []string) interface{} {
	if ss == nil {
		return nil
	}
	out := []interface{}{}
	for _, s := range ss {
		out = append(out, s)
	}
	return out
}

// message is the message of an error together with its place.
func message(e error) string {
	pe := asParseError(e)
	if pe == nil {
		return e.Error()
	}
	s := pe.What + " in "
	if pe.File == nil {
		s += "(nofile)"
	} else {
		s += *pe.File
	}
	if pe.Line != nil {
		s += ":" + fmt.Sprint(*pe.Line)
	}
	return s
}

// jsonError is an error as a program makes it.
type jsonError struct {
	What      string
	File      *string
	Line      *int
	Stmt, Ctx string
	Of        string // the file that the payload lists it for
	Callback  string
}

func runErrorJSON(c []jsonError, o *Obs) error {
	p := &cp.Payload{Status: "failed", Errors: []cp.PayloadError{}, Config: []cp.Config{{File: "a", Status: "failed", Errors: []cp.ConfigError{}, Parsed: cp.Directives{}}}}
	for _, e := range c {
		pe := &cp.ParseError{What: e.What, File: e.File, Line: e.Line, Statement: e.Stmt, BlockCtx: e.Ctx}
		if got := pe.Error(); got != message(pe) {
			return fmt.Errorf("the error prints as %q, want %q", got, message(pe))
		}
		x := cp.PayloadError{File: e.Of, Line: e.Line, Error: pe}
		if e.Callback != "" {
			x.Callback = e.Callback
		}
		p.Errors = append(p.Errors, x)
		p.Config[0].Errors = append(p.Config[0].Errors, cp.ConfigError{Line: e.Line, Error: pe})
		o.LabelIf(e.File == nil, "no file")
		o.LabelIf(e.Line == nil, "no line")
	}
	b, err := json.Marshal(p)
	if err != nil {
		return err
	}
	doc, err := decodeDoc(b)
	if err != nil {
		return err
	}
	o.NonTrivial(len(c) > 0)
	return diffDoc("", doc, docPayload(p))
}

func docConfig(c cp.Config) interface{} {
	es := []interface{}{}
	for _, e := range c.Errors {
		es = append(es, map[string]interface{}{"line": numPtr(e.Line), "error": message(e.Error)})
	}
	return map[string]interface{}{"file": c.File, "status": c.Status, "errors": es, "parsed": docDirs(c.Parsed)}
}

func docPayload(p *cp.Payload) interface{} {
	es, cs := []interface{}{}, []interface{}{}
	for _, e := range p.Errors {
		m := map[string]interface{}{"file": e.File, "line": numPtr(e.Line), "error": message(e.Error)}
		if e.Callback != nil {
			m["callback"] = e.Callback
		}
		es = append(es, m)
	}
	for _, c := range p.Config {
		cs = append(cs, docConfig(c))
	}
	return map[string]interface{}{"status": p.Status, "errors": es, "config": cs}
}

func decodeDoc(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	err := d.Decode(&v)
	return v, err
}

// diffDoc returns the first difference between two JSON documents.
func diffDoc(at string, g, w interface{}) error {
	switch w := w.(type) {
	case map[string]interface{}:
		gm, ok := g.(map[string]interface{})
		if !ok {
			return fmt.Errorf("at %q: %v, want an object", at, g)
		}
		for _, k := range sortedKeys(w) {
			v, ok := gm[k]
			if !ok {
				return fmt.Errorf("at %q: no key %q", at, k)
			}
			if err := diffDoc(at+"/"+k, v, w[k]); err != nil {
				return err
			}
		}
		for _, k := range sortedKeys(gm) {
			if _, ok := w[k]; !ok {
				return fmt.Errorf("at %q: key %q with value %v", at, k, gm[k])
			}
		}
		return nil
	case []interface{}:
		ga, ok := g.([]interface{})
		if !ok || len(ga) != len(w) {
			return fmt.Errorf("at %q: %v, want %d values", at, clip(fmt.Sprint(g), 300), len(w))
		}
		for i := range w {
			if err := diffDoc(fmt.Sprintf("%s/%d", at, i), ga[i], w[i]); err != nil {
				return err
			}
		}
		return nil
	}
	if !reflect.DeepEqual(g, w) {
		return fmt.Errorf("at %q: %#v, want %#v", at, g, w)
	}
	return nil
}

// encodings gives the ways in which a program encodes a value.
func encodings(v interface{}) ([][]byte, error) {
	a, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}
	b, err := json.MarshalIndent(v, "", "  ")
	if err != nil {
		return nil, err
	}
	var buf bytes.Buffer
	e := json.NewEncoder(&buf)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		return nil, err
	}
	return [][]byte{a, b, buf.Bytes()}, nil
}

// checkJSON checks the encoding of a payload, and, if it has no errors, that it can be decoded.
func checkJSON(p *cp.Payload, f Fmt) error {
	keep := copyPayload(p)
	all, err := encodings(p)
	if err != nil {
		return fmt.Errorf("encode: %w", err)
	}
	byValue, err := json.Marshal(*p)
	if err != nil {
		return fmt.Errorf("encode: %w", err)
	}
	all = append(all, byValue)
	want := docPayload(p)
	for i, b := range all {
		doc, err := decodeDoc(b)
		if err != nil {
			return fmt.Errorf("encoding %d: %w", i, err)
		}
		if err := diffDoc("", doc, want); err != nil {
			return fmt.Errorf("encoding %d: %w", i, err)
		}
		if len(p.Errors) > 0 {
			continue
		}
		if err := checkDecode(b, p, f); err != nil {
			return fmt.Errorf("encoding %d: %w", i, err)
		}
	}
	for i, c := range p.Config {
		b, err := json.Marshal(c)
		if err != nil {
			return err
		}
		doc, err := decodeDoc(b)
		if err != nil {
			return err
		}
		if err := diffDoc("", doc, docConfig(c)); err != nil {
			return fmt.Errorf("configuration %d: %w", i, err)
		}
	}
	if err := samePayload(p, keep); err != nil {
		return fmt.Errorf("encoding changed the payload: %w", err)
	}
	return nil
}

// checkDecode checks that a document decodes to a payload.
func checkDecode(b []byte, p *cp.Payload, f Fmt) error {
	var q cp.Payload
	if err := json.Unmarshal(b, &q); err != nil {
		return fmt.Errorf("decode: %w", err)
	}
	if err := samePayload(&q, p); err != nil {
		return fmt.Errorf("decoded: %w", err)
	}
	for i := range p.Config {
		for j, d := range p.Config[i].Parsed {
			if !d.Equal(q.Config[i].Parsed[j]) {
				return fmt.Errorf("configuration %d: directive %d is not equal to the decoded one", i, j)
			}
		}
		t1, err1 := buildText(p.Config[i], f.options())
		t2, err2 := buildText(q.Config[i], f.options())
		if err1 != nil || err2 != nil || t1 != t2 {
			return fmt.Errorf("configuration %d: built %q %v, from JSON %q %v", i, clip(t1, 1000), err1, clip(t2, 1000), err2)
		}
	}
	return nil
}

type jsonFiles struct {
	C  filesCase
	F  Fmt
	CB int // what the error callback returns
}

type jsonMade struct {
	M    Made
	F    Fmt
	Text string // the payload as a JSON text, with keys in any order and escapes of any kind
}

// jsonText spells a document.
func jsonText(t *rapid.T, v interface{}, sb *strings.Builder) {
	ws := func() {
		if chance(t, 10) {
			sb.WriteString(oneOf(t, []string{" ", "\n", "\t", "\r\n "}))
		}
	}
	ws()
	defer ws()
	switch v := v.(type) {
	case map[string]interface{}:
		keys := sortedKeys(v)
		if len(keys) > 1 && chance(t, 50) {
			k := intn(t, 0, len(keys)-1)
			keys[0], keys[k] = keys[k], keys[0]
		}
		sb.WriteString("{")
		for i, k := range keys {
			if i > 0 {
				sb.WriteString(",")
			}
			jsonText(t, k, sb)
			sb.WriteString(":")
			jsonText(t, v[k], sb)
		}
		sb.WriteString("}")
	case []interface{}:
		sb.WriteString("[")
		for i := range v {
			if i > 0 {
				sb.WriteString(",")
			}
			jsonText(t, v[i], sb)
		}
		sb.WriteString("]")
	case string:
		mode := pick(t, 60, 20, 20)
		sb.WriteByte('"')
		for _, r := range v {
			switch {
			case r == '"' || r == '\\':
				sb.WriteString("\\" + string(r))
			case r < 0x20 || mode == 1 && r < 0x10000 || mode == 2 && (r == '<' || r > 0x7f && r < 0x10000):
				fmt.Fprintf(sb, "\\u%04x", r)
			default:
				sb.WriteRune(r)
			}
		}
		sb.WriteByte('"')
	case json.Number:
		sb.WriteString(v.String())
	case bool:
		fmt.Fprint(sb, v)
	case nil:
		sb.WriteString("null")
	default:
		panic(infraError{fmt.Errorf("%T", v)})
	}
}

func genJSONMade(t *rapid.T) jsonMade {
	c := jsonMade{F: genFmt(t)}
	if chance(t, 30) {
		c.M = genMade(t)
		c.M.Bad = nil
	} else {
		for n := intn(t, 1, 3); n > 0; n-- {
			c.M.Trees = append(c.M.Trees, genDNs(t))
		}
	}
	var mark func(ns []DN)
	mark = func(ns []DN) {
		for i := range ns {
			if chance(t, 10) {
				ns[i].F = hostile(t)
			}
			if chance(t, 10) {
				ns[i].I = append(ns[i].I, intn(t, 0, 20))
			}
			if chance(t, 5) {
				ns[i].L = intn(t, 0, 1<<40)
			}
			if ns[i].D > 12 {
				ns[i].D = 12
			}
			mark(ns[i].B)
		}
	}
	for i := range c.M.Trees {
		mark(c.M.Trees[i])
	}
	p := c.M.payload()
	var sb strings.Builder
	jsonText(t, docPayload(p), &sb)
	c.Text = sb.String()
	return c
}

func labelJSON(p *cp.Payload, o *Obs) bool {
	n, special := 0, false
	for _, c := range p.Config {
		walkDirs(c.Parsed, 0, func(d *cp.Directive, depth int) {
			n++
			o.LabelIf(d.Block != nil && len(d.Block) == 0, "empty block")
			o.LabelIf(d.Comment != nil, "comment")
			o.LabelIf(len(d.Includes) > 0, "include indices")
			o.LabelIf(d.IsMapBlockParameter, "map entry")
			o.LabelIf(d.File != "", "file")
			o.LabelIf(depth > 10, "depth>10")
			special = special || d.Block != nil || d.Comment != nil || len(d.Includes) > 0
			for _, a := range d.Args {
				o.LabelIf(a == "", "empty argument")
				o.LabelIf(strings.ContainsAny(a, "<>&\u2028\u2029"), "argument with characters JSON may escape")
				o.LabelIf(utf8.RuneCountInString(a) != len(a), "argument beyond ASCII")
			}
		})
	}
	return n > 1 && special
}

func init() {
	Register(Check{Prop: "C13", Name: "parsed", Quick: 24000,
		Rule: "files parsed with any options, encoded in three ways, compared with the document written down from the format, decoded, built; non-trivial: at least 2 directives and a block, comment or include"},
		func(t *rapid.T) jsonFiles {
			c := jsonFiles{F: genFmt(t), CB: intn(t, 0, 3)}
			c.C = filesCase{Files: genFiles(t, false), O: includeOpts(t)}
			switch pick(t, 40, 40, 20) {
			case 1:
				g := &treeGen{comments: chance(t, 60), known: chance(t, 70)}
				c.C.Files["nginx.conf"] = genConf(t, g, nil).render().text
			case 2:
				c.C.Files["nginx.conf"] = brokenText(t, c.C.O)
			}
			c.C.O.Comments = chance(t, 70)
			c.C.O.Combine = chance(t, 30)
			return c
		},
		func(c jsonFiles, o *Obs) error {
			fs := c.C.fs()
			if c.C.O.Combine {
				plain := c.C.O
				plain.Combine = false
				if p, err := parseFiles(fs, plain); err == nil {
					if _, err := refCombine(configsOf(p, false)); err != nil {
						o.Label(errTooLarge)
						return nil
					}
				}
			}
			po := c.C.O.parseOptions(fs)
			switch c.CB {
			case 1:
				po.ErrorCallback = func(e error) interface{} { return "got: " + e.Error() }
			case 2:
				po.ErrorCallback = func(e error) interface{} { return true }
			case 3:
				po.ErrorCallback = func(e error) interface{} { return nil }
			}
			p, err := cp.Parse(mainFile, po)
			if err != nil {
				o.Label("error")
				return nil
			}
			for i := range p.Config {
				c.F = c.F.limit(p.Config[i].Parsed)
			}
			if err := checkJSON(p, c.F); err != nil {
				return fmt.Errorf("files %q: %w", c.C.Files, err)
			}
			o.LabelIf(len(p.Errors) > 0, "with errors")
			o.LabelIf(len(p.Config) > 1, "several files")
			o.NonTrivial(labelJSON(p, o))
			return nil
		})

	Register(Check{Prop: "C13", Name: "made", Quick: 24000,
		Rule: "payloads with any strings, encoded and decoded; and JSON texts with keys and escapes in any form, decoded; non-trivial as for parsed"},
		genJSONMade,
		func(c jsonMade, o *Obs) error {
			p := c.M.payload()
			for i := range p.Config {
				c.F = c.F.limit(p.Config[i].Parsed)
			}
			if err := checkJSON(p, c.F); err != nil {
				return err
			}
			if err := checkDecode([]byte(c.Text), p, c.F); err != nil {
				return fmt.Errorf("text %q: %w", clip(c.Text, 2000), err)
			}
			o.NonTrivial(labelJSON(p, o))
			return nil
		})
	Register(Check{Prop: "C13", Name: "errors", Quick: 8000,
		Rule: "payloads with errors with and without file and line, encoded and compared with the document; non-trivial: an error"},
		func(t *rapid.T) []jsonError {
			var c []jsonError
			for n := intn(t, 0, 3); n > 0; n-- {
				e := jsonError{What: hostile(t), Stmt: hostile(t), Ctx: hostile(t), Of: hostile(t)}
				if chance(t, 70) {
					s := hostile(t)
					e.File = &s
				}
				if chance(t, 70) {
					k := intn(t, 0, 2000)
					e.Line = &k
				}
				if chance(t, 30) {
					e.Callback = hostile(t)
				}
				c = append(c, e)
			}
			return c
		}, runErrorJSON)
}
