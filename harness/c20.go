package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Settings are those of the generate command, in a file or as flags; what is nil is not given.
type Settings struct {
	Map      *string               `json:"directiveMapName,omitempty"`
	Fn       *string               `json:"matchFuncName,omitempty"`
	Comment  *string               `json:"matchFuncComment,omitempty"`
	Filter   []string              `json:"filter,omitempty"`
	Override map[string][][]string `json:"override,omitempty"`
}

type cliCase struct {
	Files     []CFile
	Src       string // "dir", "file", "none": not given, "missing": not there
	Cfg       *Settings
	CfgRaw    string   `json:",omitempty"` // content of the config file if it is not made from Cfg
	CfgGone   bool     `json:",omitempty"` // the config file is not there
	Flags     Settings // overrides are in Overrides
	Overrides []string // values of the override flags
	Style     []int    // spelling and order of the flags
	Blanks    []string // blanks used when overrides are turned into flags
}

// refOverride reads an override flag.
func refOverride(s string) (name string, defs [][]string, ok bool) {
	i := strings.IndexByte(s, ':')
	if i < 0 {
		return "", nil, false
	}
	if name = strings.TrimSpace(s[:i]); name == "" {
		return "", nil, false
	}
	for _, def := range strings.Split(s[i+1:], ",") {
		var bits []string
		for _, b := range strings.Split(def, "|") {
			if b = strings.TrimSpace(b); b == "" {
				return "", nil, false
			}
			bits = append(bits, b)
		}
		defs = append(defs, bits)
	}
	return name, defs, true
}

// flagArgs spells settings as flags.
func flagArgs(s Settings, overrides []string, style []int) []string {
	var groups [][]string
	add := func(name, v string) {
		k := 0
		if len(style) > 0 {
			k = style[len(groups)%len(style)]
		}
		switch k % 4 {
		case 0:
			groups = append(groups, []string{"-" + name, v})
		case 1:
			groups = append(groups, []string{"-" + name + "=" + v})
		case 2:
			groups = append(groups, []string{"--" + name, v})
		default:
			groups = append(groups, []string{"--" + name + "=" + v})
		}
	}
	if s.Map != nil {
		add("directive-map-name", *s.Map)
	}
	if s.Fn != nil {
		add("match-func-name", *s.Fn)
	}
	if s.Comment != nil {
		add("match-func-comment", *s.Comment)
	}
	for _, f := range s.Filter {
		add("filter", f)
	}
	for _, o := range overrides {
		add("override", o)
	}
	for i := range groups {
		if len(style) > 0 {
			j := style[i%len(style)] / 4 % len(groups)
			groups[i], groups[j] = groups[j], groups[i]
		}
	}
	var out []string
	for _, g := range groups {
		out = append(out, g...)
	}
	return out
}

func runCLI(args []string) (stdout string, code int, stderr string, err error) {
	bin := os.Getenv("VERIF_GENERATE")
	if bin == "" {
		return "", 0, "", infraError{errors.New("no generate binary")}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	e := cmd.Run()
	var ee *exec.ExitError
	switch {
	case e == nil:
	case errors.As(e, &ee):
		code = ee.ExitCode()
	default:
		return "", 0, "", infraError{e}
	}
	return so.String(), code, se.String(), nil
}

func runCLICase(c cliCase, o *Obs) error {
	root := scratchDir()
	defer os.RemoveAll(root)
	tree := filepath.Join(root, "src")
	if err := writeTree(tree, c.Files); err != nil {
		return infraError{err}
	}
	write := func(name string, b []byte) string {
		p := filepath.Join(root, name)
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(infraError{err})
		}
		return p
	}
	asJSON := func(s Settings) []byte {
		b, err := json.Marshal(s)
		if err != nil {
			panic(infraError{err})
		}
		return b
	}
	// the outcome there should be
	fails := ""
	eff := Settings{}
	if c.Cfg != nil {
		eff = *c.Cfg
	}
	if c.CfgRaw != "" {
		fails = "malformed config file"
	}
	if c.CfgGone {
		fails = "no config file"
	}
	flagOv := map[string][][]string{}
	for _, ov := range c.Overrides {
		n, ds, ok := refOverride(ov)
		if !ok {
			fails = "malformed override"
			break
		}
		flagOv[n] = ds
	}
	if c.Flags.Map != nil {
		eff.Map = c.Flags.Map
	}
	if c.Flags.Fn != nil {
		eff.Fn = c.Flags.Fn
	}
	if c.Flags.Comment != nil {
		eff.Comment = c.Flags.Comment
	}
	if c.Flags.Filter != nil {
		eff.Filter = c.Flags.Filter
	}
	if len(c.Overrides) > 0 {
		eff.Override = flagOv
	}
	var srcArgs []string
	gc := genCase{Files: c.Files, Filter: eff.Filter, Override: eff.Override}
	switch c.Src {
	case "dir":
		srcArgs = []string{"-src-path", tree}
	case "file":
		srcArgs = []string{"--src-path=" + filepath.Join(tree, c.Files[0].Path)}
		gc.Single = true
	case "missing":
		srcArgs = []string{"-src-path", filepath.Join(tree, "nowhere")}
	}
	want, wantErr := gc.expected()
	switch {
	case fails != "":
	case c.Src == "none", eff.Map == nil || *eff.Map == "", eff.Fn == nil || *eff.Fn == "":
		fails = "missing setting"
	case c.Src == "missing":
		fails = "no source"
	case wantErr != nil:
		fails = wantErr.Error()
	}
	var cfgArgs []string
	if c.Cfg != nil || c.CfgRaw != "" || c.CfgGone {
		b := []byte(c.CfgRaw)
		if c.CfgRaw == "" && c.Cfg != nil {
			b = asJSON(*c.Cfg)
		}
		p := filepath.Join(root, "gone.json")
		if !c.CfgGone {
			p = write("cfg.json", b)
		}
		cfgArgs = []string{"-config-path", p}
	}
	args := append(append(append([]string{}, srcArgs...), cfgArgs...), flagArgs(c.Flags, c.Overrides, c.Style)...)
	if len(c.Style) > 0 && c.Style[0]%2 == 1 {
		args = append(append(flagArgs(c.Flags, c.Overrides, c.Style), srcArgs...), cfgArgs...)
	}
	out, code, stderr, err := runCLI(args)
	if err != nil {
		return err
	}
	if fails != "" {
		o.Label("fails: " + fails)
		if code == 0 {
			return fmt.Errorf("%q succeeds: %s", args, fails)
		}
		if out != "" {
			return fmt.Errorf("%q fails (%s) with output: %q", args, fails, clip(out, 500))
		}
		o.NonTrivial(fails == "malformed override")
		return nil
	}
	if code != 0 {
		return fmt.Errorf("%q exits with %d: %s", args, code, clip(stderr, 500))
	}
	comment := ""
	if eff.Comment != nil {
		comment = *eff.Comment
	}
	if err := judgeSupport([]byte(out), want, *eff.Map, *eff.Fn, comment); err != nil {
		return fmt.Errorf("%q with config %s: %w", args, asJSON(*orEmpty(c.Cfg)), err)
	}
	// the same settings, all in a file
	p := write("all.json", asJSON(eff))
	out2, code, stderr, err := runCLI(append(append([]string{}, srcArgs...), "-config-path", p))
	if err != nil {
		return err
	}
	if code != 0 || out2 != out {
		return fmt.Errorf("%q gives another result than the same settings in a config file %s: exit %d %s\n%s\n%s", args, asJSON(eff), code, clip(stderr, 300), clip(out, 1500), clip(out2, 1500))
	}
	// the same settings, all as flags, unless an override gives no definitions: flags cannot say that
	var ovs []string
	flagged := true
	k := 0
	blank := func() string {
		if len(c.Blanks) == 0 {
			return ""
		}
		k++
		return c.Blanks[k%len(c.Blanks)]
	}
	for _, n := range sortedKeys(eff.Override) {
		flagged = flagged && len(eff.Override[n]) > 0
		s := blank() + n + blank() + ":"
		for i, def := range eff.Override[n] {
			if i > 0 {
				s += ","
			}
			for j, b := range def {
				if j > 0 {
					s += "|"
				}
				s += blank() + b + blank()
			}
		}
		ovs = append(ovs, s)
	}
	if flagged {
		args3 := append(flagArgs(eff, ovs, c.Style), srcArgs...)
		out3, code, stderr, err := runCLI(args3)
		if err != nil {
			return err
		}
		if code != 0 || out3 != out {
			return fmt.Errorf("%q gives another result than %q: exit %d %s\n%s\n%s", args, args3, code, clip(stderr, 300), clip(out, 1500), clip(out3, 1500))
		}
	}
	both := 0
	if c.Cfg != nil {
		for _, b := range []bool{
			c.Cfg.Map != nil && c.Flags.Map != nil, c.Cfg.Fn != nil && c.Flags.Fn != nil, c.Cfg.Comment != nil && c.Flags.Comment != nil,
			c.Cfg.Filter != nil && c.Flags.Filter != nil, c.Cfg.Override != nil && len(c.Overrides) > 0,
		} {
			if b {
				both++
			}
		}
	}
	o.LabelIf(both > 0, "flag over config file")
	o.LabelIf(len(c.Overrides) > 1, "several overrides")
	o.LabelIf(len(c.Flags.Filter) > 1, "several filters")
	o.LabelIf(c.Cfg != nil && both == 0, "flags beside config file")
	o.NonTrivial(len(want) > 0 && (len(eff.Filter) > 0 || len(eff.Override) > 0 || both > 0))
	return nil
}

func orEmpty(s *Settings) *Settings {
	if s == nil {
		return &Settings{}
	}
	return s
}

func init() {
	Register(Check{Prop: "C20", Name: "flags", Quick: 10000,
		Rule: "runs of the generate command with settings in flags, in a config file or both, well formed or not, against a reference and against the same settings given only as flags and only in a file; non-trivial: a filter, an override or a flag over the config file is in effect, or a malformed override is refused"},
		func(t *rapid.T) cliCase {
			bad := 0
			if chance(t, 4) {
				bad = 30
			}
			c := cliCase{Files: genTree(t, bad), Src: []string{"dir", "file", "none", "missing"}[pick(t, 88, 8, 2, 2)]}
			var names []string
			for _, f := range c.Files {
				for _, p := range f.Parts {
					for _, e := range p.Entries {
						names = append(names, e.Name)
					}
				}
			}
			if len(names) == 0 {
				c.Files[0].Path = "first0.c"
				c.Files[0].Parts = append(c.Files[0].Parts, CPart{Table: "cmds", Entries: []CEntry{{Name: "a", Bits: []string{"NGX_MAIN_CONF", "NGX_CONF_FLAG"}, Rest: ", f, 0, 0, NULL"}, {Name: "b", Bits: []string{"NGX_CONF_ANY"}, Rest: ", f, 0, 0, NULL"}}})
				names = append(names, "a", "b")
			}
			names = append(names, "zzz")
			settings := func(odds int) Settings {
				var s Settings
				str := func(vs ...string) *string {
					v := oneOf(t, vs)
					return &v
				}
				if chance(t, odds) {
					s.Map = str("m1", "m2", "xDirectives")
				}
				if chance(t, odds) {
					s.Fn = str("MatchA", "MatchB")
				}
				if chance(t, odds/2) {
					s.Comment = str(goComments...)
				}
				if chance(t, odds/2) {
					for n := intn(t, 1, 4); n > 0; n-- {
						n := oneOf(t, names)
						if chance(t, 15) {
							// not the name of a directive
							n = oneOf(t, []string{n + "," + oneOf(t, names), " " + n, n + " ", n + ":", strings.ToUpper(n), n + "|" + n, "-" + n, n + "\n", n + "*", "", "."})
						}
						s.Filter = append(s.Filter, n)
					}
				}
				return s
			}
			if chance(t, 65) {
				s := settings(75)
				if chance(t, 45) {
					s.Override = someEmpty(t, genOverride(t, names))
				}
				c.Cfg = &s
			}
			c.Flags = settings(55)
			if c.Cfg == nil || c.Cfg.Map == nil || chance(t, 10) {
				if c.Flags.Map == nil && !chance(t, 5) {
					c.Flags.Map = ptr("m3")
				}
			}
			if c.Cfg == nil || c.Cfg.Fn == nil {
				if c.Flags.Fn == nil && !chance(t, 5) {
					c.Flags.Fn = ptr("MatchC")
				}
			}
			blanks := []string{"", "", " ", "  ", "\t", "\n"}
			if chance(t, 45) {
				ov := genOverride(t, names)
				ns := sortedKeys(ov)
				sort.Slice(ns, func(i, j int) bool { return len(ns[i]) > len(ns[j]) })
				for _, n := range ns {
					s := oneOf(t, blanks) + n + oneOf(t, blanks) + ":"
					for i, def := range ov[n] {
						if i > 0 {
							s += ","
						}
						for j, b := range def {
							if j > 0 {
								s += "|"
							}
							s += oneOf(t, blanks) + b + oneOf(t, blanks)
						}
					}
					c.Overrides = append(c.Overrides, s)
				}
				if chance(t, 15) {
					i := intn(t, 0, len(c.Overrides)-1)
					s := c.Overrides[i]
					switch intn(t, 0, 7) {
					case 0:
						s = strings.ReplaceAll(s, ":", "")
					case 1:
						s += "|"
					case 2:
						s += ","
					case 3:
						s = strings.Replace(s, "|", "||", 1)
					case 4:
						s = strings.Replace(s, ",", ", ,", 1)
					case 5:
						s = s[:strings.IndexByte(s, ':')+1] + oneOf(t, blanks)
					case 6:
						s = oneOf(t, blanks) + s[strings.IndexByte(s, ':'):]
					default:
						s = strings.Replace(s, ":", ":"+oneOf(t, []string{"|", ",", " | ", " , "}), 1)
					}
					c.Overrides[i] = s
				}
			}
			switch pick(t, 96, 2, 2) {
			case 1:
				c.CfgRaw = oneOf(t, []string{"{", "[]", "x", `{"filter": 1}`, `{"override": []}`, `{"filter": "a"}`, `{"override": {"a": ["b"]}}`, `{"directiveMapName": 3}`, `"x"`, " "})
			case 2:
				c.CfgGone = true
			}
			for n := intn(t, 0, 6); n > 0; n-- {
				c.Style = append(c.Style, intn(t, 0, 31))
			}
			for n := intn(t, 0, 5); n > 0; n-- {
				c.Blanks = append(c.Blanks, oneOf(t, blanks))
			}
			return c
		}, runCLICase)
}

func ptr[T any](v T) *T { return &v }
