package main

import (
	"fmt"
	"strings"

	cp "github.com/nginxinc/nginx-go-crossplane"
	"pgregory.net/rapid"
)

// graphCase is an include graph: Edges[i] lists what file i includes, in order.
type graphCase struct {
	Edges [][]gEdge
	O     Opts
}

// gEdge is an include statement: a file, or a pattern that matches a group of files.
type gEdge struct {
	To    int    // file
	Group int    `json:",omitempty"` // if not 0: all files of this group
	In    string `json:",omitempty"` // blocks around the include
}

// mainGroup is the group of the files whose names are like that of the main file.
const mainGroup = 4

// groupOf puts file i in one of four groups.
func groupOf(i int) int { return i % 4 }

func gName(i int) string {
	if i == 0 {
		return mainFile
	}
	if groupOf(i) == 0 {
		return fmt.Sprintf("/etc/nginx/nginx.%d", i)
	}
	return fmt.Sprintf("/etc/nginx/g%d/f%d", groupOf(i), i)
}

func (c graphCase) fs() (FS, map[string][]string) {
	fs := FS{}
	edges := map[string][]string{}
	for i, es := range c.Edges {
		var sb strings.Builder
		for _, e := range es {
			what := gName(e.To)
			var to []string
			if e.Group != 0 {
				what = fmt.Sprintf("g%d/*", e.Group)
				if e.Group == mainGroup {
					what = "nginx.*"
				}
				for j := range c.Edges {
					if groupOf(j) == e.Group%mainGroup {
						to = append(to, gName(j))
					}
				}
			} else {
				to = []string{what}
			}
			edges[gName(i)] = append(edges[gName(i)], to...)
			open := ""
			for _, b := range strings.Fields(e.In) {
				open += b + " { "
			}
			sb.WriteString(open + "include " + what + ";" + strings.Repeat(" }", strings.Count(open, "{")) + "\n")
		}
		fmt.Fprintf(&sb, "x_own %d;\n", i)
		fs[gName(i)] = sb.String()
	}
	// only what is reached from the main file counts
	reach := map[string]bool{}
	todo := []string{mainFile}
	for len(todo) > 0 {
		n := todo[0]
		todo = todo[1:]
		if reach[n] {
			continue
		}
		reach[n] = true
		todo = append(todo, edges[n]...)
	}
	for n := range edges {
		if !reach[n] {
			delete(edges, n)
		}
	}
	return fs, edges
}

func genGraph(t *rapid.T) graphCase {
	n := intn(t, 1, 8)
	if chance(t, 10) {
		n = intn(t, 9, 60)
	}
	c := graphCase{O: Opts{Comments: chance(t, 20), Single: chance(t, 5), Stop: chance(t, 20), ErrUnknown: chance(t, 20)}}
	if chance(t, 50) {
		c.O.SkipCtx, c.O.SkipArgs = true, true
	}
	c.O.ErrUnknown = c.O.ErrUnknown && !c.O.Stop
	if chance(t, 5) {
		c.O.Ignore = []string{oneOf(t, []string{"include", "x_own", "x"})}
	}
	for i := 0; i < n; i++ {
		c.Edges = append(c.Edges, []gEdge{})
	}
	edge := func(from, to int) {
		e := gEdge{To: to, In: oneOf(t, []string{"", "", "", "http", "x", "x y z w", "http server", "x location"})}
		if c.O.ErrUnknown {
			e.In = ""
		}
		if !c.O.SkipCtx && strings.Contains(e.In, "http") {
			e.In = "x location"
		}
		c.Edges[from] = append(c.Edges[from], e)
	}
	mode := pick(t, 50, 15, 20, 15)
	switch mode {
	case 0:
		// mostly forward edges, perhaps one that goes back
		for k := intn(t, 0, 2*n); k > 0; k-- {
			a, b := intn(t, 0, n-1), intn(t, 0, n-1)
			if a > b {
				a, b = b, a
			}
			if a != b {
				edge(a, b)
			}
		}
		if chance(t, 40) {
			a, b := intn(t, 0, n-1), intn(t, 0, n-1)
			if a < b {
				a, b = b, a
			}
			edge(a, b)
		}
	case 1:
		// one long chain, perhaps closed somewhere
		for i := 0; i+1 < n; i++ {
			edge(i, i+1)
			if chance(t, 20) {
				edge(i, i+1)
			}
		}
		if chance(t, 50) {
			edge(n-1, intn(t, 0, n-1))
		}
	case 2:
		for k := intn(t, 0, 3*n); k > 0; k-- {
			edge(intn(t, 0, n-1), intn(t, 0, n-1))
		}
	case 3:
		// every forward edge, perhaps several times
		if n > 12 {
			n = 12
		}
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				if chance(t, 70) {
					edge(i, j)
				}
			}
		}
		if chance(t, 30) {
			a, b := intn(t, 0, n-1), intn(t, 0, n-1)
			if a < b {
				a, b = b, a
			}
			edge(a, b)
		}
	}
	if chance(t, 25) {
		for k := intn(t, 1, 2); k > 0; k-- {
			i := intn(t, 0, n-1)
			c.Edges[i] = append(c.Edges[i], gEdge{Group: oneInt(t, []int{1, 2, 3, 1, 2, 3, mainGroup})})
		}
	}
	if len(c.Edges) <= 6 && mode != 3 {
		c.O.Combine = chance(t, 30)
	}
	// the order of the includes of a file does not matter
	for i := range c.Edges {
		if len(c.Edges[i]) > 1 && chance(t, 30) {
			c.Edges[i] = rapid.Permutation(c.Edges[i]).Draw(t, "order")
		}
	}
	return c
}

func init() {
	Register(Check{Prop: "C10", Name: "graphs", Quick: 200000,
		Rule: "include multigraphs of up to 60 files through names and patterns, from any blocks, against depth-first search; non-trivial: at least 3 files and 3 includes are reached"},
		genGraph, func(c graphCase, o *Obs) error {
			fs, edges := c.fs()
			want := hasCycle(edges) && !c.O.Single && !contains(c.O.Ignore, "include")
			if contains(c.O.Ignore, "x") {
				c.O.Ignore = nil
				o.Label("nothing ignored")
			}
			p, err := cp.Parse(mainFile, c.O.parseOptions(fs))
			got := err != nil && strings.Contains(err.Error(), "include cycle")
			if got != want {
				return fmt.Errorf("edges %v: error %v, include cycle expected: %v", edges, err, want)
			}
			if !want && err != nil {
				return fmt.Errorf("edges %v: error %w", edges, err)
			}
			if got && p != nil {
				return fmt.Errorf("edges %v: payload together with error %w", edges, err)
			}
			files, includes := map[string]bool{mainFile: true}, 0
			for _, to := range edges {
				includes += len(to)
				for _, f := range to {
					files[f] = true
				}
			}
			if !want && !c.O.Combine && !c.O.Single && len(c.O.Ignore) == 0 {
				if len(p.Config) != len(files) {
					return fmt.Errorf("edges %v: configurations %v", edges, fileNames(p))
				}
			}
			self := false
			for f, to := range edges {
				self = self || contains(to, f)
			}
			o.LabelIf(want, "cycle")
			o.LabelIf(self, "file that includes itself")
			o.LabelIf(want && !self && includes >= 4, "longer cycle")
			o.LabelIf(!want && includes > len(files), "acyclic with shared files")
			o.LabelIf(len(files) > 20, "more than 20 files")
			o.NonTrivial(len(files) >= 3 && includes >= 3)
			return nil
		})
}
