package main

import (
	"runtime"
	"sort"
	"time"

	"pgregory.net/rapid"
)

var sourceNames = func() []string {
	var out []string
	for n := range builtin {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}()

var ignorable = []string{"server", "user", "include", "location", "events", "http", "listen", "x_foo", "x_bar", "if", "map", "a", "b", "#", "default", "return", "types"}

// genOpts draws any combination of parse options.
func genOpts(t *rapid.T) Opts {
	o := Opts{
		Comments: chance(t, 50), Single: chance(t, 30), Combine: chance(t, 30), Stop: chance(t, 25), ErrUnknown: chance(t, 25),
		SkipCtx: chance(t, 25), SkipArgs: chance(t, 25), Lua: chance(t, 25),
	}
	if chance(t, 30) {
		for n := intn(t, 1, 3); n > 0; n-- {
			o.Ignore = append(o.Ignore, oneOf(t, ignorable))
		}
	}
	if chance(t, 30) {
		for n := intn(t, 1, 3); n > 0; n-- {
			o.Sources = append(o.Sources, oneOf(t, sourceNames))
		}
	}
	if chance(t, 20) {
		tab := map[string][]uint{}
		for n := intn(t, 0, 4); n > 0; n-- {
			var ms []uint
			for k := intn(t, 1, 3); k > 0; k-- {
				ms = append(ms, genMask(t))
			}
			tab[oneOf(t, ignorable)] = ms
		}
		o.Tables = append(o.Tables, tab)
	}
	return o
}

// genMask draws a definition: argument styles and contexts.
func genMask(t *rapid.T) uint {
	var m uint
	for n := intn(t, 0, 2); n > 0; n-- {
		m |= 1 << uint(intn(t, 0, 7))
	}
	for i, bit := range []uint{bitBlock, bitExpr, bitFlag, bitAny, bit1More, bit2More} {
		if chance(t, []int{30, 10, 20, 10, 12, 12}[i]) {
			m |= bit
		}
	}
	for n := intn(t, 0, 4); n > 0; n-- {
		m |= 1 << uint(intn(t, 17, 32))
	}
	if chance(t, 15) {
		m |= 0x1ffff0000
	}
	if m == 0 {
		m = 1<<18 | 2
	}
	return m
}

// settle waits until no more goroutines run than before; it returns how many are left over.
func settle(before int) int {
	for i := 0; ; i++ {
		n := runtime.NumGoroutine()
		if n <= before {
			return 0
		}
		switch {
		case i < 50:
			runtime.Gosched()
		case i < 600:
			time.Sleep(5 * time.Millisecond)
		default:
			return n - before
		}
	}
}
