// C08: flag lists behave as ordered maps; generated lists hold exactly the right globals.
package main

import (
	"fmt"
	"strings"

	"github.com/charlesetsmith/saratoga/sarflags"

	"verif/checks/h"
	"verif/mc"
)

type pair struct{ n, v string }

func parse(s string) (out []pair, ok bool) {
	if s == "" {
		return nil, true
	}
	for _, f := range strings.Split(s, ",") {
		nv := strings.Split(f, "=")
		if len(nv) != 2 {
			return nil, false
		}
		out = append(out, pair{nv[0], nv[1]})
	}
	return out, true
}

func eq(a, b []pair) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type kind struct {
	add, replace func(l, n, v string) string
	value        func(l, n string) string
	flags        []h.Field
	bad          []pair
}

var frameKind = kind{sarflags.AddFlag, sarflags.ReplaceFlag, sarflags.FlagValue, nil,
	[]pair{{"bogus", "yes"}, {"descriptor", "d8"}, {"", ""}, {"stream", ""}, {"property", "normalfile"}}}
var dirKind = kind{sarflags.AddFlagD, sarflags.ReplaceFlagD, sarflags.FlagValue, nil,
	[]pair{{"bogus", "yes"}, {"descriptor", "d8"}, {"", ""}, {"property", ""}, {"stream", "yes"}}}

func lists(k kind, fields []h.Field, depth int) func(*mc.Ctx) {
	// the alphabet: every field with its first and last value, and undefined pairs
	var ops []pair
	for _, f := range fields {
		ops = append(ops, pair{f.Name, f.Opts[0].Name})
		if len(f.Opts) > 1 {
			ops = append(ops, pair{f.Name, f.Opts[len(f.Opts)-1].Name})
		}
	}
	ndef := len(ops)
	ops = append(ops, k.bad...)
	return func(c *mc.Ctx) {
		var model []pair
		list := ""
		for d := 0; d < depth; d++ {
			i := c.Pick("flag", len(ops))
			rep := c.Bool("replace")
			p := ops[i]
			at := -1
			for j, m := range model {
				if m.n == p.n {
					at = j
				}
			}
			before := list
			what := "adding"
			if rep {
				what = "replacing"
				c.Must("replace", func() { list = k.replace(list, p.n, p.v) })
			} else {
				if at >= 0 && i < ndef {
					c.Skip() // adding twice is not offered
				}
				c.Must("add", func() { list = k.add(list, p.n, p.v) })
			}
			c.Op(1)
			if i < ndef {
				if at >= 0 {
					model = append([]pair(nil), model...)
					model[at].v = p.v
				} else {
					model = append(model, p)
				}
			}
			c.Logf("%s %s=%s: %q -> %q", what, p.n, p.v, before, list)
			got, ok := parse(list)
			if !ok || !eq(got, model) {
				c.Fail("list", "%s %s=%s in %q gives %q, want %v", what, p.n, p.v, before, list, model)
			}
			for _, l := range []string{list, strings.ReplaceAll(list, ",", " , ")} {
				for _, f := range append(fields, h.Field{Name: "bogus"}, h.Field{Name: "desc"}) {
					want := ""
					for _, m := range model {
						if m.n == f.Name {
							want = m.v
						}
					}
					var g string
					c.Must("value", func() { g = k.value(l, f.Name) })
					c.Op(1)
					if g != want {
						c.Fail("value", "the value of %s in %q is said to be %q, want %q", f.Name, l, g, want)
					}
				}
			}
		}
	}
}

var globals = []string{"csumtype", "freespace", "txwilling", "rxwilling", "stream", "reqtstamp", "reqstatus", "udplite", "descriptor"}

// every assignment of the global flags
func global(c *mc.Ctx) {
	g := map[string]string{}
	// shard on the first ones, loop over the rest
	n := map[string]int{}
	for _, f := range globals {
		n[f] = len(h.F(f).Opts) + 1
	}
	for i, f := range globals {
		if i >= 5 {
			break
		}
		if v := c.Pick(f, n[f]); v > 0 {
			g[f] = h.F(f).Opts[v-1].Name
		}
	}
	extra := c.Pick("extra", 3)
	if extra == 1 {
		g["bogus"] = "yes"
	}
	if extra == 2 {
		g["errcode"] = "badpacket"
		g["version"] = "v0"
	}
	var rec func(i int)
	rec = func(i int) {
		if i == len(globals) {
			one(c, g)
			return
		}
		f := globals[i]
		delete(g, f)
		rec(i + 1)
		for _, o := range h.F(f).Opts {
			g[f] = o.Name
			rec(i + 1)
		}
		delete(g, f)
	}
	rec(5)
}

// full has every global flag set.
var full *sarflags.Cliflags

func one(c *mc.Ctx, g map[string]string) {
	cf := &sarflags.Cliflags{Global: g}
	before := fmt.Sprint(g)
	if full == nil {
		full = &sarflags.Cliflags{Global: map[string]string{}}
		for _, f := range globals {
			o := h.F(f).Opts
			full.Global[f] = o[len(o)-1].Name
		}
	}
	for _, t := range []string{"beacon", "request", "metadata", "data", "status", "bogus", ""} {
		want := map[string]string{}
		for _, f := range h.For(t) {
			if v, ok := g[f.Name]; ok {
				want[f.Name] = v
			}
		}
		// the settings asked for last must not show in the answer
		sarflags.Setglobal(t, full)
		got := sarflags.Setglobal(t, cf)
		c.Op(2)
		ps, ok := parse(got)
		seen := map[string]bool{}
		for _, p := range ps {
			if seen[p.n] || want[p.n] != p.v {
				ok = false
			}
			seen[p.n] = true
		}
		if !ok || len(ps) != len(want) {
			c.Fail("global", "flags for %s frames from %v: %q, want %v", t, g, got, want)
		}
	}
	if fmt.Sprint(g) != before {
		c.Fail("global-changed", "making the flags changed the settings from %s to %v", before, g)
	}
}

// all sets of list members: every list of defined flags can be replaced in every position
func positions(c *mc.Ctx) {
	t := mc.Of(c, "type", []string{"beacon", "request", "metadata", "data", "status"})
	fs := h.For(t)
	set := c.Pick("set", 1<<len(fs))
	list := ""
	var model []pair
	for i, f := range fs {
		if set>>i&1 == 1 {
			o := f.Opts[i%len(f.Opts)]
			list = sarflags.AddFlag(list, f.Name, o.Name)
			model = append(model, pair{f.Name, o.Name})
			c.Op(1)
		}
	}
	if got, ok := parse(list); !ok || !eq(got, model) {
		c.Fail("list", "adding %v one by one gives %q", model, list)
	}
	for _, f := range fs {
		for _, o := range f.Opts {
			want := append([]pair(nil), model...)
			at := -1
			for j := range want {
				if want[j].n == f.Name {
					at = j
					want[j].v = o.Name
				}
			}
			if at < 0 {
				want = append(want, pair{f.Name, o.Name})
			}
			l := sarflags.ReplaceFlag(list, f.Name, o.Name)
			c.Op(1)
			if got, ok := parse(l); !ok || !eq(got, want) {
				c.Fail("list", "replacing %s=%s in %q gives %q, want %v", f.Name, o.Name, list, l, want)
			}
			if v := sarflags.FlagValue(l, f.Name); v != o.Name {
				c.Fail("value", "the value of %s in %q is said to be %q", f.Name, l, v)
			}
		}
	}
}

// all flags in one list, starting at any of them
func longest(c *mc.Ctx) {
	start := c.Pick("start", len(h.Frame))
	with := c.Pick("value", 3)
	replace := c.Bool("replace")
	list := ""
	var model []pair
	for i := range h.Frame {
		f := h.Frame[(start+i)%len(h.Frame)]
		v := f.Opts[(with+i)%len(f.Opts)].Name
		if replace {
			list = sarflags.ReplaceFlag(list, f.Name, v)
		} else {
			list = sarflags.AddFlag(list, f.Name, v)
		}
		model = append(model, pair{f.Name, v})
		c.Op(1)
		if got, ok := parse(list); !ok || !eq(got, model) {
			c.Fail("list", "adding %v one by one gives %q", model, list)
		}
		for _, p := range model {
			if got := sarflags.FlagValue(list, p.n); got != p.v {
				c.Fail("value", "the value of %s in %q is said to be %q", p.n, list, got)
			}
		}
	}
	for i := range model {
		f := h.F(model[i].n)
		for _, o := range f.Opts {
			model[i].v = o.Name
			list = sarflags.ReplaceFlag(list, f.Name, o.Name)
			c.Op(1)
			if got, ok := parse(list); !ok || !eq(got, model) {
				c.Fail("list", "replacing %s by %s gives %q, want %v", f.Name, o.Name, list, model)
			}
		}
	}
}

func main() {
	some := []h.Field{h.F("descriptor"), h.F("stream"), h.F("errcode"), h.F("csumtype")}
	mc.Main(&mc.Check{ID: "C08", Setup: h.Setup,
		Assume: []string{"lists are well formed name=value lists as made by these operations (values are looked up with blanks in them, too)", "adding is only used for flags that are not in the list"},
		Scenarios: []mc.Scenario{
			{Name: "lists", Bounds: "all sequences of 3 additions and replacements over 4 flags x 2 values and 5 undefined pairs", Run: lists(frameKind, some, 3), Quick: true},
			{Name: "dir-lists", Bounds: "all sequences of 3 operations on directory entry flag lists", Run: lists(dirKind, h.Dirent, 3), Quick: true},
			{Name: "lists-4", Bounds: "all sequences of 4 operations over 4 flags x 2 values and 5 undefined pairs", Run: lists(frameKind, some, 4), Thorough: true},
			{Name: "dir-lists-5", Bounds: "all sequences of 5 operations on directory entry flag lists", Run: lists(dirKind, h.Dirent, 5), Thorough: true},
			{Name: "positions", Bounds: "every subset of the flags of every frame type, every flag replaced by every value", Run: positions},
			{Name: "full", Bounds: "every flag of every frame in one list, begun at any of them, with 3 choices of values, added or replaced, then each replaced by every value", Run: longest},
			{Name: "globals", Bounds: "every assignment (or absence) of the 9 global flags, with and without flags that are not global, for 7 frame types, each after one with all of them set", Run: global, Shard: 3},
		}})
}
