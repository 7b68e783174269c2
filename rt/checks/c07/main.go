// C07: header flags obey the documented bit layout and algebra.
package main

import (
	"github.com/charlesetsmith/saratoga/sarflags"

	"verif/checks/h"
	"verif/mc"
)

// header words against which every field is exercised
func words(c *mc.Ctx) []uint32 {
	ws := []uint32{0, ^uint32(0), 0x55555555, 0xaaaaaaaa}
	for i := 0; i < 32; i++ {
		ws = append(ws, 1<<i, ^uint32(1<<i))
		for j := 0; j < i; j++ {
			ws = append(ws, 1<<i|1<<j, ^uint32(1<<i|1<<j))
		}
	}
	for _, f := range h.Frame {
		for v := uint32(0); v < 1<<f.Len; v++ {
			ws = append(ws, f.Put(32, 0, v), f.Put(32, ^uint32(0), v))
		}
	}
	for _, t := range []string{"beacon", "request", "metadata", "data", "status"} {
		for _, f := range h.For(t) {
			for _, o := range f.Opts {
				ws = append(ws, f.Put(32, h.Header(t), o.Val))
			}
		}
	}
	return ws
}

func frameWord(c *mc.Ctx, f h.Field, w uint32) {
	// reading
	v := f.Get(32, w)
	name := f.NameOf(v)
	c.Op(3)
	if g := sarflags.Get(w, f.Name); g != v {
		c.Fail("get", "header %08x: %s reads as %d, its bits say %d", w, f.Name, g, v)
	}
	if g := sarflags.GetStr(w, f.Name); g != name {
		c.Fail("getstr", "header %08x: %s reads as %q, its bits say %q", w, f.Name, g, name)
	}
	if g := sarflags.Name(w, f.Name); g != name {
		c.Fail("name", "header %08x: %s is named %q, its bits say %q", w, f.Name, g, name)
	}
	for _, o := range f.Opts {
		c.Op(2)
		if g := sarflags.Test(w, f.Name, "", o.Name); g != (v == o.Val) {
			c.Fail("test", "header %08x: test of %s=%s gives %v", w, f.Name, o.Name, g)
		}
		n, err := sarflags.Set(w, f.Name, o.Name)
		if err != nil {
			c.Fail("set-error", "header %08x: cannot set %s=%s: %v", w, f.Name, o.Name, err)
		}
		if want := f.Put(32, w, o.Val); n != want {
			c.Fail("set", "header %08x: setting %s=%s gives %08x, want %08x", w, f.Name, o.Name, n, want)
		}
	}
}

var badNames = []string{"", "bogus", "Version", "version ", "sod", "property", "reserved", "timestamp", "d16"}
var badVals = []string{"", "bogus", "YES", "v2", "d8", "d256", "normalfile", "0", "yes "}

func undefined(c *mc.Ctx, w uint32) {
	for _, n := range badNames {
		if n == "reserved" || n == "sod" || n == "property" {
			// defined for directory entries only
		}
		for _, v := range []string{"", "bogus", "yes", "v1"} {
			c.Op(2)
			var g uint32
			var err error
			c.Must("set-undefined", func() { g, err = sarflags.Set(w, n, v) })
			if err == nil || g != w {
				c.Fail("undefined-flag", "header %08x: setting the undefined flag %q=%q gives %08x, error %v", w, n, v, g, err)
			}
			var t bool
			c.Must("test-undefined", func() { t = sarflags.Test(w, n, "", v) })
			if t {
				c.Fail("undefined-test", "header %08x: test of the undefined flag %q=%q is true", w, n, v)
			}
		}
		c.Must("name-undefined", func() { sarflags.GetStr(w, n); sarflags.Name(w, n); sarflags.Get(w, n) })
		if sarflags.Good(n) || sarflags.Valid(n, "yes") {
			c.Fail("undefined-good", "the undefined flag %q is said to be valid", n)
		}
	}
	for _, f := range h.Frame {
		for _, v := range badVals {
			if _, ok := f.Lookup(v); ok {
				continue
			}
			c.Op(3)
			var g uint32
			var err error
			c.Must("set-undefined", func() { g, err = sarflags.Set(w, f.Name, v) })
			if err == nil || g != w {
				c.Fail("undefined-value", "header %08x: setting %s to the undefined value %q gives %08x, error %v", w, f.Name, v, g, err)
			}
			var t bool
			c.Must("test-undefined", func() { t = sarflags.Test(w, f.Name, "", v) })
			if t {
				c.Fail("undefined-test", "header %08x: test of %s for the undefined value %q is true", w, f.Name, v)
			}
			if sarflags.Valid(f.Name, v) || sarflags.Value(f.Name, v) != -1 {
				c.Fail("undefined-valid", "%s=%q is said to be valid", f.Name, v)
			}
		}
	}
}

func frame(c *mc.Ctx) {
	f := mc.Of(c, "field", h.Frame)
	ws := words(c)
	w := mc.Of(c, "header", ws)
	c.Logf("field %s on header %08x", f.Name, w)
	frameWord(c, f, w)
}

func halves(c *mc.Ctx) {
	f := mc.Of(c, "field", h.Frame)
	hi := c.Pick("high", 256)
	rest := c.Pick("rest", 4)
	for lo := 0; lo < 256; lo++ {
		half := uint32(hi<<8 | lo)
		w := [4]uint32{half << 16, half<<16 | 0xffff, half, half | 0xffff0000}[rest]
		frameWord(c, f, w)
	}
}

// all pairs of flags of one frame type: setting one after the other keeps both
func pairs(c *mc.Ctx) {
	t := mc.Of(c, "type", []string{"beacon", "request", "metadata", "data", "status"})
	fs := h.For(t)
	a := mc.Of(c, "first", fs)
	b := mc.Of(c, "second", fs)
	if a.Name == b.Name {
		c.Skip()
	}
	for _, bg := range []uint32{0, ^uint32(0), h.Header(t)} {
		for _, oa := range a.Opts {
			for _, ob := range b.Opts {
				w, e1 := sarflags.Set(bg, a.Name, oa.Name)
				w, e2 := sarflags.Set(w, b.Name, ob.Name)
				m := sarflags.SetFlags(bg, map[string]string{a.Name: oa.Name, b.Name: ob.Name})
				c.Op(5)
				if e1 != nil || e2 != nil || sarflags.GetStr(w, a.Name) != oa.Name || sarflags.GetStr(w, b.Name) != ob.Name {
					c.Fail("pair", "%s: %s=%s then %s=%s reads back %s and %s (%v, %v)", t, a.Name, oa.Name, b.Name, ob.Name,
						sarflags.GetStr(w, a.Name), sarflags.GetStr(w, b.Name), e1, e2)
				}
				for _, bad := range [][2]string{{"nosuch", "yes"}, {"", ""}, {"descriptorx", "d16"}} { // undefined ones change nothing
					if x := sarflags.SetFlags(bg, map[string]string{a.Name: oa.Name, b.Name: ob.Name, bad[0]: bad[1]}); x != w {
						c.Fail("setflags", "%s: setting %s=%s, %s=%s and the undefined %q together gives %08x, want %08x", t, a.Name, oa.Name, b.Name, ob.Name, bad[0], x, w)
					}
					if x := sarflags.SetFlags(w, map[string]string{a.Name: bad[0], b.Name: bad[0] + "="}); x != w {
						c.Fail("setflags", "%s: setting undefined values of %s and %s turns %08x into %08x", t, a.Name, b.Name, w, x)
					}
					c.Op(2)
				}
				if m != w {
					c.Fail("setflags", "%s: setting %s=%s and %s=%s together gives %08x, one by one %08x", t, a.Name, oa.Name, b.Name, ob.Name, m, w)
				}
			}
		}
	}
}

// the tables themselves
func tables(c *mc.Ctx) {
	f := mc.Of(c, "field", h.Frame)
	if !sarflags.Good(f.Name) {
		c.Fail("missing", "flag %s is not defined", f.Name)
	}
	for _, o := range f.Opts {
		c.Op(2)
		if !sarflags.Valid(f.Name, o.Name) || sarflags.Value(f.Name, o.Name) != int(o.Val) {
			c.Fail("value", "%s=%s has the value %d, the draft says %d", f.Name, o.Name, sarflags.Value(f.Name, o.Name), o.Val)
		}
	}
	for _, t := range []string{"beacon", "request", "metadata", "data", "status"} {
		want := false
		for _, ft := range f.Frames {
			want = want || ft == t
		}
		n := 0
		for _, g := range sarflags.Fields(t) {
			if g == f.Name {
				n++
			}
		}
		c.Op(1)
		if n > 1 || (n == 1) != want {
			c.Fail("fields", "flag %s is listed %d times for %s frames", f.Name, n, t)
		}
	}
	undefined(c, uint32(0xdeadbeef))
	undefined(c, 0)
	undefined(c, ^uint32(0))
}

func dirent(c *mc.Ctx) {
	hi := c.Pick("high", 256)
	f := mc.Of(c, "field", h.Dirent)
	for lo := 0; lo < 256; lo++ {
		w := uint16(hi<<8 | lo)
		v := f.Get(16, uint32(w))
		name := f.NameOf(v)
		c.Op(3)
		if g := sarflags.GetD(w, f.Name); uint32(g) != v {
			c.Fail("getd", "directory header %04x: %s reads as %d, its bits say %d", w, f.Name, g, v)
		}
		if g := sarflags.GetDStr(w, f.Name); g != name {
			c.Fail("getdstr", "directory header %04x: %s reads as %q, its bits say %q", w, f.Name, g, name)
		}
		if g := sarflags.NameD(w, f.Name); g != name {
			c.Fail("named", "directory header %04x: %s is named %q, its bits say %q", w, f.Name, g, name)
		}
		for _, o := range f.Opts {
			c.Op(2)
			if g := sarflags.TestD(w, f.Name, o.Name); g != (v == o.Val) {
				c.Fail("testd", "directory header %04x: test of %s=%s gives %v", w, f.Name, o.Name, g)
			}
			n, err := sarflags.SetD(w, f.Name, o.Name)
			if want := uint16(f.Put(16, uint32(w), o.Val)); err != nil || n != want {
				c.Fail("setd", "directory header %04x: setting %s=%s gives %04x, want %04x (%v)", w, f.Name, o.Name, n, want, err)
			}
		}
		for _, bad := range []string{"", "bogus", "d8", "v1"} {
			c.Op(3)
			c.Must("setd-undefined", func() {
				if n, err := sarflags.SetD(w, f.Name, bad); err == nil || n != w {
					c.Fail("undefined-d", "directory header %04x: setting %s to the undefined value %q gives %04x, error %v", w, f.Name, bad, n, err)
				}
				if n, err := sarflags.SetD(w, "bogus"+bad, "d16"); err == nil || n != w {
					c.Fail("undefined-d", "directory header %04x: setting an undefined flag gives %04x, error %v", w, n, err)
				}
				if sarflags.TestD(w, f.Name, bad) || sarflags.TestD(w, "version", bad) || sarflags.ValidD(f.Name, bad) {
					c.Fail("undefined-test-d", "directory header %04x: %s=%q is said to be set or valid", w, f.Name, bad)
				}
			})
		}
	}
	if !sarflags.GoodD(f.Name) || sarflags.GoodD("version") || sarflags.GoodD("") {
		c.Fail("goodd", "the directory flag names are wrong about %s", f.Name)
	}
}

func tstamp(c *mc.Ctx) {
	w := uint8(c.Pick("header", 256))
	name := h.Tstamp.NameOf(uint32(w))
	c.Op(3)
	if g := sarflags.GetT(w); g != w {
		c.Fail("gett", "timestamp header %02x reads as %d", w, g)
	}
	if g := sarflags.GetTStr(w); g != name {
		c.Fail("gettstr", "timestamp header %02x reads as %q, want %q", w, g, name)
	}
	if g := sarflags.NameT(w); g != name {
		c.Fail("namet", "timestamp header %02x is named %q, want %q", w, g, name)
	}
	for _, o := range h.Tstamp.Opts {
		c.Op(2)
		if n, err := sarflags.SetT(w, o.Name); err != nil || uint32(n) != o.Val {
			c.Fail("sett", "timestamp header %02x: setting %s gives %02x, want %02x (%v)", w, o.Name, n, o.Val, err)
		}
		if !sarflags.GoodT(o.Name) {
			c.Fail("goodt", "timestamp type %s is not defined", o.Name)
		}
	}
	for _, bad := range []string{"", "bogus", "posix16", "d16"} {
		c.Op(2)
		c.Must("sett-undefined", func() {
			if n, err := sarflags.SetT(w, bad); err == nil || n != w || sarflags.GoodT(bad) {
				c.Fail("undefined-t", "timestamp header %02x: setting the undefined type %q gives %02x, error %v", w, bad, n, err)
			}
		})
	}
}

func main() {
	mc.Main(&mc.Check{ID: "C07", Setup: h.Setup,
		Assume: []string{"the documented layout is the one in the header of sarflags.go and the shipped configuration, restated in the check"},
		Scenarios: []mc.Scenario{
			{Name: "tables", Bounds: "every flag, value and frame type, and undefined names and values on 3 headers", Run: tables, Shard: 1},
			{Name: "timestamp", Bounds: "all 256 timestamp headers x all types and undefined ones", Run: tstamp, Shard: 1},
			{Name: "dirent", Bounds: "all 65536 directory headers x all flags and values and undefined ones", Run: dirent},
			{Name: "frame", Bounds: "every flag and value on ~2200 frame headers: none, all, every one and two bits set or clear, every value of every flag alone and in every frame type", Run: frame},
			{Name: "pairs", Bounds: "every ordered pair of flags of each frame type, all values, 3 backgrounds", Run: pairs},
			{Name: "halves", Bounds: "every flag and value on the 4 x 65536 frame headers with one half arbitrary and the other all zero or all one", Run: halves},
		}})
}
