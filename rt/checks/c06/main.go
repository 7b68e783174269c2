// C06: timestamps round-trip for every type and instant.
package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/charlesetsmith/saratoga/timestamp"

	"verif/checks/h"
	"verif/mc"
	"verif/vtime"
)

var secs, nsecs = boundaries()

func boundaries() (s []int64, n []uint32) {
	seen := map[int64]bool{}
	add := func(x int64) {
		if x >= 0 && !seen[x] && x < 1<<55 {
			seen[x] = true
			s = append(s, x)
		}
	}
	for k := 0; k < 55; k++ {
		for d := int64(-1); d <= 1; d++ {
			add(1<<k + d)
			add(h.Epoch2000 + 1<<k + d)
			add(h.Epoch2000 - 1<<k + d)
		}
	}
	add(0x0102030405060)
	add(1700000000)
	sn := map[uint32]bool{}
	addn := func(x uint32) {
		if x < 1e9 && !sn[x] {
			sn[x] = true
			n = append(n, x)
		}
	}
	for k := 0; k < 30; k++ {
		addn(1<<k - 1)
		addn(1 << k)
		addn(1<<k + 1)
	}
	for p := uint32(1); p < 1e9; p *= 10 {
		addn(p - 1)
		addn(p)
		addn(5 * p)
		addn(1e9 - p)
	}
	addn(123456789)
	return
}

var zones = []*time.Location{time.UTC, time.FixedZone("east", 10*3600+1800), time.FixedZone("west", -11*3600)}

// printed gives the documented text of a timestamp.
func printed(typ string, sec int64, nsec uint32) string {
	t := time.Unix(sec, int64(nsec)).UTC()
	switch typ {
	case "localinterp":
		return "localinterp"
	case "posix32_32", "posix64_32":
		return t.Format("Mon Jan _2 15:04:05.000 2006 UTC")
	}
	return t.Format("Mon Jan _2 15:04:05 2006 UTC")
}

func same(c *mc.Ctx, what string, t *timestamp.Timestamp, wire []byte, s uint64, text string) {
	var put []byte
	c.Must("Put", func() { put = t.Put() })
	c.Op(3)
	if len(put) != 16 {
		c.Fail("size", "%s: encodes to %d bytes", what, len(put))
	}
	if !bytes.Equal(put, wire) {
		c.Fail("wire", "%s: encodes to %x, want %x", what, put, wire)
	}
	if g := t.Secs(); g != s {
		c.Fail("secs", "%s: %d seconds, want %d", what, g, s)
	}
	if g := t.Print(); g != text {
		c.Fail("text", "%s: prints as %q, want %q", what, g, text)
	}
}

// build makes t hold the instant (or be refused), encodes it and decodes it into u.
func build(c *mc.Ctx, t, u *timestamp.Timestamp, typ string, sec int64, nsec uint32, zone *time.Location) {
	wire, s, ok := h.Ts(typ, sec, nsec)
	var err error
	c.Must("New", func() { err = t.New(typ, time.Unix(sec, int64(nsec)).In(zone)) })
	c.Op(1)
	what := fmt.Sprintf("%s of %d.%09d (%s)", typ, sec, nsec, zone)
	if (err == nil) != ok {
		c.Fail("range", "%s: error %v, can be held: %v", what, err, ok)
	}
	if err != nil {
		return
	}
	text := printed(typ, sec, nsec)
	same(c, what, t, wire, s, text)
	buf := append(make([]byte, 0, 32), t.Put()...)
	full := append(append([]byte(nil), buf...), bytes.Repeat([]byte{0xee}, 16)...)
	copy(buf[:32], full)
	c.Must("Get", func() { err = u.Get(buf) })
	c.Op(1)
	if err != nil {
		c.Fail("get", "%s: cannot be decoded: %v", what, err)
	}
	for i := range buf {
		buf[i] ^= 0x5a
	}
	same(c, what+" decoded", u, wire, s, text)
	var ft, fu timestamp.Timestamp
	if ft.New(typ, time.Unix(sec, int64(nsec)).In(zone)) != nil || fu.Get(wire) != nil {
		c.Fail("fresh", "%s: refused for a fresh value", what)
	}
	if !reflect.DeepEqual(ft, *t) {
		c.Fail("history", "%s: %+v, but %+v in a value that was not used before", what, *t, ft)
	}
	if !reflect.DeepEqual(fu, *u) {
		c.Fail("history", "%s: decodes to %+v, but to %+v in a value that was not used before", what, *u, fu)
	}
	if !reflect.DeepEqual(*t, *u) {
		c.Fail("equal", "%s: %+v decodes to %+v", what, *t, *u)
	}
	a, b, put := *t, *u, t.Put()
	keep.Later(func() {
		same(c, what+" after later ones", &a, wire, s, text)
		same(c, what+" decoded, after later ones", &b, wire, s, text)
		if !bytes.Equal(put, wire) {
			c.Fail("alias", "%s: later timestamps change its encoded bytes", what)
		}
	})
}

var keep *h.Keep

// many at once
func together(c *mc.Ctx) {
	order := c.Pick("order", 3)
	keep = new(h.Keep)
	defer func() { keep = nil }()
	const n = 300
	for i := 0; i < n; i++ {
		k := []int{i, n - 1 - i, i * 7 % n}[order]
		var t, u timestamp.Timestamp
		build(c, &t, &u, h.TsTypes[k%6], h.Epoch2000+int64(k*k), uint32(i*1000), zones[k%3])
	}
	keep.Check()
}

// every second of an hour and every day of thirty years
func calendar(c *mc.Ctx) {
	typ := mc.Of(c, "type", h.TsTypes)
	year := c.Pick("year", 40)
	for day := 0; day < 366; day++ {
		var t, u timestamp.Timestamp
		build(c, &t, &u, typ, h.Epoch2000+int64(year)*31556952+int64(day)*86400+int64(day), uint32(day*2732240), zones[day%3])
	}
	for s := year * 90; s < year*90+90; s++ {
		var t, u timestamp.Timestamp
		build(c, &t, &u, typ, 1700000000+int64(s), uint32(s*270000), time.UTC)
	}
}

func instants(c *mc.Ctx) {
	typ := mc.Of(c, "type", h.TsTypes)
	sec := mc.Of(c, "seconds", secs)
	zone := mc.Of(c, "zone", zones)
	for _, n := range nsecs {
		var t, u timestamp.Timestamp
		build(c, &t, &u, typ, sec, n, zone)
	}
}

// every history of the re-used values
func histories(depth int) func(*mc.Ctx) {
	ss := []int64{0, h.Epoch2000 - 1, h.Epoch2000 + 5, 1<<32 - 1, 1 << 32, 1<<40 + 77}
	ns := []uint32{0, 7, 999999999}
	return func(c *mc.Ctx) {
		var t, u timestamp.Timestamp
		for i := 0; i < depth; i++ {
			typ := mc.Of(c, "type", append([]string{"local"}, h.TsTypes...))
			sec := mc.Of(c, "seconds", ss)
			if typ == "local" {
				// what a peer with its own interpretation might send
				text := []string{"", "x", "exactly14bytes", "with space", "\x00lead", "high\xff\x80"}[c.Pick("text", 6)]
				b := append([]byte{0}, text...)
				for len(b) < 16 {
					b = append(b, 0)
				}
				var err error
				c.Must("Get", func() { err = t.Get(append([]byte(nil), b...)) })
				if err != nil {
					c.Fail("get", "local timestamp %q: %v", text, err)
				}
				same(c, fmt.Sprintf("local timestamp %q", text), &t, b, 0, strings.TrimRight(text, "\x00"))
				continue
			}
			build(c, &t, &u, typ, sec, mc.Of(c, "nsec", ns), time.UTC)
			if c.Bool("now") {
				vtime.Clock = time.Unix(sec, 55).In(zones[1])
				wire, s, ok := h.Ts(typ, sec, 55)
				var err error
				c.Must("Now", func() { err = t.Now(typ) })
				if (err == nil) != ok {
					c.Fail("range", "now %d as %s: %v", sec, typ, err)
				}
				if err == nil {
					var fresh timestamp.Timestamp
					if fresh.Now(typ) != nil || !reflect.DeepEqual(fresh, t) {
						c.Fail("history", "now %d as %s: %+v, but %+v in a value that was not used before", sec, typ, t, fresh)
					}
					same(c, fmt.Sprintf("now %d as %s", sec, typ), &t, wire, s, printed(typ, sec, 55))
				}
			}
		}
	}
}

// anything that decodes keeps its meaning when it is encoded and decoded again
func wire(c *mc.Ctx) {
	b := make([]byte, 16)
	b[0] = byte(c.Pick("type", 6))
	pat := c.Pick("pattern", 16*8+4)
	switch {
	case pat < 128:
		b[pat/8] |= 1 << (pat % 8)
	case pat == 128:
		for i := 1; i < 16; i++ {
			b[i] = 0xff
		}
	case pat == 129:
		for i := 1; i < 16; i++ {
			b[i] = byte(i)
		}
	case pat == 130:
		copy(b[1:], "some text")
	}
	if !h.TsOK(b[0]) {
		c.Skip()
	}
	var t, u, v timestamp.Timestamp
	var err error
	c.Must("Get", func() { err = t.Get(b) })
	if err != nil {
		c.Fail("get", "%x: %v", b, err)
	}
	p := t.Put()
	u.New("posix64_32", time.Unix(1<<33, 3))
	if err = u.Get(p); err != nil {
		c.Fail("again", "%x decodes and encodes to %x, which does not decode: %v", b, p, err)
	}
	v.Get(p)
	c.Op(4)
	if p[0] != b[0] {
		c.Fail("type", "%x decodes and encodes to %x", b, p)
	}
	if !bytes.Equal(u.Put(), p) || u.Secs() != t.Secs() || u.Print() != t.Print() || v.Print() != t.Print() {
		c.Fail("again", "%x: %q %d then %q %d", b, t.Print(), t.Secs(), u.Print(), u.Secs())
	}
}

func unknown(c *mc.Ctx) {
	typ := mc.Of(c, "type", []string{"", "posix", "posix16", "epoch2000", "LOCALINTERP", "posix33", "posix64_64"})
	var t timestamp.Timestamp
	var err error
	c.Must("New", func() { err = t.New(typ, time.Unix(1, 0)) })
	c.Op(1)
	if err == nil {
		c.Fail("unknown", "a timestamp of the unknown type %q is built", typ)
	}
}

func main() {
	mc.Main(&mc.Check{ID: "C06", Setup: h.Setup,
		Assume: []string{"instants from 1970 on", "the local text has at most 14 bytes and no trailing NUL"},
		Scenarios: []mc.Scenario{
			{Name: "instants", Bounds: "6 types x all instants 2^k-1, 2^k, 2^k+1 (k<55) seconds from 1970 and around 2000 x about 120 nanosecond values x 3 zones", Run: instants},
			{Name: "histories", Bounds: "all sequences of 2 (build, encode, decode, now) on re-used values over 7 types x 6 instants x 3 nanosecond values", Run: histories(2)},
			{Name: "histories-3", Bounds: "all sequences of 3", Run: histories(3), Thorough: true},
			{Name: "together", Bounds: "3 orders of 300 timestamps that are all looked at again at the end", Run: together},
			{Name: "calendar", Bounds: "6 types x every day of 40 years and every second of an hour", Run: calendar},
			{Name: "wire", Bounds: "every single-bit and 4 more contents of the 15 bytes x 6 types", Run: wire},
			{Name: "unknown", Bounds: "7 unknown type names", Run: unknown},
		}})
}
