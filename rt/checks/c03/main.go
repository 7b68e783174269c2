// C03: beacons carry identity and true free space.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/charlesetsmith/saratoga/beacon"

	"verif/checks/h"
	"verif/mc"
	"verif/vnet"
	"verif/vsyscall"
)

var keep *h.Keep

type frame struct {
	hdr  uint32
	free uint64
	eid  string
}

func (f frame) String() string {
	e := f.eid
	if len(e) > 40 {
		e = fmt.Sprintf("%s... (%d bytes)", e[:40], len(e))
	}
	return fmt.Sprintf("beacon %08x free %d identity %q", f.hdr, f.free, e)
}

func (f frame) wire() []byte {
	b := h.U(nil, 4, uint64(f.hdr))
	if h.Is(f.hdr, "freespace", "yes") {
		w := h.Width(h.F("freespaced").NameOf(h.F("freespaced").Get(32, f.hdr)))
		if w == 0 || !h.Fits(f.free, w) {
			return nil
		}
		b = h.U(b, w, f.free)
	}
	return append(b, f.eid...)
}

func (f frame) holds(c *mc.Ctx, what string, b *beacon.Beacon) {
	free := f.free
	if h.Is(f.hdr, "freespace", "no") {
		free = 0
	}
	if b.Header != f.hdr || b.Freespace != free || b.Eid != f.eid {
		c.Fail("content", "%s: want %v, got %v", what, f, frame{b.Header, b.Freespace, b.Eid})
	}
}

// carry encodes, sends and decodes.
func (f frame) carry(c *mc.Ctx, b, e *beacon.Beacon, send bool) {
	var buf []byte
	var err error
	c.Must("Encode", func() { buf, err = b.Encode() })
	c.Op(1)
	wire := f.wire()
	if send {
		h.Send(c, f.String(), wire, true, func(conn *vnet.UDPConn, to *vnet.UDPAddr) error { return b.Send(conn) })
	}
	if wire == nil {
		if err == nil {
			c.Fail("unfit", "%v is encoded, to %x", f, buf[:min(len(buf), 40)])
		}
		return
	}
	if err != nil {
		c.Fail("encode", "%v cannot be encoded: %v", f, err)
	}
	if !bytes.Equal(buf, wire) {
		c.Fail("wire", "%v is encoded to %x, want %x", f, buf[:min(len(buf), 60)], wire[:min(len(wire), 60)])
	}
	rx := make([]byte, len(buf)+40)
	for i := range rx {
		rx[i] = 0xe7
	}
	copy(rx, buf)
	c.Must("Decode", func() { err = e.Decode(rx[:len(buf)]) })
	c.Op(1)
	if err != nil {
		c.Fail("decode", "%v cannot be decoded: %v", f, err)
	}
	for i := range rx {
		rx[i] ^= 0xa5
	}
	f.holds(c, "decoded", e)
	p := e.Val(&vnet.UDPAddr{IP: vnet.IP{1, 2, 3, 4}, Port: 5}).Info
	if err = e.Decode(frame{h.Header("beacon"), 0, "next"}.wire()); err != nil {
		c.Fail("decode", "second beacon: %v", err)
	}
	frame{h.Header("beacon"), 0, "next"}.holds(c, "second beacon", e)
	f.holds(c, "handed on before the value was re-used", &p)
	keep.Later(func() {
		f.holds(c, "after later beacons were decoded", &p)
		if !bytes.Equal(buf, wire) {
			c.Fail("alias", "%v: later beacons change its encoded bytes", f)
		}
	})
}

var eids = []string{"", "a", "192.0.2.1-4321", "[2001:db8::1]:7542-77", "nul\x00inside\x00", "caf\xc3\xa9 \xff\xfe", strings.Repeat("x", 255), strings.Repeat("y", 1400)}
var frees = []uint64{0, 1, 255, 256, 1000, 65534, 65535, 65536, 65537, 1 << 20, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 50, math.MaxUint64 - 1}

// smallest width
func smallest(v uint64) string {
	switch {
	case v < 1<<16:
		return "d16"
	case v < 1<<32:
		return "d32"
	}
	return "d64"
}

type disk struct {
	bsize        int64
	avail, bfree uint64
	err          error
}

var disks = []disk{
	{4096, 0, 100, nil}, {4096, 1, 5, nil}, {512, 1, 9, nil}, {512, 3, 9, nil}, {1024, 65535, 1 << 20, nil}, {1024, 65536, 1 << 20, nil},
	{4096, 16384, 1 << 30, nil}, {4096, 16383, 1 << 30, nil}, {1024, 1<<32 - 1, 1 << 40, nil}, {1024, 1 << 32, 1 << 40, nil}, {4096, 1 << 40, 1 << 41, nil},
	{4096, 7, 7, errors.New("no such disk")},
}

func setDisk(c *mc.Ctx, d disk) {
	dir, _ := filepath.EvalSymlinks(h.Dir)
	vsyscall.StatfsHook = func(path string, st *vsyscall.Statfs_t) error {
		if path == "." {
			path, _ = os.Getwd()
		}
		p, err := filepath.EvalSymlinks(path)
		if err != nil || p != dir {
			c.Fail("measured-path", "the free space of %q is measured, not of the transfer directory", path)
		}
		*st = vsyscall.Statfs_t{Bsize: d.bsize, Frsize: d.bsize, Bavail: d.avail, Bfree: d.bfree, Blocks: 1 << 42}
		return d.err
	}
}

// expect gives the beacon that must come out of a build.
func expect(hdr uint32, given uint64, eid string, d disk) frame {
	f := frame{hdr: hdr, eid: eid}
	if h.Is(hdr, "freespace", "no") {
		return f
	}
	f.free = given
	if given == 0 {
		if d.err != nil {
			f.hdr = h.F("freespace").Put(32, hdr, 0)
			return f
		}
		f.free = uint64(d.bsize) * d.avail / 1024
	}
	f.hdr = h.F("freespaced").Put(32, hdr, h.F("freespaced").Value(smallest(f.free)))
	return f
}

// the freespaced field means nothing when no free space is advertised
func (f frame) built(c *mc.Ctx, b *beacon.Beacon) frame {
	if h.Is(f.hdr, "freespace", "no") {
		f.hdr = h.F("freespaced").Put(32, f.hdr, h.F("freespaced").Get(32, b.Header))
	}
	f.holds(c, "built", b)
	return f
}

func setup(c *mc.Ctx) {
	h.Setup(c)
	if err := os.Chdir(h.Dir); err != nil {
		panic(err)
	}
}

func flags(c *mc.Ctx) {
	desc := mc.Of(c, "descriptor", []string{"d16", "d32", "d64", "d128"})
	fs := mc.Of(c, "freespace", []string{"", "freespace=no", "freespace=yes", "freespaced=d16", "freespaced=d32", "freespaced=d64", "freespace=yes,freespaced=d16"})
	tx := mc.Of(c, "txwilling", h.F("txwilling").Opts).Name
	rx := mc.Of(c, "rxwilling", h.F("rxwilling").Opts).Name
	st := mc.Of(c, "stream", []string{"no", "yes"})
	ul := mc.Of(c, "udplite", []string{"no", "yes"})
	hdr := h.Header("beacon", "descriptor", desc, "txwilling", tx, "rxwilling", rx, "stream", st, "udplite", ul)
	fl := fmt.Sprintf("descriptor=%s,txwilling=%s, rxwilling=%s,stream=%s,udplite=%s", desc, tx, rx, st, ul)
	if fs != "" {
		fl = fs + "," + fl
		if fs != "freespace=no" {
			hdr = h.F("freespace").Put(32, hdr, 1)
		}
	}
	for _, eid := range eids[:4] {
		for _, given := range []uint64{0, 5, 1 << 40} {
			for _, d := range []disk{disks[3], disks[8], disks[11]} {
				setDisk(c, d)
				var b, e beacon.Beacon
				var err error
				c.Must("New", func() { err = b.New(fl, &beacon.Binfo{Freespace: given, Eid: eid}) })
				c.Op(1)
				if err != nil {
					c.Fail("new", "flags %q: %v", fl, err)
				}
				f := expect(hdr, given, eid, d).built(c, &b)
				f.carry(c, &b, &e, given == 5)
			}
		}
	}
}

func values(c *mc.Ctx) {
	how := c.Pick("how", 3)
	eid := mc.Of(c, "eid", eids)
	given := mc.Of(c, "given", frees)
	pre := c.Pick("before", 3)
	for _, d := range disks {
		setDisk(c, d)
		var b, e beacon.Beacon
		switch pre {
		case 1:
			e.Decode(frame{h.Header("beacon", "freespace", "yes", "freespaced", "d64"), 1 << 60, "old identity"}.wire())
		case 2:
			e.Decode([]byte{0x20, 0, 0x50, 0, 1})
		}
		var err error
		hdr := h.Header("beacon", "freespace", "yes", "descriptor", "d32")
		switch how {
		case 0:
			c.Must("New", func() {
				err = b.New("descriptor=d32,freespace=yes", &beacon.Binfo{Freespace: given, Eid: eid})
			})
		case 1:
			c.Must("Make", func() { err = b.Make(hdr, &beacon.Binfo{Freespace: given, Eid: eid}) })
		case 2: // re-used value
			b.New("descriptor=d32,freespace=yes", &beacon.Binfo{Freespace: 1 << 45, Eid: "before"})
			c.Must("New", func() {
				err = b.New("descriptor=d32,freespace=yes", &beacon.Binfo{Freespace: given, Eid: eid})
			})
		}
		c.Op(1)
		if err != nil {
			c.Fail("new", "free %d: %v", given, err)
		}
		f := expect(hdr, given, eid, d).built(c, &b)
		f.carry(c, &b, &e, false)
	}
}

// Make keeps every other bit of the header
func headers(c *mc.Ctx) {
	bit := c.Pick("bit", 33)
	fs := c.Pick("freespace", 8)
	given := mc.Of(c, "given", []uint64{0, 9, 1 << 17, 1 << 33})
	w := h.F("freespaced").Put(32, h.F("freespace").Put(32, h.Header("beacon", "txwilling", "yes", "descriptor", "d64"), uint32(fs&1)), uint32(fs>>1))
	if bit < 32 {
		if (h.F("freespace").Mask(32)|h.F("freespaced").Mask(32))>>bit&1 == 1 {
			c.Skip()
		}
		w ^= 1 << bit
	}
	in := w
	w = h.F("version").Put(32, h.F("frametype").Put(32, w, 0), 1)
	setDisk(c, disks[8])
	var b, e beacon.Beacon
	var err error
	c.Must("Make", func() { err = b.Make(in, &beacon.Binfo{Freespace: given, Eid: "me"}) })
	c.Op(1)
	if err != nil {
		c.Fail("make", "header %08x: %v", in, err)
	}
	f := expect(w, given, "me", disks[8]).built(c, &b)
	f.carry(c, &b, &e, false)
}

// values and widths chosen freely
func widths(c *mc.Ctx) {
	fd := uint32(c.Pick("width", 4))
	on := uint32(c.Pick("freespace", 2))
	v := mc.Of(c, "value", append(frees, math.MaxUint64))
	eid := mc.Of(c, "eid", eids)
	f := frame{h.F("freespaced").Put(32, h.F("freespace").Put(32, h.Header("beacon"), on), fd), v, eid}
	b := beacon.Beacon{Header: f.hdr, Freespace: v, Eid: eid}
	var e beacon.Beacon
	if on == 0 {
		b.Freespace = 0
	}
	f.carry(c, &b, &e, true)
}

// every number near a power of two, given or measured
func powers(c *mc.Ctx) {
	how := c.Pick("how", 4)
	v := mc.Of(c, "free", h.Powers(64))
	if v == 0 || v == math.MaxUint64 {
		c.Skip()
	}
	d, given := disk{1024, v, v, nil}, uint64(0)
	switch {
	case how&2 != 0:
		d, given = disks[4], v
	case v >= 1<<54:
		c.Skip()
	}
	setDisk(c, d)
	hdr := h.Header("beacon", "freespace", "yes")
	var b, e beacon.Beacon
	var err error
	if how&1 == 0 {
		c.Must("New", func() { err = b.New("freespace=yes", &beacon.Binfo{Freespace: given, Eid: "me"}) })
	} else {
		c.Must("Make", func() { err = b.Make(hdr, &beacon.Binfo{Freespace: given, Eid: "me"}) })
	}
	c.Op(1)
	if err != nil {
		c.Fail("new", "free %d: %v", v, err)
	}
	expect(hdr, given, "me", d).built(c, &b).carry(c, &b, &e, false)
}

// every identity of up to two bytes, and of every length
func identities(c *mc.Ctx) {
	a := c.Pick("first", 256)
	setDisk(c, disks[4])
	var free uint64
	try := func(fs uint32, eid string) {
		hdr := h.F("freespace").Put(32, h.Header("beacon"), fs)
		var b, e beacon.Beacon
		var err error
		c.Must("Make", func() { err = b.Make(hdr, &beacon.Binfo{Freespace: free, Eid: eid}) })
		c.Op(1)
		if err != nil {
			c.Fail("make", "identity %q: %v", eid, err)
		}
		expect(hdr, free, eid, disks[4]).built(c, &b).carry(c, &b, &e, false)
	}
	for k, v := range []uint64{0, 7, 70000, 1 << 40} { // no free space and each width
		fs := uint32(0)
		if k > 0 {
			fs, free = 1, v
		}
		try(fs, string([]byte{byte(a)}))
		for b := 0; b < 256; b++ {
			try(fs, string([]byte{byte(a), byte(b)}))
		}
		for n := a * 6; n < a*6+6; n++ {
			try(fs, strings.Repeat("k\u00e9", 800)[:n])
		}
	}
}

// one value used for several beacons
func rebuild(c *mc.Ctx) {
	var b, e beacon.Beacon
	type held struct {
		f frame
		p beacon.Beacon
		b []byte
	}
	var before []held
	for k := 0; k < 3; k++ {
		how := c.Pick("build", 10)
		d := disk{1024, uint64(50 + 70000*k), 1 << 40, nil}
		if how == 5 {
			d.err = errors.New("no such disk")
		}
		setDisk(c, d)
		hdr := h.Header("beacon", "descriptor", "d32", "txwilling", "yes", "freespace", "yes")
		eid := strings.Repeat(string(rune('a'+k)), 3+how%3)
		var given uint64
		var err error
		fl := "descriptor=d32,txwilling=yes,freespace=yes"
		switch how {
		case 1:
			given = uint64(9 + k)
		case 2:
			given = 1 << (33 + k)
		case 3:
			hdr = h.F("freespace").Put(32, hdr, 0)
			fl = "descriptor=d32,txwilling=yes,freespace=no"
		}
		info := &beacon.Binfo{Freespace: given, Eid: eid}
		switch how {
		case 6, 7:
			hdr = h.F("freespace").Put(32, hdr, uint32(how&1))
			c.Must("Make", func() { err = b.Make(hdr, info) })
		case 8:
			b.Decode([]byte{0x20, 0, 0x50, 0, 1})
			continue
		case 9:
			b.New("descriptor=d32,txwilling=maybe", info)
			continue
		default:
			c.Must("New", func() { err = b.New(fl, info) })
		}
		c.Op(1)
		if err != nil {
			c.Fail("new", "beacon %d, %q: %v", k, fl, err)
		}
		f := expect(hdr, given, eid, d).built(c, &b)
		hd := held{f: f, p: b.Val(&vnet.UDPAddr{IP: vnet.IP{1, 2, 3, 4}, Port: 5}).Info}
		if hd.b, err = b.Encode(); err != nil {
			c.Fail("encode", "%v: %v", f, err)
		}
		f.carry(c, &b, &e, false)
		if err = e.Decode(f.wire()); err != nil {
			c.Fail("decode", "%v: %v", f, err)
		}
		before = append(before, hd, held{f, e.Val(&vnet.UDPAddr{IP: vnet.IP{1, 2, 3, 4}, Port: 5}).Info, hd.b})
		if k == 1 {
			b, e = e, b
		}
		for _, x := range before {
			x.f.holds(c, "handed on before the value was re-used", &x.p)
			if !bytes.Equal(x.b, x.f.wire()) {
				c.Fail("alias", "%v: re-using the value changes its encoded bytes", x.f)
			}
		}
	}
}

// many beacons at once
func together(c *mc.Ctx) {
	order := c.Pick("order", 3)
	setDisk(c, disks[4])
	keep = new(h.Keep)
	defer func() { keep = nil }()
	const n = 200
	for i := 0; i < n; i++ {
		k := []int{i, n - 1 - i, i * 7 % n}[order]
		hdr := h.F("freespace").Put(32, h.Header("beacon"), uint32(k&1))
		eid := strings.Repeat(string(rune('a'+i%26)), k%40)
		given := uint64(1 + k*1000)
		var b, e beacon.Beacon
		if err := b.Make(hdr, &beacon.Binfo{Freespace: given, Eid: eid}); err != nil {
			c.Fail("make", "%v", err)
		}
		expect(hdr, given, eid, disks[4]).built(c, &b).carry(c, &b, &e, false)
	}
	keep.Check()
}

func bad(c *mc.Ctx) {
	fl := mc.Of(c, "flags", []string{"bogus=1", "descriptor=d8", "freespaced=d128", "freespaced=d8", "eod=yes", "txwilling=maybe", "freespace=1"})
	setDisk(c, disks[3])
	var b beacon.Beacon
	var err error
	c.Must("New", func() { err = b.New(fl, &beacon.Binfo{}) })
	c.Op(1)
	if err == nil {
		c.Fail("bad-flags", "flags %q are accepted: header %08x", fl, b.Header)
	}
}

func main() {
	mc.Main(&mc.Check{ID: "C03", Setup: setup,
		Assume: []string{"the node runs in its transfer directory (the program changes into it when it starts)", "free space is what the file system reports as available"},
		Scenarios: []mc.Scenario{
			{Name: "flags", Bounds: "every combination of the beacon flags x 4 identities x 3 given values x 3 disks (one that cannot be measured)", Run: flags},
			{Name: "values", Bounds: "3 ways to build x 8 identities x 16 values around the width limits x 12 disks x 3 earlier contents", Run: values},
			{Name: "headers", Bounds: "every single header bit x free space flag and width x 4 values", Run: headers},
			{Name: "widths", Bounds: "every width x 17 values x 8 identities", Run: widths},
			{Name: "powers", Bounds: "every number within 1 of a power of two as given and as measured free space x 2 ways to build", Run: powers},
			{Name: "identities", Bounds: "every identity of 1 and 2 bytes and of every length 0..1535, without free space and with free space of each width", Run: identities},
			{Name: "rebuild", Bounds: "every sequence of 3 of 10 builds (measured, given, absent, unmeasurable, made, refused) of one value", Run: rebuild},
			{Name: "together", Bounds: "3 orders of 200 beacons that are all looked at again at the end", Run: together},
			{Name: "bad-flags", Bounds: "7 undefined flag lists", Run: bad},
		}})
}
