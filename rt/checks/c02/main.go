// C02: status frames survive the wire unchanged.
package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"time"

	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/status"

	"verif/checks/h"
	"verif/mc"
	"verif/vnet"
	"verif/vtime"
)

var keep *h.Keep

type frame struct {
	hdr, session uint32
	typ          string
	sec          int64
	nsec         uint32
	prog, resp   uint64
	holes        []holes.Hole
}

func (f frame) String() string {
	return fmt.Sprintf("header %08x session %d %s@%d.%09d progress %d in response to %d holes %v", f.hdr, f.session, f.typ, f.sec, f.nsec, f.prog, f.resp, short(f.holes))
}

func short(l []holes.Hole) string {
	if len(l) > 5 {
		return fmt.Sprintf("%v... (%d)", l[:5], len(l))
	}
	return fmt.Sprint(l)
}

func (f frame) wire() []byte {
	b := h.U(h.U(nil, 4, uint64(f.hdr)), 4, uint64(f.session))
	if h.Is(f.hdr, "reqtstamp", "yes") {
		ts, _, _ := h.Ts(f.typ, f.sec, f.nsec)
		b = append(b, ts...)
	}
	w := h.Width(h.Desc(f.hdr))
	if w == 0 || !h.Fits(f.prog, w) || !h.Fits(f.resp, w) {
		return nil
	}
	b = h.U(h.U(b, w, f.prog), w, f.resp)
	for _, x := range f.holes {
		if !h.Fits(uint64(x.Start), w) || !h.Fits(uint64(x.End), w) {
			return nil
		}
		b = h.U(h.U(b, w, uint64(x.Start)), w, uint64(x.End))
	}
	return b
}

func eq(a holes.Holes, b []holes.Hole) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (f frame) holds(c *mc.Ctx, what string, s *status.Status) {
	if s.Header != f.hdr || s.Session != f.session || s.Progress != f.prog || s.Inrespto != f.resp || !eq(s.Holes, f.holes) {
		c.Fail("content", "%s: %v becomes header %08x session %d progress %d in response to %d holes %v", what, f, s.Header, s.Session, s.Progress, s.Inrespto, short(s.Holes))
	}
	if h.Is(f.hdr, "reqtstamp", "yes") {
		ts, _, _ := h.Ts(f.typ, f.sec, f.nsec)
		if g := s.Tstamp.Put(); !bytes.Equal(g, ts) {
			c.Fail("tstamp", "%s: %v has timestamp %x, want %x", what, f, g, ts)
		}
	}
}

func (f frame) carry(c *mc.Ctx, s, e *status.Status, callers holes.Holes, send bool) {
	f.holds(c, "built", s)
	var buf []byte
	var err error
	c.Must("Encode", func() { buf, err = s.Encode() })
	c.Op(1)
	wire := f.wire()
	if send {
		h.Send(c, f.String(), wire, false, func(conn *vnet.UDPConn, to *vnet.UDPAddr) error { return s.Send(conn, to) })
	}
	if wire == nil {
		if err == nil {
			c.Fail("unfit", "%v is encoded, to %x", f, buf[:min(len(buf), 60)])
		}
		return
	}
	if err != nil {
		c.Fail("encode", "%v cannot be encoded: %v", f, err)
	}
	if !bytes.Equal(buf, wire) {
		c.Fail("wire", "%v is encoded to %x (%d bytes), want %x (%d bytes)", f, buf[:min(len(buf), 60)], len(buf), wire[:min(len(wire), 60)], len(wire))
	}
	for i := range callers {
		callers[i] = holes.Hole{Start: 3, End: 1}
	}
	f.holds(c, "after re-use of the list of ranges", s)
	rx := make([]byte, len(buf)+40)
	for i := range rx {
		rx[i] = 0xe7
	}
	copy(rx, buf)
	c.Must("Decode", func() { err = e.Decode(rx[:len(buf)]) })
	c.Op(2)
	if err != nil {
		c.Fail("decode", "%v cannot be decoded: %v", f, err)
	}
	f.holds(c, "decoded", e)
	var fresh status.Status
	if err = fresh.Decode(buf); err != nil || !reflect.DeepEqual(fresh, *e) {
		c.Fail("history", "%v: decoded into a used value gives %.300s, into a fresh one %.300s", f, fmt.Sprintf("%+v", *e), fmt.Sprintf("%+v", fresh))
	}
	p := e.Val(&vnet.UDPAddr{IP: vnet.IP{1, 2, 3, 4}, Port: 5}).Info
	v := e.Values()
	for i := range rx {
		rx[i] ^= 0xa5
	}
	f.holds(c, "after re-use of the receive buffer", e)
	// another frame through the same value
	n := frame{hdr: h.Header("status", "descriptor", "d16"), session: 3, prog: 4, resp: 5, holes: []holes.Hole{{Start: 6, End: 7}}}
	if len(f.holes) > 1 {
		n.holes = nil
	}
	if err = e.Decode(n.wire()); err != nil {
		c.Fail("decode", "%v cannot be decoded: %v", n, err)
	}
	n.holds(c, "second frame", e)
	f.holds(c, "handed on before the value was re-used", &p)
	f.holds(c, "copied before the value was re-used", &v)
	keep.Later(func() {
		f.holds(c, "after later frames were decoded", &v)
		f.holds(c, "after later frames were built", s)
		if !bytes.Equal(buf, wire) {
			c.Fail("alias", "%v: later frames change its encoded bytes", f)
		}
	})
	again, err := s.Encode()
	if err != nil || !bytes.Equal(again, wire) || !bytes.Equal(buf, wire) {
		c.Fail("wire", "%v encoded again gives something else (%v)", f, err)
	}
}

func dirty(n int, s *status.Status) {
	switch n {
	case 1:
		s.Decode(frame{hdr: h.Header("status", "descriptor", "d64", "reqtstamp", "yes"), session: 1, typ: "posix64_32", sec: 1 << 34, nsec: 1, prog: 1 << 40, resp: 1 << 41, holes: []holes.Hole{{Start: 1, End: 2}, {Start: 3, End: 4}, {Start: 5, End: 6}}}.wire())
	case 2:
		s.Decode(frame{hdr: h.Header("status", "descriptor", "d16", "errcode", "badpacket"), session: 2, prog: 9}.wire())
	case 3:
		s.Decode([]byte{0x24, 0xc0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6})
	}
}

var clocks = []time.Time{time.Unix(1700000000, 123456789), time.Unix(h.Epoch2000, 0), time.Unix(1<<32-1, 999999999)}

// the bounds that matter for a width, and one beyond
var bounds = []int{0, 1, 255, 256, 65535, 65536, math.MaxInt32, 1<<32 - 1, 1 << 32, 0x0102030405060708, math.MaxInt}
var nums = []uint64{0, 1, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 0x0102030405060708, 1<<63 + 1, 1<<64 - 1}

func flags(c *mc.Ctx) {
	desc := mc.Of(c, "descriptor", []string{"d16", "d32", "d64", "d128"})
	req := mc.Of(c, "timestamp", append([]string{"", "reqtstamp=no", "reqtstamp=yes"}, h.TsTypes...))
	bits := c.Pick("bits", 27)
	errc := mc.Of(c, "errcode", h.F("errcode").Opts).Name
	fl := "descriptor=" + desc + ",errcode=" + errc
	hdr := h.Header("status", "descriptor", desc, "errcode", errc)
	for _, n := range []string{"metadatarecvd", "allholes", "reqholes"} {
		if v := bits % 3; v > 0 {
			fl += ", " + n + "=" + h.F(n).Opts[v-1].Name
			hdr = h.F(n).Put(32, hdr, uint32(v-1))
		}
		bits /= 3
	}
	typ := req
	if req == "reqtstamp=yes" {
		typ = "posix32"
	}
	if req != "" {
		fl = req + "," + fl
	}
	if typ != "" && typ != "reqtstamp=no" {
		hdr = h.F("reqtstamp").Put(32, hdr, 1)
	}
	for i, clk := range append(clocks, time.Unix(1<<32+7, 1)) {
		vtime.Clock = clk
		f := frame{hdr: hdr, session: 0x01020304, typ: typ, sec: clk.Unix(), nsec: uint32(clk.Nanosecond()), prog: 500, resp: 77, holes: []holes.Hole{{Start: 0, End: 10}, {Start: 20, End: 21}, {Start: 30, End: 400}}[:i%3]}
		callers := append(holes.Holes(nil), f.holes...)
		var s, e status.Status
		var err error
		c.Must("New", func() {
			err = s.New(fl, &status.Sinfo{Session: f.session, Progress: f.prog, Inrespto: f.resp, Holes: callers})
		})
		c.Op(1)
		if _, _, ok := h.Ts(typ, clk.Unix(), 0); !ok {
			if err == nil {
				c.Fail("new", "flags %q at %d: a timestamp that does not fit is made", fl, clk.Unix())
			}
			continue
		}
		if err != nil {
			c.Fail("new", "flags %q: %v", fl, err)
		}
		f.carry(c, &s, &e, callers, i == 0)
	}
}

func values(c *mc.Ctx) {
	desc := mc.Of(c, "descriptor", []string{"d16", "d32", "d64"})
	prog := mc.Of(c, "progress", nums)
	resp := mc.Of(c, "inrespto", nums)
	pre := c.Pick("before", 4)
	ts := c.Bool("tstamp")
	vtime.Clock = clocks[0]
	lists := [][]holes.Hole{nil, {{Start: 0, End: 1}}, {{Start: 5, End: 9}, {Start: 9, End: 65535}}}
	for _, a := range bounds {
		for _, b := range bounds {
			lists = append(lists, []holes.Hole{{Start: a, End: b}})
		}
	}
	for k := 0; k < len(bounds); k++ {
		// a wide bound in each place of a list
		l := []holes.Hole{{Start: 0, End: 1}, {Start: 2, End: 3}, {Start: 4, End: 5}}
		l[k%3].End = bounds[k]
		l[(k+1)%3].Start = bounds[k]
		lists = append(lists, l)
	}
	for i, l := range lists {
		hdr := h.Header("status", "descriptor", desc)
		if ts {
			hdr = h.F("reqtstamp").Put(32, hdr, 1)
		}
		f := frame{hdr: hdr, session: 0xfffffffe, typ: "posix32", sec: 1700000000, prog: prog, resp: resp, holes: l}
		callers := append(holes.Holes(nil), l...)
		var s, e status.Status
		dirty(pre, &s)
		dirty((pre+1)%4, &e)
		var err error
		info := &status.Sinfo{Session: f.session, Progress: prog, Inrespto: resp, Holes: callers}
		c.Must("Make", func() { err = s.Make(hdr, info) })
		c.Op(1)
		if err != nil {
			c.Fail("make", "%v: %v", f, err)
		}
		f.carry(c, &s, &e, callers, i < 2)
	}
}

// every number of ranges up to what a datagram can carry
func counts(c *mc.Ctx) {
	desc := mc.Of(c, "descriptor", []string{"d16", "d32", "d64"})
	ts := c.Bool("tstamp")
	blk := c.Pick("block", 24)
	vtime.Clock = clocks[0]
	hdr := h.Header("status", "descriptor", desc)
	if ts {
		hdr = h.F("reqtstamp").Put(32, hdr, 1)
	}
	for n := blk * 32; n < blk*32+32; n++ {
		var l []holes.Hole
		for i := 0; i < n; i++ {
			l = append(l, holes.Hole{Start: i * 80, End: i*80 + 1 + i%50})
		}
		f := frame{hdr: hdr, session: 1, typ: "posix32", sec: 1700000000, prog: 60000, resp: 60001, holes: l}
		callers := append(holes.Holes(nil), l...)
		var s, e status.Status
		if err := s.Make(hdr, &status.Sinfo{Session: 1, Progress: 60000, Inrespto: 60001, Holes: callers}); err != nil {
			c.Fail("make", "%v: %v", f, err)
		}
		c.Op(1)
		f.carry(c, &s, &e, callers, false)
	}
}

// every number near a power of two, in each place of the frame
func powers(c *mc.Ctx) {
	desc := mc.Of(c, "descriptor", []string{"d16", "d32", "d64"})
	v := mc.Of(c, "value", h.Powers(64))
	vtime.Clock = clocks[0]
	for _, ts := range []uint32{0, 1} {
		hdr := h.F("reqtstamp").Put(32, h.Header("status", "descriptor", desc), ts)
		for place := 0; place < 8; place++ {
			f := frame{hdr: hdr, session: 1, typ: "posix32", sec: 1700000000, prog: 60, resp: 61, holes: []holes.Hole{{Start: 1, End: 2}, {Start: 3, End: 4}}}
			if place >= 3 && v > math.MaxInt {
				continue
			}
			switch place {
			case 0:
				f.session = uint32(v)
			case 1:
				f.prog = v
			case 2:
				f.resp = v
			case 3:
				f.holes[0].Start = int(v)
			case 4:
				f.holes[0].End = int(v)
			case 5:
				f.holes[1].Start = int(v)
			case 6:
				f.holes[1].End = int(v)
			case 7:
				f.prog, f.resp, f.holes[1].End, f.holes[1].Start = v, v, int(v), int(v)
			}
			callers := append(holes.Holes(nil), f.holes...)
			var s, e status.Status
			if err := s.Make(hdr, &status.Sinfo{Session: f.session, Progress: f.prog, Inrespto: f.resp, Holes: callers}); err != nil {
				c.Fail("make", "%v: %v", f, err)
			}
			c.Op(1)
			f.carry(c, &s, &e, callers, false)
		}
	}
}

// many frames at once: none of them changes another
func together(c *mc.Ctx) {
	desc := mc.Of(c, "descriptor", []string{"d16", "d32", "d64"})
	ts := uint32(c.Pick("tstamp", 2))
	order := c.Pick("order", 3)
	vtime.Clock = clocks[0]
	keep = new(h.Keep)
	defer func() { keep = nil }()
	hdr := h.F("reqtstamp").Put(32, h.Header("status", "descriptor", desc), ts)
	const n = 300
	for i := 0; i < n; i++ {
		k := []int{i, n - 1 - i, i * 7 % n}[order]
		f := frame{hdr: hdr, session: uint32(k / 5), typ: "posix32", sec: 1700000000, prog: uint64(k / 3), resp: uint64(k / 2)}
		for j := 0; j < []int{k % 60, 0, 1, 3}[k%4]; j++ {
			f.holes = append(f.holes, holes.Hole{Start: 50*j + k%7, End: 50*j + 10 + i%11})
		}
		callers := append(holes.Holes(nil), f.holes...)
		var s, e status.Status
		if err := s.Make(hdr, &status.Sinfo{Session: f.session, Progress: f.prog, Inrespto: f.resp, Holes: callers}); err != nil {
			c.Fail("make", "%v: %v", f, err)
		}
		c.Op(1)
		f.carry(c, &s, &e, callers, false)
	}
	keep.Check()
}

func headers(c *mc.Ctx) {
	desc := c.Pick("descriptor", 4)
	errc := uint32(c.Pick("errcode", 256))
	vtime.Clock = clocks[0]
	base := h.F("errcode").Put(32, h.F("descriptor").Put(32, h.Header("status"), uint32(desc)), errc)
	for bit := -1; bit < 32; bit++ {
		w := base
		if bit >= 0 {
			if (h.F("version").Mask(32)|h.F("frametype").Mask(32)|h.F("descriptor").Mask(32))>>bit&1 == 1 {
				continue
			}
			w ^= 1 << bit
		}
		for _, in := range []uint32{w, w ^ 0xff000000} {
			f := frame{hdr: w, session: 5, typ: "posix32", sec: 1700000000, prog: 7, resp: 8, holes: []holes.Hole{{Start: 1, End: 2}}}
			callers := append(holes.Holes(nil), f.holes...)
			var s, e status.Status
			var err error
			c.Must("Make", func() {
				err = s.Make(in, &status.Sinfo{Session: 5, Progress: 7, Inrespto: 8, Holes: callers})
			})
			if err != nil {
				c.Fail("make", "header %08x: %v", in, err)
			}
			f.carry(c, &s, &e, callers, false)
		}
	}
}

// negative bounds are no offsets
func negative(c *mc.Ctx) {
	desc := mc.Of(c, "descriptor", []string{"d16", "d32", "d64"})
	x := mc.Of(c, "hole", []holes.Hole{{Start: -1, End: 4}, {Start: 0, End: -1}, {Start: math.MinInt, End: 0}})
	var s status.Status
	if err := s.Make(h.Header("status", "descriptor", desc), &status.Sinfo{Session: 1, Holes: holes.Holes{x}}); err != nil {
		return
	}
	var err error
	c.Must("Encode", func() { _, err = s.Encode() })
	c.Op(2)
	if err == nil {
		c.Fail("unfit", "the range %v is encoded in %s", x, desc)
	}
}

// one value used for several frames: each comes out as from a fresh value, and the frames
// handed on before stay as they were
func rebuild(c *mc.Ctx) {
	type build struct {
		req, desc string
		n         int
		make      bool
	}
	builds := []build{{"reqtstamp=no", "d16", 0, false}, {"posix32", "d32", 3, false}, {"posix64_32", "d64", 1, false}, {"reqtstamp=yes", "d32", 5, false}, {"epoch2000_32", "d16", 2, false},
		{"reqtstamp=no", "d64", 5, true}, {"reqtstamp=yes", "d32", 2, true}, {"", "", 4, false} /* refused */, {"bad", "", 5, false}}
	var s, e status.Status
	type held struct {
		f frame
		p status.Status
		b []byte
	}
	var before []held
	for k := 0; k < 3; k++ {
		x := mc.Of(c, "build", builds)
		clk := time.Unix(1700000000+int64(k)*1000, int64(k)*777)
		vtime.Clock = clk
		typ := x.req
		if typ == "reqtstamp=yes" {
			typ = "posix32"
		}
		var hl, callers holes.Holes
		for i := 0; i < x.n; i++ {
			hl = append(hl, holes.Hole{Start: 1000*k + 20*i, End: 1000*k + 20*i + 5})
		}
		callers = append(callers, hl...)
		info := &status.Sinfo{Session: uint32(100 + k), Progress: uint64(1000 + k), Inrespto: uint64(2000 + k), Holes: callers}
		switch x.req {
		case "":
			s.Decode([]byte{0x24, 0xc0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6})
		case "bad":
			s.New("descriptor=d32,errcode=maybe", info)
		default:
			f := frame{hdr: h.Header("status", "descriptor", x.desc, "errcode", "badpacket", "allholes", "no", "reqholes", "requested", "metadatarecvd", "no"), session: info.Session, typ: typ, sec: clk.Unix(), nsec: uint32(clk.Nanosecond()), prog: info.Progress, resp: info.Inrespto, holes: hl}
			if x.req != "reqtstamp=no" {
				f.hdr = h.F("reqtstamp").Put(32, f.hdr, 1)
			}
			var err error
			if x.make {
				c.Must("Make", func() { err = s.Make(f.hdr, info) })
			} else {
				c.Must("New", func() {
					err = s.New(x.req+",descriptor="+x.desc+",errcode=badpacket,allholes=no,reqholes=requested,metadatarecvd=no", info)
				})
			}
			c.Op(1)
			if err != nil {
				c.Fail("new", "frame %d, %v: %v", k, f, err)
			}
			hd := held{f: f, p: s.Val(&vnet.UDPAddr{IP: vnet.IP{1, 2, 3, 4}, Port: 5}).Info}
			if hd.b, err = s.Encode(); err != nil {
				c.Fail("encode", "frame %d, %v: %v", k, f, err)
			}
			f.carry(c, &s, &e, callers, false)
			if err = e.Decode(f.wire()); err != nil {
				c.Fail("decode", "frame %d, %v: %v", k, f, err)
			}
			before = append(before, hd, held{f: f, p: e.Val(&vnet.UDPAddr{IP: vnet.IP{1, 2, 3, 4}, Port: 5}).Info, b: hd.b}, held{f: f, p: s.Values(), b: hd.b})
			if k == 1 { // the receiver's value is used to build the next one
				s, e = e, s
			}
		}
		for _, b := range before {
			b.f.holds(c, "handed on before the value was re-used", &b.p)
			if !bytes.Equal(b.b, b.f.wire()) {
				c.Fail("alias", "%v: re-using the frame changes its encoded bytes", b.f)
			}
		}
	}
}

func bad(c *mc.Ctx) {
	fl := mc.Of(c, "flags", []string{"bogus=1", "descriptor=d8", "eod=yes", "errcode=none", "descriptor=d32,reqtstamp=never", "reqstatus=yes", "transfer=file"})
	var s status.Status
	var err error
	c.Must("New", func() { err = s.New(fl, &status.Sinfo{Session: 1}) })
	c.Op(1)
	if err == nil {
		c.Fail("bad-flags", "flags %q are accepted: header %08x", fl, s.Header)
	}
}

func main() {
	mc.Main(&mc.Check{ID: "C02", Setup: h.Setup,
		Assume: []string{"the clock is the virtual clock of the check"},
		Scenarios: []mc.Scenario{
			{Name: "flags", Bounds: "every combination of descriptor, timestamp request or type, metadata, all-holes and requested flags and all 19 error codes x 0..2 ranges", Run: flags},
			{Name: "values", Bounds: "3 widths x 11 x 11 progress and in-response-to values x 4 earlier contents x timestamp x 135 range lists incl. all pairs of 11 bounds", Run: values},
			{Name: "counts", Bounds: "3 widths x timestamp x every number of ranges 0..767", Run: counts},
			{Name: "powers", Bounds: "3 widths x timestamp x every number within 1 of a power of two in each of the 7 places of a frame", Run: powers},
			{Name: "rebuild", Bounds: "every sequence of 3 builds (9 ways, two of them refused) of one value, all frames handed on looked at again after each", Run: rebuild},
			{Name: "together", Bounds: "3 widths x timestamp x 3 orders of 300 frames that are all looked at again at the end", Run: together},
			{Name: "headers", Bounds: "every descriptor and error code value x every single other bit", Run: headers},
			{Name: "negative", Bounds: "3 ranges with negative bounds x 3 widths", Run: negative},
			{Name: "bad-flags", Bounds: "7 undefined flag lists", Run: bad},
		}})
}
