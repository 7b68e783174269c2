// C01: data frames survive the wire unchanged.
package main

import (
	"bytes"
	"fmt"
	"reflect"
	"time"

	"github.com/charlesetsmith/saratoga/data"

	"verif/checks/h"
	"verif/mc"
	"verif/vnet"
	"verif/vtime"
)

var descs = []string{"d16", "d32", "d64"}
var offsets = []uint64{0, 1, 255, 256, 0x1234, 65535, 65536, 65537, 0x12345678, 1<<32 - 1, 1 << 32, 0x0102030405060708, 1<<63 - 1, 1 << 63, 1<<64 - 1}
var sessions = []uint32{0, 1, 0x01020304, 0x80000000, 0xffffffff}

const maxPay = 65507

var pattern = func() []byte {
	b := make([]byte, 1<<17+8)
	for i := range b {
		b[i] = byte(i*7 + i>>8 + 1)
	}
	return b
}()

// what the frame must be on the wire, nil if it cannot be carried
func want(hdr uint32, session uint32, typ string, sec int64, nsec uint32, off uint64, pay []byte) []byte {
	b := h.U(nil, 4, uint64(hdr))
	b = h.U(b, 4, uint64(session))
	if h.Is(hdr, "reqtstamp", "yes") {
		ts, _, _ := h.Ts(typ, sec, nsec)
		b = append(b, ts...)
	}
	w := h.Width(h.Desc(hdr))
	if w == 0 || !h.Fits(off, w) {
		return nil
	}
	b = h.U(b, w, off)
	return append(b, pay...)
}

var keep *h.Keep

type frame struct {
	hdr, session uint32
	typ          string
	sec          int64
	nsec         uint32
	off          uint64
	pay          []byte
}

func (f frame) String() string {
	return fmt.Sprintf("header %08x session %d %s@%d.%09d offset %d, %d bytes", f.hdr, f.session, f.typ, f.sec, f.nsec, f.off, len(f.pay))
}

// holds checks a data value against what was sent.
func (f frame) holds(c *mc.Ctx, what string, d *data.Data) {
	if d.Header != f.hdr || d.Session != f.session || d.Offset != f.off || !bytes.Equal(d.Payload, f.pay) {
		c.Fail("content", "%s: %v becomes header %08x session %d offset %d, %d bytes (same payload: %v)", what, f, d.Header, d.Session, d.Offset, len(d.Payload), bytes.Equal(d.Payload, f.pay))
	}
	if h.Is(f.hdr, "reqtstamp", "yes") {
		ts, _, _ := h.Ts(f.typ, f.sec, f.nsec)
		if g := d.Tstamp.Put(); !bytes.Equal(g, ts) {
			c.Fail("tstamp", "%s: %v has timestamp %x, want %x", what, f, g, ts)
		}
	}
}

// carry encodes d, decodes it into e, and checks both and their independence.
func (f frame) carry(c *mc.Ctx, d, e *data.Data, callers []byte) {
	f.holds(c, "built", d)
	var buf []byte
	var err error
	c.Must("Encode", func() { buf, err = d.Encode() })
	c.Op(1)
	wire := want(f.hdr, f.session, f.typ, f.sec, f.nsec, f.off, f.pay)
	if f.off&1 == 0 && len(wire) <= maxPay { // as far as the network can carry it
		h.Send(c, f.String(), wire, false, func(conn *vnet.UDPConn, to *vnet.UDPAddr) error { return d.Send(conn, to) })
	}
	if wire == nil {
		if err == nil {
			c.Fail("unfit", "%v is encoded, to %x...", f, buf[:min(len(buf), 40)])
		}
		return
	}
	if err != nil {
		c.Fail("encode", "%v cannot be encoded: %v", f, err)
	}
	if !bytes.Equal(buf, wire) {
		c.Fail("wire", "%v is encoded to %x.. (%d bytes), want %x.. (%d bytes)", f, buf[:min(len(buf), 48)], len(buf), wire[:min(len(wire), 48)], len(wire))
	}
	f.holds(c, "after encoding", d)
	// re-use of the payload buffer or of the frame does not change the bytes or the other
	if len(callers) > 0 {
		callers[0] ^= 0xff
		callers[len(callers)-1] ^= 0x0f
		f.holds(c, "after re-use of the payload buffer", d)
		if !bytes.Equal(buf, wire) {
			c.Fail("alias", "%v: re-using the payload buffer changes the encoded frame", f)
		}
	}
	again, err := d.Encode()
	if err != nil || !bytes.Equal(again, wire) {
		c.Fail("wire", "%v encoded again gives something else (%v)", f, err)
	}
	if len(d.Payload) > 0 {
		d.Payload[0] ^= 0x55
		if !bytes.Equal(buf, wire) {
			c.Fail("alias", "%v: re-using the frame changes its encoded bytes", f)
		}
		d.Payload[0] ^= 0x55
	}
	for i := range again {
		again[i] = 0xdd
	}
	f.holds(c, "after re-use of the encoded bytes", d)
	if !bytes.Equal(buf, wire) {
		c.Fail("alias", "%v: two encodings share memory", f)
	}
	// the receive buffer is larger and holds something else behind the frame
	rx := make([]byte, len(buf)+40)
	for i := range rx {
		rx[i] = 0xe7
	}
	copy(rx, buf)
	c.Must("Decode", func() { err = e.Decode(rx[:len(buf)]) })
	c.Op(3)
	if err != nil {
		c.Fail("decode", "%v cannot be decoded: %v", f, err)
	}
	f.holds(c, "decoded", e)
	var fresh data.Data
	if err = fresh.Decode(buf); err != nil || !reflect.DeepEqual(fresh, *e) {
		c.Fail("history", "%v: decoded into a used value gives %.300s, into a fresh one %.300s", f, fmt.Sprintf("%+v", *e), fmt.Sprintf("%+v", fresh))
	}
	got := *e
	for i := range rx {
		rx[i] ^= 0xa5
	}
	f.holds(c, "after re-use of the receive buffer", e)
	// the decoded value can be used for the next frame
	var small []byte
	small = want(h.Header("data", "descriptor", "d16"), 9, "", 0, 0, 3, []byte("zz"))
	if err = e.Decode(small); err != nil {
		c.Fail("decode", "small frame cannot be decoded: %v", err)
	}
	f.holds(c, "after re-use of the decoded value", &got)
	keep.Later(func() {
		f.holds(c, "after later frames were decoded", &got)
		if !bytes.Equal(buf, wire) {
			c.Fail("alias", "%v: later frames change its encoded bytes", f)
		}
	})
	frame{hdr: h.Header("data", "descriptor", "d16"), session: 9, off: 3, pay: []byte("zz")}.holds(c, "second frame", e)
}

// dirty gives a value that was used before.
func dirty(c *mc.Ctx, n int, d *data.Data) {
	switch n {
	case 1:
		d.Decode(want(h.Header("data", "descriptor", "d64", "reqtstamp", "yes"), 77, "posix64_32", 1<<33, 5, 1<<40, pattern[:200]))
	case 2:
		d.Decode(want(h.Header("data", "descriptor", "d32"), 78, "", 0, 0, 1<<20, nil))
	case 3:
		d.Decode(want(h.Header("data", "descriptor", "d16", "reqtstamp", "yes"), 79, "localinterp", 0, 0, 1<<10, pattern[:1]))
	case 4:
		d.Decode([]byte{0x23, 0xc0, 0, 0, 0, 0, 0, 9, 1, 2, 3, 4}) // refused
	}
}

const nDirty = 5

// beyond what 32 bit seconds from 1970 can hold
var late = time.Unix(1<<32+7, 1)

var clocks = []time.Time{time.Unix(1700000000, 123456789), time.Unix(h.Epoch2000, 0), time.Unix(1<<32-1, 999999999)}

func flags(c *mc.Ctx) {
	desc := mc.Of(c, "descriptor", append(descs, "d128"))
	req := mc.Of(c, "reqtstamp", append([]string{"", "no", "yes"}, h.TsTypes...))
	eod := mc.Of(c, "eod", []string{"", "no", "yes"})
	st := mc.Of(c, "reqstatus", []string{"", "no", "yes"})
	tr := mc.Of(c, "transfer", []string{"", "file", "directory", "stream"})
	n := c.Pick("payload", 4)
	for _, clk := range append(clocks, late) {
		vtime.Clock = clk
		for pos := 0; pos < 2; pos++ { // order of the flags
			fl := "version=v1,descriptor=" + desc
			add := func(k, v string) {
				if v == "" {
					return
				}
				if pos == 0 {
					fl += "," + k + "=" + v
				} else {
					fl = k + "=" + v + " , " + fl
				}
			}
			add("reqtstamp", req)
			add("eod", eod)
			add("reqstatus", st)
			add("transfer", tr)
			hdr := h.Header("data", "descriptor", desc)
			typ := req
			if req == "yes" {
				typ = "posix32"
			}
			if typ != "" && typ != "no" {
				hdr = h.F("reqtstamp").Put(32, hdr, 1)
			}
			for _, kv := range [][2]string{{"eod", eod}, {"reqstatus", st}, {"transfer", tr}} {
				if kv[1] != "" {
					hdr = h.F(kv[0]).Put(32, hdr, h.F(kv[0]).Value(kv[1]))
				}
			}
			f := frame{hdr: hdr, session: 0x01020304, typ: typ, sec: clk.Unix(), nsec: uint32(clk.Nanosecond()), off: 0xfedc, pay: pattern[:[]int{0, 1, 17, 1400}[n]]}
			callers := append([]byte(nil), f.pay...)
			var d, e data.Data
			var err error
			c.Must("New", func() { err = d.New(fl, &data.Dinfo{Session: f.session, Offset: f.off, Payload: callers}) })
			c.Op(1)
			if _, _, ok := h.Ts(typ, clk.Unix(), 0); !ok {
				if err == nil {
					c.Fail("new", "flags %q at %d: a timestamp that does not fit is made", fl, clk.Unix())
				}
				continue
			}
			if err != nil {
				c.Fail("new", "flags %q: %v", fl, err)
			}
			f.carry(c, &d, &e, callers)
		}
	}
}

func values(c *mc.Ctx) {
	desc := mc.Of(c, "descriptor", descs)
	off := mc.Of(c, "offset", offsets)
	ts := c.Bool("tstamp")
	pre := c.Pick("before", nDirty)
	lens := []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 18, 1372, 1400, 1440, 255, 256, 257, 511, 4095, 4096, 8192, 65000, maxPay - 32, 65535, 65536, 65537, 1 << 17}
	vtime.Clock = clocks[0]
	for _, session := range sessions {
		for _, n := range lens {
			if n > 9000 && session != sessions[2] {
				continue
			}
			hdr := h.Header("data", "descriptor", desc)
			if ts {
				hdr = h.F("reqtstamp").Put(32, hdr, 1)
			}
			f := frame{hdr: hdr, session: session, typ: "posix32", sec: 1700000000, off: off, pay: pattern[n%5 : n%5+n]}
			callers := append(make([]byte, 0, n+8), f.pay...)
			var d, e data.Data
			dirty(c, pre, &d)
			dirty(c, (pre+1)%nDirty, &e)
			var err error
			c.Must("Make", func() { err = d.Make(hdr, &data.Dinfo{Session: session, Offset: off, Payload: callers}) })
			c.Op(1)
			if err != nil {
				c.Fail("make", "%v: %v", f, err)
			}
			f.carry(c, &d, &e, callers)
		}
	}
}

// every payload length
func lengths(c *mc.Ctx) {
	desc := mc.Of(c, "descriptor", descs)
	ts := c.Bool("tstamp")
	blk := c.Pick("block", 24)
	vtime.Clock = clocks[0]
	for n := blk * 64; n < blk*64+64; n++ {
		hdr := h.Header("data", "descriptor", desc)
		if ts {
			hdr = h.F("reqtstamp").Put(32, hdr, 1)
		}
		f := frame{hdr: hdr, session: uint32(n), typ: "posix32", sec: 1700000000, off: uint64(n), pay: pattern[n%3 : n%3+n]}
		callers := append(make([]byte, 0, n+8), f.pay...)
		var d, e data.Data
		if err := d.Make(hdr, &data.Dinfo{Session: f.session, Offset: f.off, Payload: callers}); err != nil {
			c.Fail("make", "%v: %v", f, err)
		}
		f.carry(c, &d, &e, callers)
	}
}

// every offset near a power of two
func powers(c *mc.Ctx) {
	desc := mc.Of(c, "descriptor", descs)
	off := mc.Of(c, "offset", h.Powers(64))
	vtime.Clock = clocks[0]
	for _, ts := range []uint32{0, 1} {
		for _, session := range h.Powers(31) {
			f := frame{hdr: h.F("reqtstamp").Put(32, h.Header("data", "descriptor", desc), ts), session: uint32(session), typ: "posix32", sec: 1700000000, off: off, pay: pattern[:3]}
			callers := append([]byte(nil), f.pay...)
			var d, e data.Data
			if err := d.Make(f.hdr, &data.Dinfo{Session: f.session, Offset: f.off, Payload: callers}); err != nil {
				c.Fail("make", "%v: %v", f, err)
			}
			f.carry(c, &d, &e, callers)
		}
	}
}

// every payload of up to two bytes, and payloads of one byte value of any length
func contents(c *mc.Ctx) {
	a := c.Pick("first", 256)
	vtime.Clock = clocks[0]
	try := func(hdr uint32, pay []byte) {
		f := frame{hdr: hdr, session: 5, typ: "posix32", sec: 1700000000, off: 65535, pay: pay}
		callers := append([]byte(nil), f.pay...)
		var d, e data.Data
		if err := d.Make(f.hdr, &data.Dinfo{Session: f.session, Offset: f.off, Payload: callers}); err != nil {
			c.Fail("make", "%v: %v", f, err)
		}
		f.carry(c, &d, &e, callers)
	}
	for _, desc := range descs {
		for _, ts := range []uint32{0, 1} {
			hdr := h.F("reqtstamp").Put(32, h.Header("data", "descriptor", desc), ts)
			try(hdr, []byte{byte(a)})
			for b := 0; b < 256; b++ {
				try(hdr, []byte{byte(a), byte(b)})
			}
			for _, n := range []int{3, 4, 8, 16, 100, 1400} {
				try(hdr, bytes.Repeat([]byte{byte(a)}, n))
				try(hdr, append(append([]byte("x"), bytes.Repeat([]byte{byte(a)}, n)...), 'y'))
			}
		}
	}
}

// many frames at once: none of them changes another
func together(c *mc.Ctx) {
	desc := mc.Of(c, "descriptor", descs)
	ts := uint32(c.Pick("tstamp", 2))
	order := c.Pick("order", 4)
	vtime.Clock = clocks[0]
	keep = new(h.Keep)
	defer func() { keep = nil }()
	hdr := h.F("reqtstamp").Put(32, h.Header("data", "descriptor", desc), ts)
	const n = 300
	for i := 0; i < n; i++ {
		k := i
		switch order {
		case 1:
			k = n - 1 - i
		case 2:
			k = i * 7 % n
		case 3:
			k = i / 2
		}
		ln := []int{k, 1400 - k, k % 3, 64}[k%4]
		f := frame{hdr: hdr, session: uint32(k / 5), typ: "posix32", sec: 1700000000, off: uint64(k / 3 * 100), pay: pattern[i : i+ln]}
		callers := append([]byte(nil), f.pay...)
		var d, e data.Data
		if err := d.Make(f.hdr, &data.Dinfo{Session: f.session, Offset: f.off, Payload: callers}); err != nil {
			c.Fail("make", "%v: %v", f, err)
		}
		f.carry(c, &d, &e, callers)
	}
	keep.Check()
}

// every header: all values of the data flags, and every single reserved bit
func headers(c *mc.Ctx) {
	desc := c.Pick("descriptor", 4)
	tr := c.Pick("transfer", 4)
	rest := c.Pick("flags", 8)
	hdr := h.Header("data")
	hdr = h.F("descriptor").Put(32, hdr, uint32(desc))
	hdr = h.F("transfer").Put(32, hdr, uint32(tr))
	hdr = h.F("reqtstamp").Put(32, hdr, uint32(rest&1))
	hdr = h.F("eod").Put(32, hdr, uint32(rest>>1&1))
	hdr = h.F("reqstatus").Put(32, hdr, uint32(rest>>2&1))
	vtime.Clock = clocks[0]
	for bit := -1; bit < 32; bit++ {
		w := hdr
		if bit >= 0 {
			if (h.F("version").Mask(32)|h.F("frametype").Mask(32)|h.F("descriptor").Mask(32)|h.F("reqtstamp").Mask(32))>>bit&1 == 1 {
				continue
			}
			w ^= 1 << bit
		}
		for _, in := range []uint32{w, w ^ 0xff000000} { // the version and type are put right
			for _, off := range []uint64{1000, 1<<16 - 1, 1 << 16, 1<<32 - 1, 1 << 32, 1<<64 - 1} {
				f := frame{hdr: w, session: 5, typ: "posix32", sec: 1700000000, off: off, pay: pattern[:20]}
				callers := append([]byte(nil), f.pay...)
				var d, e data.Data
				var err error
				c.Must("Make", func() { err = d.Make(in, &data.Dinfo{Session: 5, Offset: off, Payload: callers}) })
				if err != nil {
					c.Fail("make", "header %08x: %v", in, err)
				}
				f.carry(c, &d, &e, callers)
			}
		}
	}
}

// one value used for several frames: each comes out as from a fresh value, and the frames
// handed on before stay as they were
func rebuild(c *mc.Ctx) {
	type build struct {
		req, desc string
		ln        int
		make      bool
	}
	builds := []build{{"no", "d16", 0, false}, {"posix32", "d32", 30, false}, {"posix64_32", "d64", 7, false}, {"yes", "d32", 64, false}, {"epoch2000_32", "d16", 12, false},
		{"no", "d64", 64, true}, {"yes", "d32", 31, true}, {"", "", 9, false} /* refused */, {"bad", "", 5, false}}
	var d, e data.Data
	type held struct {
		f frame
		p data.Data
		b []byte
		w []byte
	}
	var before []held
	for k := 0; k < 3; k++ {
		x := mc.Of(c, "build", builds)
		clk := time.Unix(1700000000+int64(k)*1000, int64(k)*777)
		vtime.Clock = clk
		typ := x.req
		if typ == "yes" {
			typ = "posix32"
		}
		pay := bytes.Repeat([]byte{byte(0x10 + k)}, x.ln)
		info := &data.Dinfo{Session: uint32(100 + k), Offset: uint64(1000 + k), Payload: pay}
		switch x.req {
		case "": // a frame that cannot be decoded
			d.Decode([]byte{0x23, 0xc0, 0, 0, 0, 0, 0, 9, 1, 2, 3, 4})
		case "bad":
			d.New("descriptor=d32,eod=maybe", info)
		default:
			f := frame{hdr: h.Header("data", "descriptor", x.desc, "transfer", "file", "eod", "yes", "reqstatus", "no"), session: info.Session, typ: typ, sec: clk.Unix(), nsec: uint32(clk.Nanosecond()), off: info.Offset, pay: bytes.Clone(pay)}
			if x.req != "no" {
				f.hdr = h.F("reqtstamp").Put(32, f.hdr, 1)
			}
			var err error
			if x.make {
				c.Must("Make", func() { err = d.Make(f.hdr, info) })
			} else {
				c.Must("New", func() {
					err = d.New("version=v1,descriptor="+x.desc+",transfer=file,eod=yes,reqstatus=no,reqtstamp="+x.req, info)
				})
			}
			c.Op(1)
			if err != nil {
				c.Fail("new", "frame %d, %v: %v", k, f, err)
			}
			hd := held{f: f, p: d.Val(&vnet.UDPAddr{IP: vnet.IP{1, 2, 3, 4}, Port: 5}).Info}
			if hd.b, err = d.Encode(); err != nil {
				c.Fail("encode", "frame %d, %v: %v", k, f, err)
			}
			hd.w = want(f.hdr, f.session, f.typ, f.sec, f.nsec, f.off, f.pay)
			f.carry(c, &d, &e, pay)
			if err = e.Decode(hd.w); err != nil {
				c.Fail("decode", "frame %d, %v: %v", k, f, err)
			}
			before = append(before, hd, held{f: f, p: e.Val(&vnet.UDPAddr{IP: vnet.IP{1, 2, 3, 4}, Port: 5}).Info, b: hd.b, w: hd.w})
			if k == 1 { // the receiver's value is used to build the next one
				d, e = e, d
			}
		}
		for _, b := range before {
			b.f.holds(c, "handed on before the value was re-used", &b.p)
			if !bytes.Equal(b.b, b.w) {
				c.Fail("alias", "%v: re-using the frame changes its encoded bytes", b.f)
			}
		}
	}
}

// bad flags are refused
func bad(c *mc.Ctx) {
	fl := mc.Of(c, "flags", []string{"bogus=1", "descriptor=d8", "transfer=bundle", "reqtstamp=posix", "eod=maybe", "errcode=success", "descriptor=d32,reqtstamp=never", "stream=yes"})
	var d data.Data
	var err error
	c.Must("New", func() { err = d.New(fl, &data.Dinfo{Session: 1, Offset: 2, Payload: []byte("x")}) })
	c.Op(1)
	if err == nil {
		c.Fail("bad-flags", "flags %q are accepted: header %08x", fl, d.Header)
	}
}

func main() {
	mc.Main(&mc.Check{ID: "C01", Setup: h.Setup,
		Assume: []string{"payloads of up to 65475 bytes (one datagram)", "the clock is the virtual clock of the check"},
		Scenarios: []mc.Scenario{
			{Name: "flags", Bounds: "every combination of descriptor, timestamp type, end-of-data, status request and transfer type x 4 payload lengths x 4 instants (one beyond 32 bit seconds) x 2 flag orders", Run: flags},
			{Name: "values", Bounds: "3 widths x 15 offsets x timestamp x 5 earlier contents x 5 sessions x 27 payload lengths up to twice a full datagram", Run: values},
			{Name: "powers", Bounds: "3 widths x timestamp x every offset and session within 1 of a power of two", Run: powers},
			{Name: "contents", Bounds: "3 widths x timestamp x every payload of 1 and 2 bytes, every byte value repeated 3 to 1400 times", Run: contents},
			{Name: "rebuild", Bounds: "every sequence of 3 builds (9 ways, two of them refused) of one value, all frames handed on looked at again after each", Run: rebuild},
			{Name: "together", Bounds: "3 widths x timestamp x 4 orders of 300 frames (equal sessions and offsets, lengths 0..1400) whose encodings and decoded values are all looked at again at the end", Run: together},
			{Name: "lengths", Bounds: "3 widths x timestamp x every payload length 0..1535", Run: lengths},
			{Name: "headers", Bounds: "every value of the data flags x every single other bit x 6 offsets around the limits of the widths", Run: headers},
			{Name: "bad-flags", Bounds: "8 undefined flag lists", Run: bad},
		}})
}
