// C04: requests carry file name and credentials unchanged.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/charlesetsmith/saratoga/request"

	"verif/checks/h"
	"verif/mc"
	"verif/vnet"
)

var keep *h.Keep

type frame struct {
	hdr, session uint32
	name         string
	auth         []byte
}

func (f frame) String() string {
	n := f.name
	if len(n) > 50 {
		n = fmt.Sprintf("%s... (%d bytes)", n[:50], len(n))
	}
	return fmt.Sprintf("request %08x session %d name %q auth %d bytes %x", f.hdr, f.session, n, len(f.auth), f.auth[:min(len(f.auth), 16)])
}

func (f frame) wire() []byte {
	b := h.U(h.U(nil, 4, uint64(f.hdr)), 4, uint64(f.session))
	b = append(append(b, f.name...), 0)
	return append(b, f.auth...)
}

func (f frame) holds(c *mc.Ctx, what string, r *request.Request) {
	if r.Header != f.hdr || r.Session != f.session || r.Fname != f.name || !bytes.Equal(r.Auth, f.auth) {
		c.Fail("content", "%s: want %v, got %v", what, f, frame{r.Header, r.Session, r.Fname, r.Auth})
	}
}

func (f frame) carry(c *mc.Ctx, r, e *request.Request, callers []byte, send bool) {
	f.holds(c, "built", r)
	var buf []byte
	var err error
	c.Must("Encode", func() { buf, err = r.Encode() })
	c.Op(1)
	if err != nil {
		c.Fail("encode", "%v cannot be encoded: %v", f, err)
	}
	wire := f.wire()
	if !bytes.Equal(buf, wire) {
		c.Fail("wire", "%v is encoded to %x, want %x", f, buf[:min(len(buf), 60)], wire[:min(len(wire), 60)])
	}
	if send {
		h.Send(c, f.String(), wire, false, func(conn *vnet.UDPConn, to *vnet.UDPAddr) error { return r.Send(conn, to) })
	}
	for i := range callers {
		callers[i] ^= 0x3c
	}
	f.holds(c, "after re-use of the credentials buffer", r)
	rx := make([]byte, len(buf)+40)
	for i := range rx {
		rx[i] = 0xe7
	}
	copy(rx, buf)
	c.Must("Decode", func() { err = e.Decode(rx[:len(buf)]) })
	c.Op(1)
	if err != nil {
		c.Fail("decode", "%v cannot be decoded: %v", f, err)
	}
	f.holds(c, "decoded", e)
	p := e.Val(&vnet.UDPAddr{IP: vnet.IP{1, 2, 3, 4}, Port: 5}).Info
	for i := range rx {
		rx[i] ^= 0xa5
	}
	f.holds(c, "after re-use of the receive buffer", e)
	for _, n := range []frame{{h.Header("request", "reqtype", "get"), 2, "other", []byte("Z")}, {h.Header("request", "reqtype", "put"), 3, "", nil}} {
		if err = e.Decode(n.wire()); err != nil {
			c.Fail("decode", "%v cannot be decoded: %v", n, err)
		}
		n.holds(c, "next request", e)
	}
	f.holds(c, "handed on before the value was re-used", &p)
	keep.Later(func() {
		f.holds(c, "after later requests were decoded", &p)
		f.holds(c, "after later requests were built", r)
		if !bytes.Equal(buf, wire) {
			c.Fail("alias", "%v: later requests change its encoded bytes", f)
		}
	})
	if again, err := r.Encode(); err != nil || !bytes.Equal(again, wire) || !bytes.Equal(buf, wire) {
		c.Fail("wire", "%v encoded again gives something else (%v)", f, err)
	}
}

func every256() []byte {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}

var names = []string{"", "a", "/", "dir/file.txt", "with space", "a,b=c", "caf\u00e9/\u65e5\u672c\u8a9e", "\xff\xfe\x80", "\x01\x7f\n\t", "..", strings.Repeat("n", 255), strings.Repeat("\u00fc/", 340), strings.Repeat("L", 1400), strings.Repeat("M", 5000), strings.Repeat("dir/", 15000)}
var auths = [][]byte{nil, {}, {0}, {0, 0, 0}, []byte("secret"), []byte("a\x00b"), {0xff}, every256(), bytes.Repeat([]byte{0x80}, 1000)}
var sessions = []uint32{0, 1, 0x01020304, 0x80000000, 0xffffffff}

func flags(c *mc.Ctx) {
	rt := mc.Of(c, "reqtype", h.F("reqtype").Opts).Name
	desc := mc.Of(c, "descriptor", h.F("descriptor").Opts).Name
	will := c.Pick("willing", 16)
	bits := c.Pick("bits", 8)
	tx, rx := h.F("txwilling").Opts[will%4].Name, h.F("rxwilling").Opts[will/4].Name
	yn := []string{"no", "yes"}
	st, ul, fd := yn[bits&1], yn[bits>>1&1], []string{"file", "directory"}[bits>>2]
	hdr := h.Header("request", "reqtype", rt, "descriptor", desc, "txwilling", tx, "rxwilling", rx, "stream", st, "udplite", ul, "fileordir", fd)
	for _, fl := range []string{
		fmt.Sprintf("version=v1,frametype=request,reqtype=%s,descriptor=%s,txwilling=%s,rxwilling=%s,stream=%s,udplite=%s,fileordir=%s", rt, desc, tx, rx, st, ul, fd),
		fmt.Sprintf("fileordir=%s, udplite=%s ,stream=%s,rxwilling=%s,txwilling=%s,descriptor=%s,reqtype=%s,", fd, ul, st, rx, tx, desc, rt),
	} {
		f := frame{hdr, 0x01020304, "dir/file.txt", []byte("key\x00")}
		callers := append([]byte(nil), f.auth...)
		var r, e request.Request
		var err error
		c.Must("New", func() { err = r.New(fl, &request.Rinfo{Session: f.session, Fname: f.name, Auth: callers}) })
		c.Op(1)
		if err != nil {
			c.Fail("new", "flags %q: %v", fl, err)
		}
		f.carry(c, &r, &e, callers, will == 5)
	}
}

func values(c *mc.Ctx) {
	name := mc.Of(c, "name", names)
	auth := mc.Of(c, "auth", auths)
	make_ := c.Bool("make")
	pre := c.Pick("before", 3)
	for _, s := range sessions {
		f := frame{h.Header("request", "reqtype", "put", "txwilling", "yes"), s, name, auth}
		callers := append([]byte(nil), auth...)
		if len(auth) == 0 && auth != nil {
			callers = []byte{}
		}
		var r, e request.Request
		switch pre {
		case 1:
			e.Decode(frame{h.Header("request"), 9, "an earlier much longer name", []byte("earlier credentials")}.wire())
		case 2:
			e.Decode([]byte{0x21, 0, 0, 1, 0, 0, 0, 9, 'u', 'n', 't', 'e', 'r'})
			r = request.Request{Header: f.hdr, Session: 4, Fname: "x", Auth: []byte("longer than the next")}
		}
		var err error
		info := &request.Rinfo{Session: s, Fname: name, Auth: callers}
		if make_ {
			c.Must("Make", func() { err = r.Make(f.hdr, info) })
		} else {
			c.Must("New", func() { err = r.New("reqtype=put,txwilling=yes", info) })
		}
		c.Op(1)
		if err != nil {
			c.Fail("new", "%v: %v", f, err)
		}
		f.carry(c, &r, &e, callers, s == 1)
	}
}

// every name of up to two bytes, and every credential byte
func short(c *mc.Ctx) {
	a := c.Pick("first", 256)
	b := c.Pick("second", 256)
	name := ""
	if a > 0 {
		name += string([]byte{byte(a)})
	}
	if b > 0 {
		name += string([]byte{byte(b)})
	}
	f := frame{h.Header("request", "reqtype", "get"), uint32(a)<<8 | uint32(b), name, []byte{byte(b), byte(a)}}
	if a == 0 {
		f.auth = f.auth[:1]
	}
	callers := append([]byte(nil), f.auth...)
	var r, e request.Request
	if err := r.Make(f.hdr, &request.Rinfo{Session: f.session, Fname: name, Auth: callers}); err != nil {
		c.Fail("make", "%v: %v", f, err)
	}
	c.Op(1)
	f.carry(c, &r, &e, callers, false)
}

// every name length
func lengths(c *mc.Ctx) {
	n := c.Pick("name", 1500)
	k := c.Pick("auth", 3)
	f := frame{h.Header("request", "reqtype", "get"), 5, strings.Repeat("\u00e9x", 800)[:n], every256()[:[]int{0, 1, 200}[k]]}
	callers := append([]byte(nil), f.auth...)
	var r, e request.Request
	if err := r.Make(f.hdr, &request.Rinfo{Session: 5, Fname: f.name, Auth: callers}); err != nil {
		c.Fail("make", "%v: %v", f, err)
	}
	c.Op(1)
	f.carry(c, &r, &e, callers, false)
}

// every length of the credentials, in each of 256 byte values
func authLengths(c *mc.Ctx) {
	n := c.Pick("auth", 1100)
	name := mc.Of(c, "name", []string{"", "x", "dir/file.txt"})
	for _, fill := range []int{-1, 0, 0xff, n & 0xff} {
		auth := bytes.Repeat([]byte{byte(fill)}, n)
		if fill < 0 {
			for i := range auth {
				auth[i] = byte(i * 5)
			}
		}
		f := frame{h.Header("request", "reqtype", "get"), uint32(n), name, auth}
		callers := append([]byte(nil), f.auth...)
		var r, e request.Request
		if err := r.Make(f.hdr, &request.Rinfo{Session: f.session, Fname: f.name, Auth: callers}); err != nil {
			c.Fail("make", "%v: %v", f, err)
		}
		c.Op(1)
		f.carry(c, &r, &e, callers, false)
	}
}

// many requests at once
func together(c *mc.Ctx) {
	order := c.Pick("order", 3)
	keep = new(h.Keep)
	defer func() { keep = nil }()
	const n = 300
	for i := 0; i < n; i++ {
		k := []int{i, n - 1 - i, i * 7 % n}[order]
		f := frame{h.Header("request", "reqtype", "get"), uint32(k / 5), strings.Repeat(string(rune('a'+i%26)), k%40), bytes.Repeat([]byte{byte(i)}, k%7*9)}
		callers := append([]byte(nil), f.auth...)
		var r, e request.Request
		if err := r.Make(f.hdr, &request.Rinfo{Session: f.session, Fname: f.name, Auth: callers}); err != nil {
			c.Fail("make", "%v: %v", f, err)
		}
		c.Op(1)
		f.carry(c, &r, &e, callers, false)
	}
	keep.Check()
}

func headers(c *mc.Ctx) {
	bit := c.Pick("bit", 33)
	rt := c.Pick("reqtype", 256)
	w := h.F("reqtype").Put(32, h.Header("request", "txwilling", "yes", "descriptor", "d64"), uint32(rt))
	if bit < 32 {
		w ^= 1 << bit
	}
	f := frame{h.F("version").Put(32, h.F("frametype").Put(32, w, 1), 1), 5, "name", []byte("auth")}
	callers := append([]byte(nil), f.auth...)
	var r, e request.Request
	var err error
	c.Must("Make", func() { err = r.Make(w, &request.Rinfo{Session: 5, Fname: "name", Auth: callers}) })
	c.Op(1)
	if err != nil {
		c.Fail("make", "%v: %v", f, err)
	}
	f.carry(c, &r, &e, callers, false)
}

// one value used for several requests
func rebuild(c *mc.Ctx) {
	var r, e request.Request
	type held struct {
		f frame
		p request.Request
		b []byte
	}
	var before []held
	for k := 0; k < 3; k++ {
		how := c.Pick("build", 8)
		f := frame{h.Header("request", "descriptor", "d32", "reqtype", "take", "txwilling", "yes"), uint32(100 + k), strings.Repeat(string(rune('a'+k)), how), bytes.Repeat([]byte{byte(0x40 + k)}, []int{0, 3, 9, 40, 0, 5, 0, 7}[how])}
		callers := bytes.Clone(f.auth)
		info := &request.Rinfo{Session: f.session, Fname: f.name, Auth: callers}
		var err error
		switch {
		case how < 4:
			c.Must("New", func() { err = r.New("descriptor=d32,reqtype=take,txwilling=yes", info) })
		case how < 6:
			c.Must("Make", func() { err = r.Make(f.hdr, info) })
		case how == 6:
			r.Decode([]byte{0x21, 0, 0, 1, 0, 0, 0, 9, 'u', 'n', 't', 'e', 'r'})
			r.Header = f.hdr
			continue
		default:
			r.New("descriptor=d32,reqtype=take,txwilling=maybe", info)
			continue
		}
		c.Op(1)
		if err != nil {
			c.Fail("new", "%v: %v", f, err)
		}
		hd := held{f: f, p: r.Val(&vnet.UDPAddr{IP: vnet.IP{1, 2, 3, 4}, Port: 5}).Info}
		if hd.b, err = r.Encode(); err != nil {
			c.Fail("encode", "%v: %v", f, err)
		}
		f.carry(c, &r, &e, callers, false)
		if err = e.Decode(f.wire()); err != nil {
			c.Fail("decode", "%v: %v", f, err)
		}
		before = append(before, hd, held{f, e.Val(&vnet.UDPAddr{IP: vnet.IP{1, 2, 3, 4}, Port: 5}).Info, hd.b})
		if k == 1 {
			r, e = e, r
		}
		for _, x := range before {
			x.f.holds(c, "handed on before the value was re-used", &x.p)
			if !bytes.Equal(x.b, x.f.wire()) {
				c.Fail("alias", "%v: re-using the value changes its encoded bytes", x.f)
			}
		}
	}
}

func bad(c *mc.Ctx) {
	fl := mc.Of(c, "flags", []string{"bogus=1", "descriptor=d8", "reqtype=steal", "eod=yes", "txwilling=maybe", "errcode=success"})
	var r request.Request
	var err error
	c.Must("New", func() { err = r.New(fl, &request.Rinfo{Fname: "x"}) })
	c.Op(1)
	if err == nil {
		c.Fail("bad-flags", "flags %q are accepted: header %08x", fl, r.Header)
	}
}

func main() {
	mc.Main(&mc.Check{ID: "C04", Setup: h.Setup,
		Assume: []string{"file names hold no NUL byte (it ends the name on the wire)", "no authentication and an empty one are the same"},
		Scenarios: []mc.Scenario{
			{Name: "flags", Bounds: "every combination of the request flags in 2 orders", Run: flags},
			{Name: "values", Bounds: "15 names x 9 credentials x 5 sessions x 2 ways to build x 3 earlier contents", Run: values},
			{Name: "short-names", Bounds: "every name of up to 2 bytes with credentials of up to 2 bytes of every value", Run: short},
			{Name: "lengths", Bounds: "every name length 0..1499 x 3 credential lengths", Run: lengths},
			{Name: "credential-lengths", Bounds: "every credential length 0..1099 x 4 fillings x 3 names", Run: authLengths},
			{Name: "rebuild", Bounds: "every sequence of 3 builds (8 ways, two of them refused) of one value, all frames handed on looked at again after each", Run: rebuild},
			{Name: "together", Bounds: "3 orders of 300 requests that are all looked at again at the end", Run: together},
			{Name: "headers", Bounds: "every request type value x every single header bit", Run: headers},
			{Name: "bad-flags", Bounds: "6 undefined flag lists", Run: bad},
		}})
}
