// C05: metadata frames and directory entries survive the wire unchanged.
package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/metadata"

	"verif/checks/h"
	"verif/mc"
	"verif/vnet"
)

type entry struct {
	hdr          uint16
	size         uint64
	mtime, ctime uint32 // seconds from 2000
	path         string
}

func (e entry) String() string {
	p := e.path
	if len(p) > 40 {
		p = fmt.Sprintf("%s... (%d bytes)", p[:40], len(p))
	}
	return fmt.Sprintf("entry %04x size %d mtime %d ctime %d path %q", e.hdr, e.size, e.mtime, e.ctime, p)
}

func ddesc(w uint16) int {
	return h.Width(h.D("descriptor").NameOf(h.D("descriptor").Get(16, uint32(w))))
}

func (e entry) wire() []byte {
	b := h.U(nil, 2, uint64(e.hdr))
	w := ddesc(e.hdr)
	if w == 0 || !h.Fits(e.size, w) || len(e.path) > 1024 {
		return nil
	}
	b = h.U(b, w, e.size)
	b = h.U(h.U(b, 4, uint64(e.mtime)), 4, uint64(e.ctime))
	return append(append(b, e.path...), 0)
}

// value builds the entry.
func (e entry) value() (d dirent.DirEnt) {
	d.Header, d.Size, d.Path = e.hdr, e.size, e.path
	d.Mtime.New("epoch2000_32", time.Unix(h.Epoch2000+int64(e.mtime), 0))
	d.Ctime.New("epoch2000_32", time.Unix(h.Epoch2000+int64(e.ctime), 0))
	return
}

func (e entry) holds(c *mc.Ctx, what string, d *dirent.DirEnt) {
	if d.Header != e.hdr || d.Size != e.size || d.Mtime.Secs() != uint64(e.mtime) || d.Ctime.Secs() != uint64(e.ctime) || d.Path != e.path {
		c.Fail("content", "%s: want %v, got %v", what, e, entry{d.Header, d.Size, uint32(d.Mtime.Secs()), uint32(d.Ctime.Secs()), d.Path})
	}
	if t := time.Unix(h.Epoch2000+int64(e.mtime), 0).UTC().Format("Mon Jan _2 15:04:05 2006 UTC"); d.Mtime.Print() != t {
		c.Fail("time", "%s: %v: modification time reads %s", what, e, d.Mtime.Print())
	}
}

func (e entry) carry(c *mc.Ctx, u *dirent.DirEnt) {
	d := e.value()
	var buf []byte
	var err error
	c.Must("Encode", func() { buf, err = d.Encode() })
	c.Op(1)
	wire := e.wire()
	if wire == nil {
		if err == nil {
			c.Fail("unfit", "%v is encoded, to %x", e, buf[:min(len(buf), 40)])
		}
		return
	}
	if err != nil {
		c.Fail("encode", "%v cannot be encoded: %v", e, err)
	}
	if !bytes.Equal(buf, wire) {
		c.Fail("wire", "%v is encoded to %x, want %x", e, buf[:min(len(buf), 60)], wire[:min(len(wire), 60)])
	}
	cp := d.Copy()
	va := d.Value()
	rx := append(append(make([]byte, 0, len(buf)+40), buf...), bytes.Repeat([]byte{'x'}, 40)...)
	c.Must("Decode", func() { err = u.Decode(rx[:len(buf)]) })
	c.Op(3)
	if err != nil {
		c.Fail("decode", "%v cannot be decoded: %v", e, err)
	}
	for i := range rx {
		rx[i] ^= 0x5a
	}
	d.Path, d.Size = "gone", 3
	e.holds(c, "decoded", u)
	e.holds(c, "copied", cp)
	e.holds(c, "value", &va)
	w := *u
	keep.Later(func() {
		e.holds(c, "after later entries were decoded", &w)
		e.holds(c, "copied, after later entries", cp)
		if !bytes.Equal(buf, wire) {
			c.Fail("alias", "%v: later entries change its encoded bytes", e)
		}
	})
}

var keep *h.Keep

var paths = []string{"", "a", "dir/file.txt", "/", "caf\u00e9/\u65e5\u672c", "\xff\x80\x01", "with space", strings.Repeat("p", 255), strings.Repeat("p", 1023), strings.Repeat("p", 1024), strings.Repeat("p", 1025), strings.Repeat("\u00fc", 513)}
var sizes = []uint64{0, 1, 255, 256, 65534, 65535, 65536, 0x01020304, 1<<32 - 1, 1 << 32, 0x0102030405060708, math.MaxInt64, 1 << 63, math.MaxUint64}
var times = []uint32{0, 1, 0x01020304, 0x7fffffff, 0x80000000, 0xffffffff}

func dirty(n int, d *dirent.DirEnt) {
	switch n {
	case 1:
		d.Decode(entry{0x8080, 1 << 60, 77, 78, "an earlier longer path"}.wire())
	case 2:
		d.Decode([]byte{0x80, 0xc0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12})
	}
}

func entries(c *mc.Ctx) {
	w := uint16(c.Pick("descriptor", 4))<<6 | uint16(c.Pick("property", 4))<<8 | 0x8000
	path := mc.Of(c, "path", paths)
	pre := c.Pick("before", 3)
	for _, size := range sizes {
		for i, mt := range times {
			for j, ct := range times {
				if i > 2 && j > 2 && i != j && !c.Thorough() {
					continue
				}
				var u dirent.DirEnt
				dirty(pre, &u)
				entry{w, size, mt, ct, path}.carry(c, &u)
			}
		}
	}
}

// every header value and every path length
func headers(c *mc.Ctx) {
	hi := c.Pick("high", 256)
	lo := c.Pick("low", 256)
	var u dirent.DirEnt
	entry{uint16(hi<<8 | lo), 4000, 9, 10, "f"}.carry(c, &u)
}

func lengths(c *mc.Ctx) {
	n := c.Pick("length", 1100)
	d := uint16(c.Pick("descriptor", 3)) << 6
	var u dirent.DirEnt
	dirty(1, &u)
	entry{0x8000 | d, 77, 9, 10, strings.Repeat("x\u00e9", 500)[:n]}.carry(c, &u)
}

// ---- metadata frames

type frame struct {
	hdr, session uint32
	csum         []byte
	dir          entry
}

func (f frame) String() string {
	return fmt.Sprintf("metadata %08x session %d checksum %x %v", f.hdr, f.session, f.csum, f.dir)
}

func (f frame) wire() []byte {
	if len(f.csum) != int(h.F("csumlen").Get(32, f.hdr))*4 {
		return nil
	}
	e := f.dir.wire()
	if e == nil {
		return nil
	}
	b := h.U(h.U(nil, 4, uint64(f.hdr)), 4, uint64(f.session))
	return append(append(b, f.csum...), e...)
}

func (f frame) holds(c *mc.Ctx, what string, m *metadata.MetaData) {
	if m.Header != f.hdr || m.Session != f.session || !bytes.Equal(m.Checksum, f.csum) {
		c.Fail("content", "%s: want %v, got header %08x session %d checksum %x", what, f, m.Header, m.Session, m.Checksum)
	}
	f.dir.holds(c, what, &m.Dir)
}

func (f frame) carry(c *mc.Ctx, u *metadata.MetaData, send bool) {
	m := metadata.MetaData{Header: f.hdr, Session: f.session, Checksum: append([]byte(nil), f.csum...), Dir: f.dir.value()}
	var buf []byte
	var err error
	c.Must("Encode", func() { buf, err = m.Encode() })
	c.Op(1)
	wire := f.wire()
	if send {
		h.Send(c, f.String(), wire, false, func(conn *vnet.UDPConn, to *vnet.UDPAddr) error { return m.Send(conn, to) })
	}
	if wire == nil {
		if err == nil {
			c.Fail("unfit", "%v is encoded, to %x", f, buf[:min(len(buf), 60)])
		}
		return
	}
	if err != nil {
		c.Fail("encode", "%v cannot be encoded: %v", f, err)
	}
	if !bytes.Equal(buf, wire) {
		c.Fail("wire", "%v is encoded to %x, want %x", f, buf[:min(len(buf), 60)], wire[:min(len(wire), 60)])
	}
	rx := append(append(make([]byte, 0, len(buf)+40), buf...), bytes.Repeat([]byte{'x'}, 40)...)
	c.Must("Decode", func() { err = u.Decode(rx[:len(buf)]) })
	c.Op(3)
	if err != nil {
		c.Fail("decode", "%v cannot be decoded: %v", f, err)
	}
	p := u.Val(&vnet.UDPAddr{IP: vnet.IP{1, 2, 3, 4}, Port: 5}).Info
	for i := range rx {
		rx[i] ^= 0x5a
	}
	f.holds(c, "decoded", u)
	for i := range m.Checksum {
		m.Checksum[i] ^= 0xff
	}
	if !bytes.Equal(buf, wire) {
		c.Fail("alias", "%v: re-using the checksum changes the encoded frame", f)
	}
	for _, n := range []frame{
		{h.Header("metadata", "csumlen", "md5", "csumtype", "md5"), 3, bytes.Repeat([]byte{0xcc}, 16), entry{0x8000, 5, 6, 7, "next"}},
		{h.Header("metadata"), 4, nil, entry{0x8100, 8, 9, 10, ""}}} {
		if err = u.Decode(n.wire()); err != nil {
			c.Fail("decode", "%v cannot be decoded: %v", n, err)
		}
		n.holds(c, "next frame", u)
	}
	f.holds(c, "handed on before the value was re-used", &p)
	keep.Later(func() {
		f.holds(c, "after later frames were decoded", &p)
		if !bytes.Equal(buf, wire) {
			c.Fail("alias", "%v: later frames change its encoded bytes", f)
		}
	})
}

var csums = func() (out [][]byte) {
	for _, n := range []int{0, 1, 3, 4, 5, 8, 12, 15, 16, 17, 19, 20, 21, 60} {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(0xf0 - i*3)
		}
		out = append(out, b)
	}
	return
}()

func frames(c *mc.Ctx) {
	clen := uint32(c.Pick("csumlen", 16))
	csum := mc.Of(c, "checksum", csums)
	pre := c.Pick("before", 3)
	for _, session := range []uint32{0, 0x01020304, 0xffffffff} {
		for k, e := range []entry{{0x8000, 65535, 1, 2, "name"}, {0x8000, 65536, 1, 2, "name"}, {0x8040, 1 << 31, 5, 0xffffffff, ""}, {0x8040, 1 << 32, 5, 6, "x"}, {0x8180, 1 << 40, 1 << 31, 1, "dir/"}, {0x80c0, 5, 1, 2, "wide"}, {0x8200, 0, 3, 3, strings.Repeat("q", 1025)}} {
			var u metadata.MetaData
			switch pre {
			case 1:
				u.Decode(frame{h.Header("metadata", "csumlen", "sha1"), 1, csums[11], entry{0x8080, 9, 9, 9, "earlier"}}.wire())
			case 2:
				u.Decode([]byte{0x22, 0, 0, 5, 0, 0, 0, 1, 1})
			}
			f := frame{h.F("csumlen").Put(32, h.Header("metadata", "csumtype", "crc32", "transfer", "directory"), clen), session, csum, e}
			f.carry(c, &u, session == 0 && k < 2)
		}
	}
}

func mheaders(c *mc.Ctx) {
	bit := c.Pick("bit", 33)
	typ := uint32(c.Pick("csumtype", 16))
	tr := uint32(c.Pick("transfer", 4))
	w := h.F("transfer").Put(32, h.F("csumtype").Put(32, h.Header("metadata", "csumlen", "crc32"), typ), tr)
	if bit < 32 {
		w ^= 1 << bit
	}
	n := int(h.F("csumlen").Get(32, w)) * 4
	f := frame{w, 9, bytes.Repeat([]byte{7, 8, 9, 10}, 15)[:n], entry{0x8040, 1 << 20, 3, 4, "f"}}
	var u metadata.MetaData
	f.carry(c, &u, false)
}

// every number near a power of two, in each place of an entry
func powers(c *mc.Ctx) {
	w := uint16(c.Pick("descriptor", 3))<<6 | 0x8000
	v := mc.Of(c, "value", h.Powers(64))
	base := entry{w, 1000, 9, 10, "name"}
	for place := 0; place < 4; place++ {
		e := base
		switch place {
		case 0:
			e.size = v
		case 1:
			e.mtime = uint32(v)
		case 2:
			e.ctime = uint32(v)
		case 3:
			e.mtime, e.ctime = uint32(v), uint32(v)
		}
		var u dirent.DirEnt
		e.carry(c, &u)
		var m metadata.MetaData
		frame{h.Header("metadata", "csumlen", "crc32", "csumtype", "crc32"), uint32(v), []byte{1, 2, 3, 4}, e}.carry(c, &m, false)
	}
}

// every path of up to two bytes, every value of a checksum byte
func contents(c *mc.Ctx) {
	a := 1 + c.Pick("first", 255)
	for b := 0; b < 256; b++ {
		p := []byte{byte(a), byte(b)}
		if b == 0 {
			p = p[:1]
		}
		var u dirent.DirEnt
		entry{0x8000, 5, 6, 7, string(p)}.carry(c, &u)
		var m metadata.MetaData
		frame{h.Header("metadata", "csumlen", "crc32", "csumtype", "crc32"), 9, []byte{byte(b), byte(a), byte(b), byte(b)}, entry{0x8000, 5, 6, 7, string(p)}}.carry(c, &m, false)
		frame{h.Header("metadata", "csumlen", "md5", "csumtype", "md5"), 9, bytes.Repeat([]byte{byte(b), byte(a), byte(b), byte(b)}, 4), entry{0x8000, 5, 6, 7, ""}}.carry(c, &m, false)
	}
}

// many at once
func together(c *mc.Ctx) {
	order := c.Pick("order", 3)
	keep = new(h.Keep)
	defer func() { keep = nil }()
	const n = 200
	kinds := []string{"none", "crc32", "md5", "sha1"}
	for i := 0; i < n; i++ {
		k := []int{i, n - 1 - i, i * 7 % n}[order]
		e := entry{0x8000 | uint16(k%3)<<6, uint64(k * 5), uint32(i), uint32(k), strings.Repeat(string(rune('a'+i%26)), k%40)}
		var u dirent.DirEnt
		e.carry(c, &u)
		var m metadata.MetaData
		frame{h.Header("metadata", "csumlen", kinds[k%4], "csumtype", kinds[k%4]), uint32(k / 3), bytes.Repeat([]byte{byte(i)}, []int{0, 4, 16, 20}[k%4]), e}.carry(c, &m, false)
	}
	keep.Check()
}

// frames made for real files
func files(c *mc.Ctx) {
	ct := mc.Of(c, "csumtype", []string{"none", "crc32", "md5", "sha1"})
	size := mc.Of(c, "size", []int64{0, 1, 4095, 65534, 65535, 65536, 200000})
	make_ := c.Bool("make")
	name := filepath.Join(h.Dir, "file")
	if err := os.WriteFile(name, bytes.Repeat([]byte("z"), int(size)), 0o644); err != nil {
		panic(err)
	}
	defer os.Remove(name)
	os.Chtimes(name, time.Unix(1700000000, 0), time.Unix(1600000000, 5))
	for i := 0; i < 2; i++ {
		var m, u metadata.MetaData
		if i == 1 {
			m.Decode(frame{h.Header("metadata", "csumlen", "sha1", "csumtype", "sha1"), 1, csums[11], entry{0x8080, 9, 9, 9, "earlier"}}.wire())
		}
		var err error
		info := &metadata.Minfo{Session: 9, Fname: "file"}
		if make_ {
			c.Must("Make", func() { err = m.Make(h.Header("metadata", "transfer", "file", "csumtype", ct), info) })
		} else {
			c.Must("New", func() { err = m.New("transfer=file,csumtype="+ct, info) })
		}
		if err != nil {
			c.Fail("make", "file of %d bytes, checksum %s: %v", size, ct, err)
		}
		buf, err := m.Encode()
		c.Op(3)
		if err != nil {
			c.Fail("encode", "file of %d bytes, checksum %s: %v", size, ct, err)
		}
		if err = u.Decode(buf); err != nil {
			c.Fail("decode", "file of %d bytes, checksum %s: %v", size, ct, err)
		}
		f := frame{m.Header, 9, m.Checksum, entry{m.Dir.Header, uint64(size), 1600000000 - h.Epoch2000, uint32(m.Dir.Ctime.Secs()), "file"}}
		f.holds(c, "made", &m)
		f.holds(c, "decoded", &u)
		if want := map[string]int{"none": 0, "crc32": 4, "md5": 16, "sha1": 20}[ct]; len(u.Checksum) != want || !h.Is(u.Header, "csumtype", ct) {
			c.Fail("checksum", "checksum %s of %d bytes, header %08x", ct, len(u.Checksum), u.Header)
		}
	}
}

// one value used for the metadata of several files: each comes out as from a fresh value, and
// the frames handed on before stay as they were
func rebuild(c *mc.Ctx) {
	var m metadata.MetaData
	type held struct {
		p, q metadata.MetaData
		b, w []byte
	}
	deep := func(x metadata.MetaData) metadata.MetaData {
		x.Checksum = bytes.Clone(x.Checksum)
		return x
	}
	var before []held
	for k := 0; k < 3; k++ {
		how := c.Pick("build", 7)
		size := []int{0, 10, 70000}[(how+k)%3]
		fname := string(rune('p'+k)) + "file"
		name := filepath.Join(h.Dir, fname)
		if err := os.WriteFile(name, bytes.Repeat([]byte{byte('z' - k)}, size), 0o644); err != nil {
			panic(err)
		}
		defer os.Remove(name)
		os.Chtimes(name, time.Unix(1700000000, 0), time.Unix(1600000000+int64(k), 5))
		info := &metadata.Minfo{Session: uint32(50 + k), Fname: fname}
		ct := []string{"none", "crc32", "md5", "sha1", "md5", "sha1"}[how%6]
		var fresh metadata.MetaData
		build := func(x *metadata.MetaData) (err error) {
			c.Must("build", func() {
				switch {
				case how < 4:
					err = x.New("transfer=file,progress=inprogress,reliability=udponly,descriptor=d32,csumtype="+ct, info)
				case how < 6:
					err = x.Make(h.Header("metadata", "transfer", "file", "descriptor", "d32", "csumtype", ct), info)
				default:
					err = x.New("transfer=file,descriptor=d32,csumtype="+ct, &metadata.Minfo{Session: 3, Fname: "no such file"})
				}
			})
			c.Op(1)
			return
		}
		err, ferr := build(&m), build(&fresh)
		if (err != nil) != (ferr != nil) || (err != nil) != (how == 6) {
			c.Fail("rebuild", "file %d (%d bytes, %s): %v from a used value, %v from a fresh one", k, size, ct, err, ferr)
		}
		if err == nil {
			w, ferr := fresh.Encode()
			b, err := m.Encode()
			if err != nil || ferr != nil || !bytes.Equal(b, w) {
				c.Fail("rebuild", "file %d (%d bytes, %s): %x (%v) from a used value, %x (%v) from a fresh one", k, size, ct, b, err, w, ferr)
			}
			p := m.Val(&vnet.UDPAddr{IP: vnet.IP{1, 2, 3, 4}, Port: 5}).Info
			before = append(before, held{p, deep(p), b, w})
		}
		for _, x := range before {
			if !reflect.DeepEqual(x.p, x.q) || !bytes.Equal(x.b, x.w) {
				c.Fail("alias", "a frame handed on before the value was re-used changed from %+v to %+v", x.q, x.p)
			}
		}
	}
}

// every list of flags for a frame: the header holds exactly what was asked for
func flags(c *mc.Ctx) {
	ct := mc.Of(c, "csumtype", []string{"none", "crc32", "md5", "sha1"})
	order := c.Pick("order", 3)
	spaces := c.Bool("spaces")
	used := c.Bool("re-used")
	name := filepath.Join(h.Dir, "file")
	if err := os.WriteFile(name, []byte("content"), 0o644); err != nil {
		panic(err)
	}
	defer os.Remove(name)
	os.Chtimes(name, time.Unix(1700000000, 0), time.Unix(1600000000, 5))
	info := &metadata.Minfo{Session: 9, Fname: "file"}
	for _, desc := range []string{"", "d16", "d32", "d64", "d128"} {
		for _, prog := range []string{"", "inprogress", "terminated"} {
			for _, rel := range []string{"", "udponly", "udplite"} {
				fl := []string{"transfer=file", "csumtype=" + ct}
				want := []string{"transfer", "file", "csumtype", ct, "csumlen", ct}
				for _, x := range [][2]string{{"descriptor", desc}, {"progress", prog}, {"reliability", rel}} {
					if x[1] != "" {
						fl = append(fl, x[0]+"="+x[1])
						want = append(want, x[0], x[1])
					}
				}
				switch order {
				case 1:
					for i, j := 0, len(fl)-1; i < j; i, j = i+1, j-1 {
						fl[i], fl[j] = fl[j], fl[i]
					}
				case 2:
					fl = append(fl[1:], fl[0])
				}
				text := strings.Join(fl, ",")
				if spaces {
					text = " " + strings.ReplaceAll(strings.ReplaceAll(text, "=", " = "), ",", " , ") + " "
				}
				var m, u metadata.MetaData
				if used {
					m.Decode(frame{h.Header("metadata", "transfer", "file", "csumlen", "sha1", "csumtype", "sha1"), 1, csums[11], entry{0x8080, 9, 9, 9, "earlier"}}.wire())
				}
				var err error
				c.Must("New", func() { err = m.New(text, info) })
				c.Op(1)
				if err != nil {
					c.Fail("flags", "%q: %v", text, err)
				}
				if w := h.Header("metadata", want...); m.Header != w {
					c.Fail("flags", "%q gives header %08x, want %08x", text, m.Header, w)
				}
				buf, err := m.Encode()
				if err == nil {
					err = u.Decode(buf)
				}
				if err != nil || u.Header != m.Header || !bytes.Equal(u.Checksum, m.Checksum) || u.Dir.Path != "file" || u.Dir.Size != 7 {
					c.Fail("flags", "%q: %v, carried as %08x %x", text, err, u.Header, u.Checksum)
				}
				m = metadata.MetaData{}
				if used {
					m.Decode(frame{h.Header("metadata", "csumlen", "sha1", "csumtype", "sha1"), 1, csums[11], entry{0x8080, 9, 9, 9, "earlier"}}.wire())
				}
				if err = m.Make(h.Header("metadata", want...), info); err != nil || m.Header != u.Header || !bytes.Equal(u.Checksum, m.Checksum) {
					c.Fail("flags", "made with header %08x: %v, header %08x", h.Header("metadata", want...), err, m.Header)
				}
			}
		}
	}
	for _, bad := range []string{"nosuch=1", "transfer=nosuch", "csumtype=nosuch", "progress=nosuch", "descriptor=d8", "reliability=maybe", "sod=sod", "errcode=success", "reqtype=get"} {
		for _, text := range []string{bad, "transfer=file,csumtype=" + ct + "," + bad, bad + ",transfer=file,csumtype=" + ct} {
			if ct == "none" && !strings.Contains(text, ",") && order > 0 {
				continue
			}
			var m metadata.MetaData
			var err error
			c.Must("New", func() { err = m.New(text, info) })
			if err == nil {
				c.Fail("bad-flags", "%q is accepted", text)
			}
		}
	}
}

func main() {
	mc.Main(&mc.Check{ID: "C05", Setup: h.Setup,
		Assume: []string{"paths hold no NUL byte (it ends the path on the wire) and at most 1024 bytes", "times are whole seconds from 2000 on"},
		Scenarios: []mc.Scenario{
			{Name: "entries", Bounds: "4 widths x 4 properties x 12 paths x 14 sizes x 6 x 6 times (quick: 30 pairs) x 3 earlier contents", Run: entries},
			{Name: "entry-headers", Bounds: "all 65536 entry headers", Run: headers},
			{Name: "path-lengths", Bounds: "every path length 0..1099 x 3 widths", Run: lengths},
			{Name: "frames", Bounds: "16 announced x 14 actual checksum lengths x 7 entries x 3 sessions x 3 earlier contents", Run: frames},
			{Name: "headers", Bounds: "every checksum type and transfer value x every single header bit", Run: mheaders},
			{Name: "powers", Bounds: "3 widths x every number within 1 of a power of two as size, as times and as session", Run: powers},
			{Name: "contents", Bounds: "every path of 1 and 2 bytes, checksums with every pair of byte values", Run: contents},
			{Name: "together", Bounds: "3 orders of 200 entries and frames that are all looked at again at the end", Run: together},
			{Name: "flags", Bounds: "every list of metadata flags (4 checksums x 5 widths x 3 x 3) in 3 orders, with and without spaces, fresh and re-used, 27 lists with an undefined flag or value", Run: flags},
			{Name: "rebuild", Bounds: "every sequence of 3 of 7 builds (4 checksums, made, refused) of one value for files of 3 sizes", Run: rebuild},
			{Name: "files", Bounds: "4 checksums x 7 file sizes x 2 ways to build, fresh and re-used", Run: files},
		}})
}
