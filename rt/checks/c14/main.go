// C14: no received datagram can crash or corrupt a decoder.
package main

import (
	"bytes"
	"fmt"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/charlesetsmith/saratoga/timestamp"

	"verif/checks/h"
	"verif/mc"
)

// decoder is one way bytes come in; show describes everything a decoded value holds.
type decoder struct {
	name string
	// decode into a value that is fresh or was used before
	decode func(used bool, b []byte) (show func() string, text func(), err error)
	// least is the number of bytes the fixed fields announced by the header need
	least func(b []byte) int
}

func ts(b []byte) int {
	if h.F("reqtstamp").Get(32, word(b)) == 1 {
		return 16
	}
	return 0
}

// stamp shows the timestamp of a frame that announces one
func stamp(w uint32, t *timestamp.Timestamp) string {
	if h.F("reqtstamp").Get(32, w) == 1 {
		return fmt.Sprintf(" %x %d", t.Put(), t.Secs())
	}
	return ""
}

func word(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

func entryLeast(b []byte) int {
	if len(b) < 2 {
		return 2
	}
	d := h.D("descriptor").Get(16, uint32(b[0])<<8|uint32(b[1]))
	return 2 + (2 << d) + 8
}

var decoders = []decoder{
	{"beacon", func(used bool, b []byte) (func() string, func(), error) {
		v := new(beacon.Beacon)
		if used {
			*v = beacon.Beacon{Header: 0x20004000, Freespace: 99, Eid: "old"}
		}
		err := v.Decode(b)
		return func() string {
			return fmt.Sprintf("%x %d %q", v.Header, v.Freespace, v.Eid)
		}, func() { v.Print(); v.ShortPrint() }, err
	}, func(b []byte) int {
		if len(b) < 4 || !h.Is(word(b), "freespace", "yes") {
			return 4
		}
		return 4 + 2<<h.F("freespaced").Get(32, word(b))
	}},
	{"request", func(used bool, b []byte) (func() string, func(), error) {
		v := new(request.Request)
		if used {
			*v = request.Request{Header: 1, Session: 2, Fname: "old name", Auth: []byte("old auth")}
		}
		err := v.Decode(b)
		return func() string {
			return fmt.Sprintf("%x %d %q %x", v.Header, v.Session, v.Fname, v.Auth)
		}, func() { v.Print(); v.ShortPrint() }, err
	}, func(b []byte) int { return 9 }},
	{"data", func(used bool, b []byte) (func() string, func(), error) {
		v := new(data.Data)
		if used {
			*v = data.Data{Header: 1, Session: 2, Offset: 3, Payload: []byte("old payload that is quite long")}
		}
		err := v.Decode(b)
		return func() string {
			return fmt.Sprintf("%x %d %d %x", v.Header, v.Session, v.Offset, v.Payload) + stamp(v.Header, &v.Tstamp)
		}, func() { v.Print(); v.ShortPrint() }, err
	}, func(b []byte) int {
		if len(b) < 4 {
			return 10
		}
		return 8 + ts(b) + 2<<h.F("descriptor").Get(32, word(b))
	}},
	{"status", func(used bool, b []byte) (func() string, func(), error) {
		v := new(status.Status)
		if used {
			v.Decode([]byte{0x24, 0, 0, 0, 0, 0, 0, 1, 0, 2, 0, 3, 0, 4, 0, 5, 0, 6, 0, 7})
		}
		err := v.Decode(b)
		return func() string {
			return fmt.Sprintf("%x %d %d %d %v", v.Header, v.Session, v.Progress, v.Inrespto, v.Holes) + stamp(v.Header, &v.Tstamp)
		}, func() { v.Print(); v.ShortPrint() }, err
	}, func(b []byte) int {
		if len(b) < 4 {
			return 12
		}
		return 8 + ts(b) + 4<<h.F("descriptor").Get(32, word(b))
	}},
	{"metadata", func(used bool, b []byte) (func() string, func(), error) {
		v := new(metadata.MetaData)
		if used {
			v.Decode(append([]byte{0x22, 0, 0, 0x11, 0, 0, 0, 9, 1, 2, 3, 4, 0x80, 0, 0, 9, 0, 0, 0, 1, 0, 0, 0, 2}, "old\x00"...))
		}
		err := v.Decode(b)
		return func() string {
			return fmt.Sprintf("%x %d %x %x %d %d %d %q", v.Header, v.Session, v.Checksum, v.Dir.Header, v.Dir.Size, v.Dir.Mtime.Secs(), v.Dir.Ctime.Secs(), v.Dir.Path)
		}, func() { v.Print(); v.ShortPrint() }, err
	}, func(b []byte) int {
		if len(b) < 8 {
			return 8
		}
		n := 8 + 4*int(h.F("csumlen").Get(32, word(b)))
		if len(b) < n {
			return n
		}
		return n + entryLeast(b[n:])
	}},
	{"dirent", func(used bool, b []byte) (func() string, func(), error) {
		v := new(dirent.DirEnt)
		if used {
			v.Decode(append([]byte{0x80, 0, 0, 9, 0, 0, 0, 1, 0, 0, 0, 2}, "old\x00"...))
		}
		err := v.Decode(b)
		return func() string {
			return fmt.Sprintf("%x %d %d %d %q", v.Header, v.Size, v.Mtime.Secs(), v.Ctime.Secs(), v.Path)
		}, func() { v.Print(); v.ShortPrint() }, err
	}, entryLeast},
	{"timestamp", func(used bool, b []byte) (func() string, func(), error) {
		v := new(timestamp.Timestamp)
		if used {
			v.Get([]byte{4, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15})
		}
		err := v.Get(b)
		return func() string { return fmt.Sprintf("%x %d", v.Put(), v.Secs()) }, func() { v.Print() }, err
	}, func(b []byte) int {
		if len(b) < 1 {
			return 1
		}
		switch h.Tstamp.NameOf(uint32(b[0])) {
		case "posix32", "epoch2000_32":
			return 5
		case "posix64", "posix32_32":
			return 9
		case "posix64_32":
			return 13
		}
		return 15
	}},
}

// one decodes b in several surroundings.
func one(c *mc.Ctx, d *decoder, b []byte) {
	const slack = 24
	var first string
	var firstErr error
	for k := 0; k < 4; k++ {
		// 0: exact, 1 and 2: with different bytes behind it, 3: into a used value
		buf := make([]byte, len(b), len(b)+slack)
		copy(buf, b)
		if k == 0 {
			buf = append([]byte(nil), b...)
			buf = buf[:len(buf):len(buf)]
		} else {
			rest := buf[len(b) : len(b)+slack]
			for i := range rest {
				rest[i] = []byte{0, 0x41, 0xff, 0x00}[k]
			}
		}
		var show func() string
		var text func()
		var err error
		if cr := c.Try(func() { show, text, err = d.decode(k == 3, buf) }); cr != nil {
			c.Fail(d.name+"/crash", "%s decoder crashes on %s: %s\n%s", d.name, hex(b), cr.Msg, cr.Stack)
		}
		c.Op(1)
		if !bytes.Equal(buf, b) {
			c.Fail(d.name+"/writes", "%s decoder changes the bytes %s", d.name, hex(b))
		}
		if err == nil && len(b) < d.least(b) {
			c.Fail(d.name+"/short", "%s decoder accepts %d bytes, the header announces at least %d: %s", d.name, len(b), d.least(b), hex(b))
		}
		s := ""
		if cr := c.Try(func() {
			if err == nil {
				s = show()
				if k == 0 {
					text()
				}
			}
		}); cr != nil {
			c.Fail(d.name+"/print", "the value decoded from %s by the %s decoder cannot be shown: %s\n%s", hex(b), d.name, cr.Msg, cr.Stack)
		}
		if err == nil {
			all := buf[:cap(buf)]
			for i := range all {
				all[i] ^= 0x5a
			}
			if t := show(); t != s {
				c.Fail(d.name+"/retains", "the value decoded from %s by the %s decoder changes with the buffer", hex(b), d.name)
			}
		}
		if k == 0 {
			first, firstErr = s, err
			continue
		}
		if (err == nil) != (firstErr == nil) || (err == nil && s != first) {
			what := "bytes behind the frame"
			if k == 3 {
				what = "earlier contents"
			}
			c.Fail(d.name+"/depends", "the result of decoding %s with the %s decoder depends on %s: %q %v, %q %v", hex(b), d.name, what, first, firstErr, s, err)
		}
	}
}

func hex(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%x... (%d bytes)", b[:48], len(b))
	}
	return fmt.Sprintf("%x (%d bytes)", b, len(b))
}

// all strings of up to two bytes, for every decoder
func tiny(c *mc.Ctx) {
	a := c.Pick("first", 257)
	b := c.Pick("second", 257)
	var s []byte
	if a > 0 {
		s = append(s, byte(a-1))
		if b > 0 {
			s = append(s, byte(b-1))
		}
	} else if b > 0 {
		c.Skip()
	}
	for i := range decoders {
		one(c, &decoders[i], s)
	}
}

// fill writes one of the body patterns.
const nPatterns = 6

func fill(b []byte, from, pat int) {
	for i := from; i < len(b); i++ {
		switch pat {
		case 0:
			b[i] = 0
		case 1:
			b[i] = 0xff
		case 2:
			b[i] = byte(i)
		case 3:
			b[i] = 'a'
		case 4:
			b[i] = 0x80 | byte(i)
		case 5:
			b[i] = byte((i % 3) * 0x7f)
		}
	}
}

var lens = func() (out []int) {
	for i := 0; i <= 80; i++ {
		out = append(out, i)
	}
	return append(out, 100, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 1400, 1439, 1440, 1500)
}()

// frames of every type, with every combination of the fields of that type
func frames(typ string) func(*mc.Ctx) {
	fields := h.For(typ)
	var d *decoder
	for i := range decoders {
		if decoders[i].name == typ {
			d = &decoders[i]
		}
	}
	// the product of the fields of the type (errcode and request type only a few)
	var words []uint32
	var rec func(i int, w uint32)
	rec = func(i int, w uint32) {
		if i == len(fields) {
			words = append(words, w)
			return
		}
		f := fields[i]
		n := uint32(1) << f.Len
		for v := uint32(0); v < n; v++ {
			if f.Name == "frametype" && v != h.F("frametype").Value(typ) {
				continue
			}
			if f.Name == "version" && v > 1 {
				continue
			}
			if f.Len == 8 && v > 2 && v != 0xff && v != 0x7f {
				continue
			}
			if f.Len == 2 && f.Name != "descriptor" && f.Name != "freespaced" && typ != "metadata" && v == 2 {
				continue
			}
			rec(i+1, f.Put(32, w, v))
		}
	}
	rec(0, 0)
	for i := 0; i < 32; i++ {
		words = append(words, h.Header(typ)^1<<i, ^uint32(1<<i))
	}
	words = append(words, 0, ^uint32(0))
	return func(c *mc.Ctx) {
		n := len(words)
		step := 1
		if !c.Thorough() && n > 700 {
			// the quick tier takes every word at a few lengths, and some at all lengths
			step = n / 350
		}
		w := c.Pick("header", n)
		ls := lens
		if w%step != 0 {
			ls = []int{4, 6, 8, 9, 10, 12, 16, 17, 24, 28, 31, 40, 64}
		}
		for _, l := range ls {
			for pat := 0; pat < nPatterns; pat++ {
				if l > 40 && pat > 2 && w%step != 0 {
					continue
				}
				b := make([]byte, l)
				fill(b, 0, pat)
				for i := 0; i < 4 && i < l; i++ {
					b[i] = byte(words[w] >> (24 - 8*i))
				}
				one(c, d, b)
			}
		}
	}
}

// where the NUL of a name is, and timestamps of every type in frames
func inner(c *mc.Ctx) {
	switch c.Pick("what", 4) {
	case 0: // requests with a NUL at every place, and two
		l := c.Pick("length", 40)
		n := c.Pick("nul", 41)
		b := make([]byte, l)
		fill(b, 0, 3)
		copy(b, []byte{0x21, 0, 0, 1})
		if n < l {
			b[n] = 0
		}
		one(c, &decoders[1], b)
		if n+3 < l {
			b[n+3] = 0
			one(c, &decoders[1], b)
		}
	case 1: // data and status with every timestamp type
		t := c.Pick("type", 256)
		for _, d := range []int{2, 3} {
			for desc := uint32(0); desc < 4; desc++ {
				for l := 8; l < 48; l++ {
					for pat := 0; pat < 3; pat++ {
						b := make([]byte, l)
						fill(b, 8, pat)
						w := h.F("descriptor").Put(32, h.Header([]string{"", "", "data", "status"}[d], "reqtstamp", "yes"), desc)
						copy(b, h.U(nil, 4, uint64(w)))
						if l > 8 {
							b[8] = byte(t)
						}
						one(c, &decoders[d], b)
					}
				}
			}
		}
	case 2: // metadata with every checksum length and every entry header
		cl := c.Pick("csumlen", 16)
		hi := c.Pick("entry", 16)
		for l := 8; l < 8+60+40; l++ {
			for pat := 0; pat < 4; pat++ {
				b := make([]byte, l)
				fill(b, 8, pat)
				w := h.F("csumlen").Put(32, h.Header("metadata"), uint32(cl))
				copy(b, h.U(nil, 4, uint64(w)))
				if at := 8 + 4*cl; at+1 < l {
					b[at], b[at+1] = 0x80|byte(hi>>2), byte(hi&3)<<6
				}
				one(c, &decoders[4], b)
			}
		}
	case 3: // timestamps
		t := c.Pick("type", 256)
		for l := 1; l < 24; l++ {
			for pat := 0; pat < nPatterns; pat++ {
				b := make([]byte, l)
				fill(b, 1, pat)
				b[0] = byte(t)
				one(c, &decoders[6], b)
			}
		}
	}
}

func direntHeaders(c *mc.Ctx) {
	hi := c.Pick("high", 256)
	lo := c.Pick("low", 256)
	for l := 2; l < 32; l++ {
		if !c.Thorough() && (lo&0x3f != 0 && lo&0x3f != 0x3f) && l != 12 && l != 18 {
			continue
		}
		for pat := 0; pat < 3; pat++ {
			b := make([]byte, l)
			fill(b, 0, pat)
			b[0], b[1] = byte(hi), byte(lo)
			one(c, &decoders[5], b)
		}
	}
}

// large datagrams of every type through every decoder
func large(c *mc.Ctx) {
	d := c.Pick("decoder", len(decoders))
	l := mc.Of(c, "length", []int{2000, 4096, 9000, 65507, 65535})
	desc := uint32(c.Pick("descriptor", 4))
	pat := c.Pick("pattern", nPatterns)
	b := make([]byte, l)
	fill(b, 0, pat)
	w := h.F("descriptor").Put(32, 0x20000000|uint32(d)<<24, desc)
	copy(b, h.U(nil, 4, uint64(w)))
	one(c, &decoders[d], b)
}

// every decoder gets frames of the other types
func crossed(c *mc.Ctx) {
	d := c.Pick("decoder", len(decoders))
	v := c.Pick("version and type", 256)
	for b1 := 0; b1 < 256; b1 += 1 {
		for _, l := range []int{4, 9, 12, 13, 20, 26, 40} {
			b := make([]byte, l)
			fill(b, 0, b1%nPatterns)
			b[0], b[1] = byte(v), byte(b1)
			one(c, &decoders[d], b)
		}
	}
}

func main() {
	mc.Main(&mc.Check{ID: "C14", Setup: h.Setup,
		Assume: []string{"memory is not exhausted by one datagram"},
		Scenarios: []mc.Scenario{
			{Name: "tiny", Bounds: "all byte strings of up to 2 bytes x 7 decoders", Run: tiny},
			{Name: "beacon", Bounds: "all values of the beacon fields x lengths 0..80 and 14 more x 6 contents (quick: a third of the headers at all lengths)", Run: frames("beacon"), Shard: 1},
			{Name: "request", Bounds: "the same for requests", Run: frames("request"), Shard: 1},
			{Name: "data", Bounds: "the same for data", Run: frames("data"), Shard: 1},
			{Name: "status", Bounds: "the same for status", Run: frames("status"), Shard: 1},
			{Name: "metadata", Bounds: "the same for metadata", Run: frames("metadata"), Shard: 1},
			{Name: "inner", Bounds: "the end of the name at every place; all 256 timestamp types in data, status and alone at every length; every checksum length and entry width at every length", Run: inner},
			{Name: "entries", Bounds: "all 65536 directory entry headers x lengths 2..31 x 3 contents (quick: two lengths for most)", Run: direntHeaders},
			{Name: "crossed", Bounds: "all 65536 first two bytes x 7 lengths x 7 decoders", Run: crossed},
			{Name: "large", Bounds: "7 decoders x 5 lengths up to 65535 x 4 widths x 6 contents", Run: large},
		}})
}
