// C24: a transfer reassembles exactly under loss, duplication and reordering.
package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"os"
	"path/filepath"

	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/fileio"
	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/jroimartin/gocui"

	"verif/checks/h"
	"verif/mc"
	"verif/vnet"
)

var gui *gocui.Gui

func setup(c *mc.Ctx) {
	h.Setup(c)
	gui, _ = gocui.NewGui(gocui.OutputNormal)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type config struct {
	size   int
	fsz    int // bytes in a data frame at first
	rsz    int // and when resent
	width  string
	ts     string
	mtu    int
	rounds int                    // rounds with faults
	extra  int                    // deliveries in a round beyond the number of frames
	plan   func(frames int) []int // the deliveries of the first round, if they are given
	late   int                    // how many frames of the first round arrive in the second
}

func (g config) String() string {
	return fmt.Sprintf("%d bytes in frames of %d (resent %d) width %s timestamps %s mtu %d", g.size, g.fsz, g.rsz, g.width, g.ts, g.mtu)
}

type run struct {
	c    *mc.Ctx
	g    config
	orig []byte
	src  *os.File
	dst  *os.File
	// the receiver
	t   *sarwin.Transfer
	buf []byte
	d   data.Data
	// what really was delivered
	have []bool
	top  int
	log  string
}

// content differs from byte to byte, or ends in zeros, or is the same all over.
func content(n int, width string) []byte {
	b := make([]byte, n)
	for i := range b {
		switch {
		case width == "d16":
			b[i] = byte(i*7 + 1 + i>>8)
		case width == "d64":
			b[i] = 'x'
		case i < (n+1)/2:
			b[i] = byte(i*5 + 1 + i>>8)
		}
	}
	return b
}

func (r *run) fail(sig, format string, args ...any) {
	r.c.Fail(sig, "%s:%s\n%s", r.g, r.log, fmt.Sprintf(format, args...))
}

// frames cuts a range of the file into encoded data frames, read from the file.
func (r *run) frames(ranges holes.Holes, size int) (out [][]byte) {
	for _, x := range ranges {
		for at := x.Start; at < x.End; at += size {
			n := size
			if at+n > x.End {
				n = x.End - at
			}
			p, err := fileio.FileRead(r.src, uint64(at), n)
			if err != nil {
				r.fail("read", "cannot read %d bytes at %d: %v", n, at, err)
			}
			for len(p) < n { // a short read is allowed
				q, err := fileio.FileRead(r.src, uint64(at+len(p)), n-len(p))
				if err != nil {
					r.fail("read", "cannot read at %d: %v", at+len(p), err)
				}
				p = append(p, q...)
			}
			eod := "no"
			if at+n == r.g.size {
				eod = "yes"
			}
			var d data.Data
			err = d.New("descriptor="+r.g.width+",transfer=file,reqtstamp="+r.g.ts+",eod="+eod, &data.Dinfo{Session: 7, Offset: uint64(at), Payload: p})
			var b []byte
			if err == nil {
				b, err = d.Encode()
			}
			if err != nil {
				r.fail("encode", "cannot encode the data at %d: %v", at, err)
			}
			out = append(out, b)
		}
	}
	return
}

// receive takes one datagram.
func (r *run) receive(b []byte) {
	n := copy(r.buf, b)
	if err := r.d.Decode(r.buf[:n]); err != nil {
		r.fail("decode", "cannot decode a data frame: %v", err)
	}
	for i := range r.buf {
		r.buf[i] = 0xee
	}
	n, err := fileio.FileWrite(r.dst, r.d.Offset, r.d.Payload)
	if err != nil || n != len(r.d.Payload) {
		r.fail("write", "cannot write %d bytes at %d: %d %v", len(r.d.Payload), r.d.Offset, n, err)
	}
	from := int(r.d.Offset)
	to := from + n
	r.t.Curfills = r.t.Curfills.Add(from, to)
	r.c.Op(1)
	r.log += fmt.Sprintf(" [%d,%d)", from, to)
	for i := from; i < to; i++ {
		if i >= len(r.have) {
			r.fail("beyond", "bytes beyond the end of the file")
		}
		r.have[i] = true
	}
	if to > r.top {
		r.top = to
	}
}

// complete is what the receiver believes.
func (r *run) complete() bool {
	f := r.t.Curfills
	if r.g.size == 0 {
		return len(f) == 0
	}
	return f.Lenholes() == 0 && len(f) > 0 && f[len(f)-1].End == r.g.size
}

func (r *run) check() bool {
	truth := true
	for _, x := range r.have {
		truth = truth && x
	}
	if r.complete() != truth {
		r.fail("completion", "complete is reported as %v, received %v", r.complete(), r.have)
	}
	got, err := os.ReadFile(filepath.Join(h.Dir, "dst"))
	must(err)
	if len(got) != r.top {
		r.fail("content", "the received file has %d bytes, not %d", len(got), r.top)
	}
	for i := range got {
		if r.have[i] && got[i] != r.orig[i] || !r.have[i] && got[i] != 0 {
			r.fail("content", "byte %d of the received file is %#x, sent %#x received %v", i, got[i], r.orig[i], r.have[i])
		}
	}
	if truth {
		if !bytes.Equal(got, r.orig) {
			r.fail("content", "the complete file differs")
		}
	}
	return truth
}

// report sends the state to the sender; statuses may be lost. ok: all arrived.
func (r *run) report(faults bool) (resend holes.Holes, some, ok bool) {
	vnet.Sent = nil
	r.t.Progress = uint64(r.top)
	r.t.Inrespto = uint64(r.top)
	if res := r.t.WriteStatus(gui, "descriptor="+r.g.width+",errcode=success,metadatarecvd=yes"); res != "success" {
		r.fail("status", "the state cannot be reported: %s", res)
	}
	gocui.DropPending()
	sent := append([]vnet.Datagram(nil), vnet.Sent...)
	ok = true
	var s status.Status
	buf := make([]byte, 2000)
	for i, d := range sent {
		if faults && i < 3 && r.c.Bool("status lost") {
			ok = false
			r.log += " (status lost)"
			continue
		}
		n := copy(buf, d.Data)
		if err := s.Decode(buf[:n]); err != nil {
			r.fail("status", "the sender cannot decode the status: %v", err)
		}
		some = true
		for _, x := range s.Holes {
			resend = append(resend, x)
		}
		if i == len(sent)-1 && int(s.Inrespto) < r.g.size {
			resend = append(resend, holes.Hole{Start: int(s.Inrespto), End: r.g.size})
		}
		if s.Session != 7 {
			r.fail("status", "status of session %d", s.Session)
		}
	}
	r.log += fmt.Sprintf(" resend %v;", resend)
	if ok && some { // nothing is asked for again that is here, and nothing that is not is left out
		want := make([]bool, len(r.have))
		for _, x := range resend {
			for i := max(0, x.Start); i < min(x.End, len(want)); i++ {
				want[i] = true
			}
		}
		for i := range want {
			if want[i] == r.have[i] {
				r.fail("resend", "byte %d was received: %v, and the sender is asked for it: %v", i, r.have[i], want[i])
			}
		}
	}
	return
}

func sums(b []byte) map[string][]byte {
	m, s := md5.Sum(b), sha1.Sum(b)
	return map[string][]byte{"none": nil, "crc32": binary.BigEndian.AppendUint32(nil, crc32.ChecksumIEEE(b)), "md5": m[:], "sha1": s[:]}
}

func transfer(c *mc.Ctx, g config) {
	h.Fresh()
	sarflags.MtuSet(g.mtu)
	r := &run{c: c, g: g, orig: content(g.size, g.width), have: make([]bool, g.size), buf: make([]byte, 70100+64)}
	if g.size < 1000 {
		r.buf = r.buf[:200]
	}
	src, dst := filepath.Join(h.Dir, "src"), filepath.Join(h.Dir, "dst")
	os.Remove(dst)
	must(os.WriteFile(src, r.orig, 0o644))
	var err error
	if r.src, err = fileio.FileOpen("src", "put"); err != nil {
		r.fail("open", "cannot open the file to send: %v", err)
	}
	defer fileio.FileClose(r.src)
	if r.dst, err = fileio.FileOpen("dst", "get"); err != nil {
		r.fail("open", "cannot open the file to receive: %v", err)
	}
	defer os.Remove(dst)
	defer func() { r.dst.Close() }()
	peer := &vnet.UDPAddr{IP: vnet.IP{192, 0, 2, 1}, Port: 7542}
	conn, _ := vnet.DialUDP("udp", nil, peer)
	r.t = &sarwin.Transfer{Direction: sarwin.Responder, Session: 7, Conn: conn, Peer: peer, Ttype: "put", Filename: "dst"}
	todo := holes.Holes{{Start: 0, End: g.size}}
	size := g.fsz
	var first [][]byte
	for round := 0; ; round++ {
		fs := r.frames(todo, size)
		if round == 0 {
			first = fs
		}
		if round == 1 && g.late > 0 {
			left := g.late
			lost := c.Pick("resent frame lost", len(fs)+1)
			for i := 0; i <= len(fs); i++ {
				for left > 0 {
					k := c.Pick("late frame", len(first)+1)
					if k == 0 {
						break
					}
					left--
					r.receive(first[k-1])
					r.check()
				}
				if i < len(fs) && i+1 != lost {
					r.receive(fs[i])
					r.check()
				}
			}
		} else if round < g.rounds && g.plan != nil {
			for _, i := range g.plan(len(fs)) {
				r.receive(fs[i])
			}
		} else if round < g.rounds {
			for k := 0; k < len(fs)+g.extra; k++ {
				i := c.Pick("delivered", len(fs)+1)
				if i == len(fs) {
					break
				}
				r.receive(fs[i])
				r.check()
			}
		} else {
			for _, b := range fs {
				r.receive(b)
			}
		}
		r.log += " end of round;"
		done := r.check()
		resend, some, _ := r.report(round < g.rounds && g.plan == nil)
		if done && some && len(resend) > 0 {
			r.fail("resend", "complete, and asks for %v", resend)
		}
		if done {
			break
		}
		if round > g.rounds+2 {
			r.fail("ends", "is not complete after %d rounds without loss", round-g.rounds)
		}
		if some && len(resend) > 0 {
			todo = resend
			size = g.rsz
		} else if round+1 >= g.rounds && some && len(resend) == 0 {
			// some statuses were lost: the same again
		}
	}
	if g.size < 1000 || true {
		want := sums(r.orig)
		for _, k := range []string{"crc32", "md5", "sha1"} {
			a, err1 := fileio.Checksum(k, "src")
			b, err2 := fileio.Checksum(k, "dst")
			if err1 != nil || err2 != nil || !bytes.Equal(a, b) || !bytes.Equal(a, want[k]) {
				r.fail("checksum", "%s: sent %x %v, received %x %v, should be %x", k, a, err1, b, err2, want[k])
			}
		}
		// the metadata that goes with it describes what was received
		var m, n metadata.MetaData
		err := m.New("transfer=file,csumtype=md5,descriptor=d32", &metadata.Minfo{Session: 7, Fname: "src"})
		var w []byte
		if err == nil {
			w, err = m.Encode()
		}
		if err == nil {
			err = n.Decode(w)
		}
		if err != nil || !bytes.Equal(n.Checksum, want["md5"]) || n.Dir.Size != uint64(g.size) || n.Session != 7 {
			r.fail("metadata", "the metadata frame of the file does not describe it: %v", err)
		}
	}
	c.Logf("%s:%s complete", g, r.log)
}

// tiny is the smallest MTU with room for n missing ranges.
func tiny(width string, n int) int {
	b := map[string]int{"d16": 2, "d32": 4, "d64": 8}[width]
	return 60 + 8 + 8 + 2*b + 2*b*n
}

func small(maxFrames, rounds, extra int, sizes []int, ts []string) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		g := config{rounds: rounds, extra: extra}
		g.width = mc.Of(c, "width", []string{"d16", "d32", "d64"})
		g.size = mc.Of(c, "size", sizes)
		g.fsz = c.Pick("frame", 3) + 1
		g.rsz = c.Pick("resent frame", 2) + 1
		g.ts = mc.Of(c, "timestamps", ts)
		g.mtu = []int{1500, tiny(g.width, 1), tiny(g.width, 2)}[c.Pick("mtu", 3)]
		n := (g.size + g.fsz - 1) / g.fsz
		if n > maxFrames {
			c.Skip()
		}
		transfer(c, g)
	}
}

// late: frames of the first round arrive among the resent ones, which are cut differently
func late(n int, sizes []int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		g := config{rounds: 1, late: n, mtu: 1500, ts: "no"}
		g.width = mc.Of(c, "width", []string{"d16", "d32", "d64"})
		g.size = mc.Of(c, "size", sizes)
		g.fsz = mc.Of(c, "frame", []int{2, 3})
		g.rsz = mc.Of(c, "resent frame", []int{1, 2, 4})
		if !c.Thorough() && g.size > 2*g.fsz {
			g.late = 1
		}
		transfer(c, g)
	}
}

func large(c *mc.Ctx) {
	g := config{rounds: 1, extra: 1, mtu: 1500, ts: "no"}
	g.width = mc.Of(c, "width", []string{"d32", "d64", "d16"})
	if g.width == "d16" {
		g.size = mc.Of(c, "size", []int{40000, 65535})
		g.fsz = mc.Of(c, "frame", []int{32767, 33000, 65000})
	} else {
		g.size = mc.Of(c, "size", []int{65535, 65536, 65537, 70001})
		g.fsz = mc.Of(c, "frame", []int{35000, 35001, 65000})
	}
	g.rsz = mc.Of(c, "resent frame", []int{1400, 65000})
	transfer(c, g)
}

// stream: many frames, any two runs of them lost, in one of four orders, one of them twice, or every other frame only
func stream(frames []int, step int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		g := config{ts: "no", rounds: 1}
		g.width = mc.Of(c, "width", []string{"d16", "d32", "d64"})
		n := mc.Of(c, "frames", frames)
		g.fsz = mc.Of(c, "frame", []int{700, 1300})
		g.size = n*g.fsz - c.Pick("short of", 2)*13
		g.rsz = mc.Of(c, "resent frame", []int{333, 1400})
		g.mtu = []int{1500, tiny(g.width, 1)}[c.Pick("mtu", 2)]
		a := c.Pick("first lost", (n+step-1)/step) * step
		b := c.Pick("second lost", (n-a+step-1)/step)*step + a
		run := c.Pick("run", 2) + 1
		order := c.Pick("order", 5)
		g.plan = func(i int) (out []int) {
			for k := 0; k < i; k++ {
				j := k
				switch order {
				case 1:
					j = i - 1 - k
				case 2:
					j = k ^ 1
					if j >= i {
						j = k
					}
				case 3, 4: // every other one, and then the rest or nothing
					if j = 2 * k; j >= i {
						if order == 4 {
							return
						}
						j = 2*(k-(i+1)/2) + 1
					}
				}
				if j >= a && j < a+run || j >= b && j < b+run {
					continue
				}
				out = append(out, j)
				if k%7 == 3 {
					out = append(out, out[len(out)/2])
				}
			}
			return
		}
		transfer(c, g)
	}
}

func main() {
	mc.Main(&mc.Check{ID: "C24", Setup: setup,
		Assume: []string{"the sender resends what the statuses name missing and everything beyond the highest byte reported, or the last round again when it hears nothing", "sender and receiver loops are the check's, as the program's are unfinished; every step they take is the program's code"},
		Scenarios: []mc.Scenario{
			{Name: "deliveries", Bounds: "files of 0..6 bytes in up to 3 frames: all delivery sequences (loss, duplication, order) of up to n+1 frames of the first round, all status losses, then resending in frames of 1 or 2 bytes; 3 widths, 3 MTUs, timestamps", Run: small(3, 1, 1, []int{0, 1, 2, 3, 5, 6}, []string{"no", "posix32", "posix64_32"})},
			{Name: "two-rounds", Bounds: "two rounds with faults, files of 3 and 4 bytes in up to 3 frames", Run: small(3, 2, 0, []int{3, 4}, []string{"no"}), Quick: true},
			{Name: "two-rounds-deep", Bounds: "two rounds with faults and duplicates, files of 3..6 bytes in up to 3 frames", Run: small(3, 2, 1, []int{3, 4, 5, 6}, []string{"no"}), Thorough: true},
			{Name: "four-frames", Bounds: "files of 4..6 bytes in 4 frames, one round with all deliveries of up to 5 frames", Run: small(4, 1, 1, []int{4, 5, 6}, []string{"no"})},
			{Name: "five-frames", Bounds: "files of 5..7 bytes in 5 frames, one round with all deliveries of up to 5 frames", Run: small(5, 1, 0, []int{5, 7}, []string{"no"}), Thorough: true},
			{Name: "late", Bounds: "files of 4..6 bytes in 2 or 3 frames: all deliveries of the first round, then resending in frames of 1, 2 or 4 bytes, one of them lost or none, with any 2 frames (1 of 3) of the first round arriving anywhere among them", Run: late(2, []int{4, 5, 6}), Quick: true},
			{Name: "late-3", Bounds: "the same with files of 4..8 bytes in up to 4 frames and any 3 late frames", Run: late(3, []int{4, 5, 6, 8}), Thorough: true},
			{Name: "large", Bounds: "files around 65536 bytes in 2 or 3 frames (d16: 40000 and 65535), all deliveries of up to n+1 frames", Run: large},
			{Name: "stream", Bounds: "files of 47 frames of 700 or 1300 bytes, any two runs of 1 or 2 frames starting at every third frame lost, 4 orders, some twice, or every other frame only; 3 widths, 2 MTUs, 2 sizes of resent frames", Run: stream([]int{47}, 3), Quick: true},
			{Name: "stream-deep", Bounds: "files of 33 and 47 frames of 700 or 1300 bytes, any two runs of 1 or 2 frames lost, 4 orders, some twice, or every other frame only; 3 widths, 2 MTUs, 2 sizes of resent frames", Run: stream([]int{33, 47}, 1), Thorough: true},
		}})
}
