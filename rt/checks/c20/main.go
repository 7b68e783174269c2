// C20: status reports page every missing range exactly once within the MTU.
package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"

	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/jroimartin/gocui"

	"verif/checks/h"
	"verif/mc"
	"verif/vnet"
)

var gui *gocui.Gui

func setup(c *mc.Ctx) {
	h.Setup(c)
	gui, _ = gocui.NewGui(gocui.OutputNormal)
}

var widths = []string{"d16", "d32", "d64", ""}

func bytesOf(w string) int {
	switch w {
	case "d32":
		return 4
	case "d64":
		return 8
	}
	return 2
}

// most is the number of missing ranges for which there is room in one frame.
func most(mtu int, w string, ts bool) int {
	n := mtu - 60 - 8 - 8 - 2*bytesOf(w)
	if ts {
		n -= 16
	}
	if n < 0 {
		return 0
	}
	return n / (2 * bytesOf(w))
}

type setting struct {
	mtu      int
	width    string
	ts       bool
	errcode  string
	extra    string // other flags
	last     bool   // the width is given last
	n        int    // missing ranges
	first    int    // where the first received byte is
	step     int
	session  uint32
	progress uint64
	resp     uint64
	of       *sarwin.Transfer // one that has been reported before
}

func (s setting) String() string {
	return fmt.Sprintf("mtu %d width %q timestamp %v errcode %s flags %q ranges %d from %d by %d progress %d in response to %d", s.mtu, s.width, s.ts, s.errcode, s.extra, s.n, s.first, s.step, s.progress, s.resp)
}

func report(c *mc.Ctx, s setting) {
	vnet.Reset()
	sarflags.MtuSet(s.mtu)
	// received ranges with s.n gaps
	var fills, missing holes.Holes
	at := s.first
	if at > 0 {
		if s.n > 0 {
			missing = append(missing, holes.Hole{Start: 0, End: at})
		} else {
			at = 0
		}
	}
	for len(missing) < s.n {
		fills = append(fills, holes.Hole{Start: at, End: at + 1})
		gap := s.step
		if s.step > 1 && s.step != 10 {
			gap += len(missing) * 5 % 7 % 3 // not all of one size
		}
		missing = append(missing, holes.Hole{Start: at + 1, End: at + 1 + gap})
		at += 1 + gap
	}
	fills = append(fills, holes.Hole{Start: at, End: at + 5})
	if s.n == 0 && s.step > 1 {
		fills = nil // nothing received yet
	}
	flags := "errcode=" + s.errcode
	if s.ts {
		flags += ",reqtstamp=yes"
	}
	flags += s.extra
	if s.width != "" {
		if s.last {
			flags += ",descriptor=" + s.width
		} else {
			flags = "descriptor=" + s.width + "," + flags
		}
	}
	peer := &vnet.UDPAddr{IP: vnet.IP{192, 0, 2, 9}, Port: 7542}
	conn, _ := vnet.DialUDP("udp", nil, peer)
	keep := append(holes.Holes(nil), fills...)
	t := &sarwin.Transfer{Direction: sarwin.Responder, Session: s.session, Conn: conn, Peer: peer, Ttype: "put", Filename: "f",
		Progress: s.progress, Inrespto: s.resp, Curfills: fills}
	if s.of != nil {
		t = s.of
		t.Session, t.Conn, t.Peer, t.Progress, t.Inrespto, t.Curfills = s.session, conn, peer, s.progress, s.resp, fills
	}
	var res string
	c.Must("WriteStatus "+s.String(), func() { res = t.WriteStatus(gui, flags) })
	gocui.DropPending()
	c.Op(1)
	if !reflect.DeepEqual(t.Curfills, keep) && len(keep) > 0 {
		c.Fail("changes", "%s: reporting the state changes it", s)
	}
	// can it be reported
	bw := bytesOf(s.width)
	max := uint64(1)<<(8*bw) - 1
	fits := s.width != "d128" && s.progress <= max && s.resp <= max && s.mtu-60-8 >= 8+2*bw
	var want holes.Holes
	if s.errcode == "success" {
		want = missing
	}
	if len(want) > 0 && uint64(want[len(want)-1].End) > max {
		fits = false
	}
	room := most(s.mtu, s.width, s.ts)
	if len(want) > 0 && room < 1 {
		fits = false
	}
	if !fits {
		if res == "success" {
			c.Fail("error", "%s: cannot be reported and gives %q", s, res)
		}
	} else if res != "success" {
		if room >= 1 { // with no room for a single range an error is fine as well
			c.Fail("refused", "%s: gives %q", s, res)
		}
		return
	}
	if fits && len(want) == 0 && len(vnet.Sent) != 1 {
		c.Fail("single", "%s: sent as %d frames", s, len(vnet.Sent))
	}
	var got holes.Holes
	limit := s.mtu - 60 - 8
	for i, d := range vnet.Sent {
		b := d.Data
		if len(b) > limit {
			c.Fail("size", "%s: frame %d has %d bytes, more than %d", s, i, len(b), limit)
		}
		if d.To.String() != peer.String() {
			c.Fail("to", "%s: frame %d goes to %s", s, i, d.To)
		}
		if len(b) < 8+2*bw {
			c.Fail("frame", "%s: frame %d has %d bytes", s, i, len(b))
		}
		w := binary.BigEndian.Uint32(b)
		is := func(f, v string) {
			if !h.Is(w, f, v) {
				c.Fail("flag", "%s: frame %d of %d does not have %s=%s (%#x)", s, i, len(vnet.Sent), f, v, w)
			}
		}
		is("version", "v1")
		is("frametype", "status")
		is("errcode", s.errcode)
		if s.width == "" {
			is("descriptor", "d16")
		} else {
			is("descriptor", s.width)
		}
		if x := binary.BigEndian.Uint32(b[4:]); x != s.session {
			c.Fail("session", "%s: frame %d has session %d", s, i, x)
		}
		at := 8
		if s.ts {
			is("reqtstamp", "yes")
			at += 16
		} else {
			is("reqtstamp", "no")
		}
		if (len(b)-at)%(2*bw) != 0 {
			c.Fail("frame", "%s: frame %d has %d bytes", s, i, len(b))
		}
		num := func() uint64 {
			var v uint64
			for k := 0; k < bw; k++ {
				v = v<<8 | uint64(b[at])
				at++
			}
			return v
		}
		if p, r := num(), num(); p != s.progress || r != s.resp {
			c.Fail("progress", "%s: frame %d has progress %d in response to %d", s, i, p, r)
		}
		mine := 0
		for at < len(b) {
			from, to := num(), num()
			got = append(got, holes.Hole{Start: int(from), End: int(to)})
			mine++
		}
		if fits && mine == 0 && len(want) > 0 {
			c.Fail("empty", "%s: frame %d of %d lists no range although %d are missing", s, i, len(vnet.Sent), len(want))
		}
		if s.errcode == "success" && fits {
			if mine == len(want) {
				is("allholes", "yes")
			} else {
				is("allholes", "no")
			}
		}
	}
	if fits && !(len(got) == 0 && len(want) == 0) && !reflect.DeepEqual(got, want) {
		c.Fail("ranges", "%s: the frames list %d missing ranges, not the %d there are: %v and not %v", s, len(got), len(want), cut(got), cut(want))
	}
}

func cut(h holes.Holes) holes.Holes {
	if len(h) > 12 {
		return h[:12]
	}
	return h
}

var extras = []string{"", ",allholes=yes", ",allholes=no,reqholes=voluntarily", ",metadatarecvd=no,allholes=no", ",metadatarecvd=yes,reqholes=requested,allholes=yes"}

// small datagrams: every number of missing ranges over several pages
func small(c *mc.Ctx) {
	h.Fresh()
	w := mc.Of(c, "width", widths)
	ts := c.Bool("timestamp")
	least := 60 + 8 + 8 + 2*bytesOf(w)
	if ts {
		least += 16
	}
	room := 40
	if c.Thorough() {
		room = 130
	}
	mtu := least - 3 + c.Pick("room", room)
	ex := mc.Of(c, "flags", extras)
	for n := 0; n <= 4*most(mtu, w, ts)+2; n++ {
		for _, first := range []int{0, 7} {
			for step := 1; step < 3; step++ {
				report(c, setting{mtu: mtu, width: w, ts: ts, errcode: "success", extra: ex, last: step == 2, n: n, first: first, step: step, session: uint32(n + 1), progress: uint64(n), resp: uint64(n * 2)})
			}
		}
	}
}

// real datagram sizes: around every page boundary
func boundaries(c *mc.Ctx) {
	h.Fresh()
	w := mc.Of(c, "width", widths)
	ts := c.Bool("timestamp")
	mtu := mc.Of(c, "mtu", []int{576, 1006, 1280, 1281, 1282, 1283, 1284, 1285, 1286, 1287, 1288, 1400, 1492, 1493, 1494, 1495, 1496, 1497, 1498, 1499, 1500, 1501, 2000, 4352, 9000, 65535})
	page := c.Pick("page", 4)
	room := most(mtu, w, ts)
	for d := -2; d <= 2; d++ {
		n := page*room + d
		if n < 0 || 2*n > 65000 {
			continue
		}
		for _, first := range []int{0, 3} {
			step := 1
			if n < 9000 {
				step += first
			}
			report(c, setting{mtu: mtu, width: w, ts: ts, errcode: "success", extra: extras[(page+2)%5], n: n, first: first, step: step, session: 0xfffffffe, progress: 60000, resp: 65535})
		}
	}
}

// pages: lists of many pages
func pages(c *mc.Ctx) {
	h.Fresh()
	w := mc.Of(c, "width", []string{"d16", "d32", "d64"})
	ts := c.Bool("timestamp")
	room := mc.Of(c, "room", []int{1, 2, 5})
	n := mc.Of(c, "pages", []int{11, 17, 33, 41, 65, 101, 129, 257, 1025}) * room
	mtu := 60 + 8 + 8 + 2*bytesOf(w) + 2*bytesOf(w)*room
	if ts {
		mtu += 16
	}
	for d := -1; d <= 1; d++ {
		report(c, setting{mtu: mtu, width: w, ts: ts, errcode: "success", extra: extras[n%5], n: n + d, first: d & 3, step: 2, session: 7, progress: 9, resp: 12})
	}
}

// again: one transfer is reported three times, with other things changed in between
func again(c *mc.Ctx) {
	h.Fresh()
	t := &sarwin.Transfer{Direction: sarwin.Responder, Ttype: "put", Filename: "f"}
	for i := 0; i < 3; i++ {
		s := setting{mtu: mc.Of(c, "mtu", []int{120, 1500}), width: mc.Of(c, "width", []string{"d16", "d64"}), ts: c.Bool("timestamp"), errcode: mc.Of(c, "errcode", []string{"success", "badoffset"}),
			first: 2, step: 2, session: 5, progress: uint64(i), resp: uint64(2 * i), of: t}
		s.n = mc.Of(c, "ranges", []int{0, 1, 30})
		report(c, s)
	}
}

// errors, and values that do not fit
func values(c *mc.Ctx) {
	h.Fresh()
	w := mc.Of(c, "width", []string{"d16", "d32", "d64", "", "d128"})
	ec := mc.Of(c, "errcode", func() (out []string) {
		for _, o := range h.F("errcode").Opts {
			out = append(out, o.Name)
		}
		return
	}())
	vals := []uint64{0, 1, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<64 - 1}
	p := mc.Of(c, "progress", vals)
	r := mc.Of(c, "in response to", vals)
	ts := c.Bool("timestamp")
	for _, n := range []int{0, 1, 5, 800} {
		for _, step := range []int{1, 100, 1 << 20, 1 << 40} {
			for _, s := range []uint32{0, 0xffffffff} {
				report(c, setting{mtu: 1500, width: w, ts: ts, errcode: ec, n: n, first: 0, step: step, session: s, progress: p, resp: r, extra: extras[n%5]})
			}
		}
	}
}

// edge: the last missing range ends just inside or outside of the width
func edges(c *mc.Ctx) {
	h.Fresh()
	w := mc.Of(c, "width", []string{"d16", "d32", "d64", ""})
	n := c.Pick("ranges", 3) + 1
	d := c.Pick("beyond", 5) - 2
	if w == "d64" {
		c.Skip()
	}
	max := 1<<(8*bytesOf(w)) - 1
	// n ranges of 10 bytes at the end
	end := max + d
	first := end - 10*(n-1) - (n - 1)
	report(c, setting{mtu: 1500, width: w, errcode: "success", n: n, first: first, step: 10, session: 1})
}

// failures to send, and no connection
func failures(c *mc.Ctx) {
	h.Fresh()
	sarflags.MtuSet(200)
	n := c.Pick("ranges", 60)
	at := c.Pick("failing frame", 4)
	peer := &vnet.UDPAddr{IP: vnet.IP{192, 0, 2, 9}, Port: 7542}
	vnet.Reset()
	conn, _ := vnet.DialUDP("udp", nil, peer)
	var f holes.Holes
	for i := 0; i <= n; i++ {
		f = append(f, holes.Hole{Start: 3 * i, End: 3*i + 2})
	}
	k := 0
	failed := false
	vnet.SendErr = func(*vnet.UDPConn, *vnet.UDPAddr, []byte) error {
		k++
		if k == at+1 {
			failed = true
			return errors.New("network is down")
		}
		return nil
	}
	t := &sarwin.Transfer{Session: 1, Conn: conn, Peer: peer, Curfills: f}
	none := c.Bool("no connection")
	if none {
		t.Conn = nil
	}
	var res string
	c.Must("WriteStatus", func() { res = t.WriteStatus(gui, "descriptor=d32,errcode=success") })
	c.Op(1)
	gocui.DropPending()
	if (failed || none) == (res == "success") {
		c.Fail("failure", "%d missing ranges, frame %d cannot be sent (connection %v): %q", n, at, !none, res)
	}
	if none && len(vnet.Sent) > 0 {
		c.Fail("failure", "%d frames without a connection", len(vnet.Sent))
	}
}

func main() {
	mc.Main(&mc.Check{ID: "C20", Setup: setup,
		Assume: []string{"a datagram has room for the MTU less 60 bytes of IP and 8 of UDP header", "the flags asked for name an error code and are name=value pairs", "where there is no room for even one range an error is accepted for an empty list too"},
		Scenarios: []mc.Scenario{
			{Name: "small", Bounds: "4 widths x timestamp x 40 (thorough 130) datagram sizes from too small upward x 5 flag lists x every number of missing ranges up to 4 pages x 4 layouts", Run: small},
			{Name: "boundaries", Bounds: "4 widths x timestamp x 26 MTUs x page boundaries 0..3 +-2", Run: boundaries},
			{Name: "pages", Bounds: "3 widths x timestamp x 3 datagram sizes x 9 numbers of pages from 11 to 1025, one range more or less", Run: pages},
			{Name: "again", Bounds: "one transfer reported 3 times, each with any of 2 datagram sizes, 2 widths, timestamp, 2 error codes and 3 numbers of ranges", Run: again},
			{Name: "values", Bounds: "5 widths x 19 error codes x 7x7 progress and in-response-to values x timestamp x 4 range counts x 4 spacings x 2 sessions", Run: values},
			{Name: "edges", Bounds: "last range ending -2..+2 around the largest offset of each width", Run: edges},
			{Name: "failures", Bounds: "0..59 ranges x each of 4 frames failing, no connection", Run: failures},
		}})
}
