// C26: what the node shows is what it holds.
package main

import (
	"fmt"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/jroimartin/gocui"
	"github.com/jroimartin/gocui/termbox"

	"verif/checks/h"
	"verif/mc"
	"verif/vnet"
	"verif/vs"
	"verif/vtime"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var gui *gocui.Gui
var queued []func(*gocui.Gui) error
var views = []string{"msg", "err", "packet", "cmd"}
var esc = regexp.MustCompile("\x1b\\[[0-9;]*m")

func setup(c *mc.Ctx) {
	h.Setup(c)
	must(os.Chdir(h.Dir))
	gocui.UpdateHook = func(g *gocui.Gui, f func(*gocui.Gui) error) { queued = append(queued, f) }
	var err error
	gui, err = gocui.NewGui(gocui.OutputNormal)
	must(err)
	must(sarwin.Layout(gui))
	queued = nil
}

// flush shows what is still queued for the screen.
func flush() {
	q := queued
	queued = nil
	for _, f := range q {
		f(gui)
	}
}

// output is what was shown since, without colours. The user interface may run what is queued
// for it in any order; here it does so from the last to the first.
func output(c *mc.Ctx, what string) string {
	for _, n := range views {
		v, _ := gui.View(n)
		v.Clear()
	}
	q := queued
	queued = nil
	c.Must("showing the output of "+what, func() {
		for i := range q {
			must(q[len(q)-1-i](gui))
		}
	})
	var b strings.Builder
	for _, n := range views {
		v, _ := gui.View(n)
		b.WriteString(v.Buffer())
	}
	return esc.ReplaceAllString(b.String(), "")
}

// want is a value that has to be shown under one of the labels (all lower case), or not at all.
type want struct {
	labels []string
	value  string
	not    bool
}

// shows reports whether text has the value directly after the label.
func shows(text string, w want) bool {
	for _, l := range w.labels {
		rest := text
		for {
			i := strings.Index(strings.ToLower(rest), l)
			if i < 0 {
				break
			}
			before := i == 0 || !word(rest[i-1])
			rest = rest[i+len(l):]
			if !before {
				continue
			}
			if w.not {
				return true
			}
			t := strings.TrimLeft(rest, " \t")
			t = strings.TrimLeft(strings.TrimPrefix(t, ":"), " \t")
			if strings.HasPrefix(t, w.value) && (len(t) == len(w.value) || w.value == "" || !word(t[len(w.value)]) || !word(w.value[len(w.value)-1])) {
				return true
			}
		}
	}
	return false
}

func word(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '_'
}

// one judges a printed text.
func one(c *mc.Ctx, what, text string, ws []want) {
	for _, w := range ws {
		if shows(text, w) == w.not {
			if w.not {
				c.Fail("shown", "%s shows %v, which it does not have: %q", what, w.labels, text)
			}
			c.Fail("shown", "%s does not show %v as %q: %q", what, w.labels, w.value, text)
		}
	}
}

// printed calls a print function twice and sees that it only prints.
func printed(c *mc.Ctx, what string, v any, f func() string) string {
	before := fmt.Sprintf("%#v", v)
	var a, b string
	c.Must(what, func() { a = f(); b = f() })
	c.Op(2)
	if lines(a) != lines(b) {
		c.Fail("differs", "%s is shown as %q and then as %q", what, a, b)
	}
	if s := fmt.Sprintf("%#v", v); s != before {
		c.Fail("changed", "showing %s changes it from %s to %s", what, before, s)
	}
	return a
}

// lines in a fixed order: that of the flags is not defined
func lines(s string) string {
	l := strings.Split(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func flags(frame string, hdr uint32) (out []want) {
	for _, f := range h.For(frame) {
		if n := f.NameOf(f.Get(32, hdr)); n != "" {
			out = append(out, want{labels: []string{f.Name}, value: n})
		}
	}
	return
}

func num(label string, v uint64) want {
	return want{labels: strings.Split(label, "|"), value: strconv.FormatUint(v, 10)}
}
func text(label, v string) want { return want{labels: strings.Split(label, "|"), value: v} }

// hex is shown anywhere.
func header(c *mc.Ctx, what, s string, hdr uint64) {
	if !strings.Contains(strings.ToLower(s), fmt.Sprintf("%x", hdr)) {
		c.Fail("header", "%s does not show the header %x: %q", what, hdr, s)
	}
}

func stamp(typ string, sec int64, nsec uint32) string {
	t := time.Unix(sec, int64(nsec)).UTC()
	switch typ {
	case "localinterp":
		return "localinterp"
	case "posix32_32", "posix64_32":
		return t.Format("Mon Jan _2 15:04:05.000 2006 UTC")
	}
	return t.Format("Mon Jan _2 15:04:05 2006 UTC")
}

type instant struct {
	typ  string
	sec  int64
	nsec uint32
	text string // of a local timestamp
}

var instants = []instant{{"posix32", 1, 0, ""}, {"posix32", 1<<32 - 1, 0, ""}, {"posix64", 1 << 33, 0, ""}, {"posix32_32", 1700000000, 999999999, ""}, {"posix32_32", 86399, 1000000, ""},
	{"posix64_32", 1 << 34, 5000000, ""}, {"epoch2000_32", h.Epoch2000, 0, ""}, {"epoch2000_32", h.Epoch2000 + 1<<32 - 1, 0, ""}, {"localinterp", 0, 0, "localinterp"}, {"localinterp", 0, 0, "ab  c"}}

func (t instant) wire() []byte {
	if t.text != "" {
		b := append([]byte{byte(h.Tstamp.Value("localinterp"))}, t.text...)
		return append(b, make([]byte, 16-len(b))...)
	}
	b, _, ok := h.Ts(t.typ, t.sec, t.nsec)
	if !ok {
		panic("no such timestamp")
	}
	return b
}
func (t instant) String() string {
	if t.text != "" {
		return t.text
	}
	return stamp(t.typ, t.sec, t.nsec)
}

var sessions = []uint32{0, 1, 9, 0x7fffffff, 0x80000000, 1234567890, 0xffffffff}

// hdr picks a header of the frame type: any combination of the given fields' values, named or not.
func pickHeader(c *mc.Ctx, frame string, fields ...string) uint32 {
	w := h.Header(frame)
	for _, n := range fields {
		f := h.F(n)
		w = f.Put(32, w, uint32(c.Pick(n, 1<<f.Len)))
	}
	return w
}

func boundary(width int) (out []uint64) {
	for _, v := range []uint64{0, 1, 9, 10, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1234567890123, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
		if h.Fits(v, width) {
			out = append(out, v)
		}
	}
	return
}

func dataFrames(c *mc.Ctx) {
	hdr := pickHeader(c, "data", "transfer", "reqtstamp", "reqstatus", "eod")
	d := mc.Of(c, "descriptor", []string{"d16", "d32", "d64"})
	hdr = h.F("descriptor").Put(32, hdr, h.F("descriptor").Value(d))
	n := mc.Of(c, "length", []int{0, 1, 10, 255, 1400, 65535, 65537})
	ses, off := sessions[1], uint64(9)
	if n <= 1400 {
		ses = mc.Of(c, "session", sessions)
		off = mc.Of(c, "offset", boundary(h.Width(d)))
	}
	b := h.U(h.U(nil, 4, uint64(hdr)), 4, uint64(ses))
	ts := h.Is(hdr, "reqtstamp", "yes")
	tw := want{labels: []string{"tstamp", "timestamp"}, not: true}
	if ts {
		t := mc.Of(c, "instant", instants)
		b = append(b, t.wire()...)
		tw = text("tstamp|timestamp", t.String())
	}
	b = h.U(b, h.Width(d), off)
	b = append(b, strings.Repeat("p", n)...)
	v := new(data.Data)
	must(v.Decode(b))
	long := printed(c, "a data frame", v, func() string { return v.Print() })
	short := printed(c, "a data frame in short", v, func() string { return v.ShortPrint() })
	common := []want{tw, num("session", uint64(ses)), num("offset", off), num("paylen|paylen ", uint64(n))}
	one(c, "a data frame", long, append(flags("data", hdr), common...))
	one(c, "a data frame in short", short, common)
	header(c, "a data frame", long, uint64(hdr))
	header(c, "a data frame in short", short, uint64(hdr))
}

func statusFrames(c *mc.Ctx) {
	hdr := h.Header("status")
	full := c.Bool("every flag")
	if full {
		hdr = pickHeader(c, "status", "reqtstamp", "metadatarecvd", "allholes", "reqholes")
		e := c.Pick("errcode", 20)
		if e == 19 {
			e = 255
		}
		hdr = h.F("errcode").Put(32, hdr, uint32(e))
	} else {
		hdr = pickHeader(c, "status", "reqtstamp")
	}
	d := mc.Of(c, "descriptor", []string{"d16", "d32", "d64"})
	hdr = h.F("descriptor").Put(32, hdr, h.F("descriptor").Value(d))
	w := h.Width(d)
	ses := mc.Of(c, "session", sessions)
	var prog, resp uint64
	if full {
		prog, resp = 77, 33
	} else {
		prog, resp = mc.Of(c, "progress", boundary(w)), mc.Of(c, "in response to", boundary(w))
	}
	b := h.U(h.U(nil, 4, uint64(hdr)), 4, uint64(ses))
	tw := want{labels: []string{"tstamp", "timestamp"}, not: true}
	if h.Is(hdr, "reqtstamp", "yes") {
		t := instants[3]
		if full {
			t = mc.Of(c, "instant", instants)
		}
		b = append(b, t.wire()...)
		tw = text("tstamp|timestamp", t.String())
	}
	b = h.U(h.U(b, w, prog), w, resp)
	nh := mc.Of(c, "holes", []int{0, 1, 2, 11})
	holes := []want{}
	var at uint64 = 3
	for i := 0; i < nh; i++ {
		e := at + uint64(i) + 1
		if i == nh-1 && i > 0 {
			e = []uint64{0, 65535, 1<<32 - 1, 0, 1<<63 - 1}[w/2]
		}
		b = h.U(h.U(b, w, at), w, e)
		holes = append(holes, text(fmt.Sprintf("hole[%d]", i), fmt.Sprintf("Start:%d End:%d", at, e)))
		at = e + 5
	}
	v := new(status.Status)
	must(v.Decode(b))
	long := printed(c, "a status", v, func() string { return v.Print() })
	short := printed(c, "a status in short", v, func() string { return v.ShortPrint() })
	common := []want{tw, num("session", uint64(ses)), num("progress", prog), num("inrespto|inresponseto", resp)}
	ws := append(append(flags("status", hdr), common...), holes...)
	ws = append(ws, want{labels: []string{fmt.Sprintf("hole[%d]", nh)}, not: true})
	one(c, "a status", long, ws)
	if ec := h.F("errcode"); ec.NameOf(ec.Get(32, hdr)) != "" {
		common = append(common, text("errcode", ec.NameOf(ec.Get(32, hdr))))
	}
	one(c, "a status in short", short, append(common, num("holes", uint64(nh))))
	header(c, "a status", long, uint64(hdr))
	header(c, "a status in short", short, uint64(hdr))
}

var names = []string{"a", "dir/file", "a b", "x%dy%s%", "ü", "a:b", strings.Repeat("n", 200), "|", "no such\tname"}

func beacons(c *mc.Ctx) {
	hdr := pickHeader(c, "beacon", "stream", "txwilling", "rxwilling", "udplite", "freespace")
	hdr = h.F("descriptor").Put(32, hdr, uint32(c.Pick("descriptor", 3)))
	eid := mc.Of(c, "identity", names)
	b := h.U(nil, 4, uint64(hdr))
	fw := want{labels: []string{"free:"}, not: true}
	if h.Is(hdr, "freespace", "yes") {
		d := mc.Of(c, "space descriptor", []string{"d16", "d32", "d64"})
		hdr = h.F("freespaced").Put(32, hdr, h.F("freespaced").Value(d))
		free := mc.Of(c, "space", boundary(h.Width(d)))
		b = h.U(h.U(nil, 4, uint64(hdr)), h.Width(d), free)
		fw = text("free", strconv.FormatUint(free, 10)+"kB")
	}
	b = append(b, eid...)
	v := new(beacon.Beacon)
	must(v.Decode(b))
	long := printed(c, "a beacon", v, func() string { return v.Print() })
	short := printed(c, "a beacon in short", v, func() string { return v.ShortPrint() })
	common := []want{fw, text("eid", eid)}
	one(c, "a beacon", long, append(flags("beacon", hdr), common...))
	one(c, "a beacon in short", short, common)
	header(c, "a beacon", long, uint64(hdr))
	header(c, "a beacon in short", short, uint64(hdr))
}

func requests(c *mc.Ctx) {
	hdr := pickHeader(c, "request", "stream", "txwilling", "rxwilling", "udplite", "fileordir")
	hdr = h.F("descriptor").Put(32, hdr, uint32(c.Pick("descriptor", 3)))
	t := c.Pick("type", 9)
	if t == 8 {
		t = 200
	}
	hdr = h.F("reqtype").Put(32, hdr, uint32(t))
	ses := mc.Of(c, "session", sessions)
	name := mc.Of(c, "name", names)
	auth := mc.Of(c, "credentials", []string{"", "secret", "p%d w"})
	b := h.U(h.U(nil, 4, uint64(hdr)), 4, uint64(ses))
	b = append(append(append(b, name...), 0), auth...)
	v := new(request.Request)
	must(v.Decode(b))
	long := printed(c, "a request", v, func() string { return v.Print() })
	short := printed(c, "a request in short", v, func() string { return v.ShortPrint() })
	common := []want{num("session", uint64(ses)), text("filename", name), text("auth", auth)}
	one(c, "a request", long, append(flags("request", hdr), common...))
	one(c, "a request in short", short, common)
	header(c, "a request", long, uint64(hdr))
	header(c, "a request in short", short, uint64(hdr))
}

func metas(c *mc.Ctx) {
	hdr := pickHeader(c, "metadata", "transfer", "progress", "reliability")
	k := c.Pick("checksum", 4)
	kind := []string{"none", "crc32", "md5", "sha1"}[k]
	n := []int{0, 1, 4, 5}[k]
	hdr = h.F("csumtype").Put(32, hdr, uint32(k))
	hdr = h.F("csumlen").Put(32, hdr, uint32(n))
	ses := mc.Of(c, "session", sessions[:4])
	sum := make([]byte, n*4)
	for i := range sum {
		sum[i] = byte(i*37 + 3)
	}
	d := mc.Of(c, "descriptor", []string{"d16", "d32", "d64"})
	hdr = h.F("descriptor").Put(32, hdr, h.F("descriptor").Value(d))
	prop := mc.Of(c, "property", []string{"normalfile", "normaldirectory", "specialfile", "specialdirectory"})
	eh := h.Header16("descriptor", d, "property", prop)
	size := mc.Of(c, "size", boundary(h.Width(d)))
	times := [][2]uint32{{0, 1}, {1700000000 - h.Epoch2000, 0x7fffffff}, {1<<32 - 1, 86399}}
	tm := mc.Of(c, "times", times)
	name := mc.Of(c, "name", names[2:7])
	ent := h.U(h.U(nil, 2, uint64(eh)), h.Width(d), size)
	ent = h.U(h.U(ent, 4, uint64(tm[0])), 4, uint64(tm[1]))
	ent = append(append(ent, name...), 0)
	b := h.U(h.U(nil, 4, uint64(hdr)), 4, uint64(ses))
	b = append(append(b, sum...), ent...)
	v := new(metadata.MetaData)
	must(v.Decode(b))
	long := printed(c, "metadata", v, func() string { return v.Print() })
	short := printed(c, "metadata in short", v, func() string { return v.ShortPrint() })
	cw := want{labels: []string{"checksum"}, not: true}
	if k > 0 {
		cw = text("checksum ["+kind+"]", fmt.Sprintf("%x", sum))
	}
	at := func(s uint32) string { return stamp("epoch2000_32", h.Epoch2000+int64(s), 0) }
	entry := []want{text("path", name), num("size", size), text("mtime", at(tm[0])), text("ctime", at(tm[1]))}
	common := append([]want{cw, num("session", uint64(ses))}, entry...)
	one(c, "metadata", long, append(flags("metadata", hdr), common...))
	one(c, "metadata in short", short, common)
	one(c, "metadata", long, []want{text("property", prop)})
	for _, s := range []string{long, short} {
		header(c, "metadata", s, uint64(hdr))
		header(c, "metadata", s, uint64(eh))
	}
	e := new(dirent.DirEnt)
	must(e.Decode(ent))
	long = printed(c, "a directory entry", e, func() string { return e.Print() })
	short = printed(c, "a directory entry in short", e, func() string { return e.ShortPrint() })
	one(c, "a directory entry", long, append([]want{text("property", prop), text("descriptor", d)}, entry...))
	one(c, "a directory entry in short", short, entry)
}

// cells takes a table apart: the rows by the titles of the columns.
func cells(c *mc.Ctx, what, s string) (title []string, rows [][]string) {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(strings.TrimRight(l, "\x00"))
		if !strings.HasPrefix(l, "|") || strings.HasPrefix(l, "|-") {
			continue
		}
		var r []string
		for _, x := range strings.Split(strings.Trim(l, "|"), "|") {
			r = append(r, strings.TrimSpace(x))
		}
		if title == nil {
			title = r
		} else {
			rows = append(rows, r)
		}
	}
	for _, r := range rows {
		if len(r) != len(title) {
			c.Fail("table", "%s has %d columns and a row of %d: %q", what, len(title), len(r), s)
		}
	}
	return
}

func column(title []string, name string) int {
	for i, t := range title {
		if strings.EqualFold(t, name) {
			return i
		}
	}
	return -1
}

func run(c *mc.Ctx, line string) string {
	flush()
	r := c.Sched(vs.Config{Start: time.Date(2024, 5, 6, 7, 8, 9, 0, time.UTC)}, func() { sarwin.Run(gui, line) })
	c.Op(1)
	if r.Crash != "" || r.Died || r.Livelock || len(r.Blocked) > 0 {
		c.Fail("ends", "%q ends or hangs: %s %v\n%s", line, r.Crash, r.Blocked, r.Stack)
	}
	return output(c, line)
}

// peers: the table of the command shows the peers
func peers(depth int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		h.Fresh()
		n, few := c.Pick("peers", depth+1), true
		of := func(what string, i, n int) int { return c.Pick(what, n) }
		if depth > 2 {
			// many of them, of which not every combination is taken
			n, few = []int{9, 10, 11, 16, 33, 65, 101, 300}[n], false
			of = func(what string, i, n int) int { return (i/2 + len(what)) % n }
		}
		froms := []*vnet.UDPAddr{{IP: vnet.IP{192, 0, 2, 51}, Port: 7542}, {IP: vnet.IP{192, 0, 2, 5}, Port: 7542}, {IP: vnet.ParseIP("2001:db8::5"), Port: 7542}, {IP: vnet.IP{10, 20, 30, 40}, Port: 1},
			{IP: vnet.ParseIP("fe80::1:2:3:4"), Port: 7542, Zone: "en0"}}
		for i := 0; i < n; i++ {
			hdr := h.Header("beacon", "descriptor", []string{"d16", "d64"}[of("descriptor", i, 2)], "freespace", "yes", "freespaced", "d64",
				"txwilling", []string{"no", "capable", "yes"}[of("txwilling", i, 3)], "rxwilling", []string{"yes", "no"}[of("rxwilling", i, 2)])
			b := h.U(h.U(nil, 4, uint64(hdr)), 8, []uint64{0, 1 << 20, 12345678 << 20, 1<<64 - 1}[of("space", i, 4)])
			b = append(b, []string{"", "x", "192.0.2.5:7542-99", "a b%d"}[of("identity", i, 4)]...)
			v := new(beacon.Beacon)
			must(v.Decode(b))
			k := i
			if i > 0 && few {
				k = c.Pick("from", 2) + i - 1
			}
			from := &vnet.UDPAddr{IP: vnet.IP{10, 1, byte(i >> 8), byte(i)}, Port: 7542}
			if few {
				from = froms[k]
			}
			at := int64(i)
			if !few {
				at /= 4 // some are heard at the same time
			}
			vtime.Clock = time.Unix(1700000000+at*61, 5000000*at)
			c.Must("NewPeer", func() { beacon.NewPeer(v, from) })
		}
		var want []string
		type row = map[string]string
		for _, v := range h.Rows(beacon.Peers) {
			str := func(f string) string { return fmt.Sprint(v.FieldByName(f).Interface()) }
			tm := func(f string) string {
				x := v.FieldByName(f)
				if x.CanAddr() && x.Addr().MethodByName("Print").IsValid() {
					return x.Addr().MethodByName("Print").Call(nil)[0].String()
				}
				p := reflect.New(x.Type())
				p.Elem().Set(x)
				return p.MethodByName("Print").Call(nil)[0].String()
			}
			gb := v.FieldByName("Freespace").Uint() / 1024 / 1024
			want = append(want, fmt.Sprintf("%q", row{"ip": str("Addr"), "gb": fmt.Sprint(gb), "eid": str("Eid"), "des": str("Maxdesc"),
				"rx": str("Canrx"), "tx": str("Cantx"), "created": tm("Created"), "modified": tm("Updated")}))
		}
		before := fmt.Sprintf("%#v", beacon.Peers)
		s := run(c, "peers")
		if fmt.Sprintf("%#v", beacon.Peers) != before {
			c.Fail("changed", "listing the peers changes them from %s to %#v", before, beacon.Peers)
		}
		title, rows := cells(c, "the list of peers", s)
		var got []string
		for _, r := range rows {
			m := row{}
			for i := range r {
				m[strings.ToLower(title[i])] = r[i]
			}
			got = append(got, fmt.Sprintf("%q", m))
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			c.Fail("peers", "the peers are\n%s\nand shown are\n%s\n%q", strings.Join(want, "\n"), strings.Join(got, "\n"), s)
		}
	}
}

// transfers: the table of the commands shows the transfers
func transfers(depth int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		h.Fresh()
		n := c.Pick("transfers", depth+1)
		of := func(what string, i, n int) int { return c.Pick(what, n) }
		if depth > 2 {
			n = []int{9, 10, 11, 16, 33, 65, 101, 300}[n]
			of = func(what string, i, n int) int { return (i/2 + i*len(what)) % n }
		}
		var all []*sarwin.Transfer
		for i := 0; i < n; i++ {
			t := &sarwin.Transfer{Session: uint32(i)}
			if of("responder", i, 2) == 1 {
				t.Direction = sarwin.Responder
			} else {
				t.Direction = sarwin.Initiator
			}
			t.Ttype = []string{"get", "put", "getdir", "take", "give", "putblind", "delete"}[of("type", i, 7)]
			t.Peer = []*vnet.UDPAddr{{IP: vnet.IP{192, 0, 2, 5}, Port: 7542}, {IP: vnet.ParseIP("2001:db8::5"), Port: 7542}}[of("peer", i, 2)]
			t.Filename = []string{"f", "a/long name", "100%d"}[of("file", i, 3)]
			all = append(all, t)
			what := fmt.Sprintf("the transfer %d", i)
			p := printed(c, what, t, func() string { return t.Print() })
			for _, x := range []string{sarwin.Directions[t.Direction], t.Ttype, t.Peer.String(), t.Filename} {
				if !strings.Contains(p, x) {
					c.Fail("transfer", "%s is shown as %q, without %q", what, p, x)
				}
			}
		}
		sarwin.Trmu.Lock()
		sarwin.Transfers = append([]*sarwin.Transfer(nil), all...)
		sarwin.Trmu.Unlock()
		line := mc.Of(c, "command", []string{"tran", "tran get", "tran put", "tran getdir", "tran take", "tran give", "tran putblind", "files", "get", "put", "getdir", "take", "give", "putblind", "delete"})
		_, only, _ := strings.Cut(line, " ")
		if only == "" && line != "tran" && line != "files" {
			only = line
		}
		var want, got []string
		for _, t := range all {
			if only == "" || t.Ttype == only {
				want = append(want, fmt.Sprintf("%q", []string{sarwin.Directions[t.Direction], t.Ttype, t.Peer.String(), t.Filename}))
			}
		}
		s := run(c, line)
		title, rows := cells(c, "the list of transfers", s)
		if len(rows) > 0 {
			for _, n := range []string{"direct", "tran typ", "ip", "fname"} {
				if column(title, n) < 0 {
					c.Fail("table", "%q shows no %s: %q", line, n, s)
				}
			}
		}
		for _, r := range rows {
			got = append(got, fmt.Sprintf("%q", []string{r[column(title, "direct")], r[column(title, "tran typ")], r[column(title, "ip")], r[column(title, "fname")]}))
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			c.Fail("transfers", "%q: the transfers are\n%s\nand shown are\n%s\n%q", line, strings.Join(want, "\n"), strings.Join(got, "\n"), s)
		}
		if len(sarwin.Transfers) != len(all) {
			c.Fail("changed", "%q changes the transfers", line)
		}
		sarwin.Transfers = nil
	}
}

// windows: what is sent to a window is shown there, in order and to the letter
var texts = []string{"a", "x%dy%s%", "two\nlines", "ü", "|", strings.Repeat("w", 300)}

// print prints a text and gives what has to appear.
func print(win, col, txt string, i int, how bool) string {
	switch win {
	case "msg":
		if how {
			sarwin.MsgPrintf(gui, col, "<%s>%d\n", txt, i)
		} else {
			sarwin.MsgPrintln(gui, col, txt, i)
		}
	case "err":
		if how {
			sarwin.ErrPrintf(gui, col, "<%s>%d\n", txt, i)
		} else {
			sarwin.ErrPrintln(gui, col, txt, i)
		}
	case "packet":
		if how {
			sarwin.PacketPrintf(gui, col, "<%s>%d\n", txt, i)
		} else {
			sarwin.PacketPrintln(gui, col, txt, i)
		}
	default:
		if how {
			sarwin.CmdPrintf(gui, col, "<%s>%d\n", txt, i)
		} else {
			sarwin.CmdPrintln(gui, col, txt, i)
		}
	}
	if how {
		return fmt.Sprintf("<%s>%d\n", txt, i)
	}
	return fmt.Sprintf("%s%d\n", txt, i)
}

func begin() {
	h.Fresh()
	queued = nil
	for _, n := range views {
		v, _ := gui.View(n)
		v.Clear()
	}
}

// showAll lets the user interface run what is queued, in every order.
func showAll(c *mc.Ctx) {
	for len(queued) > 0 {
		i := c.Pick("shown next", len(queued))
		f := queued[i]
		queued = append(queued[:i:i], queued[i+1:]...)
		c.Must("showing", func() { must(f(gui)) })
	}
}

func window(n string) string {
	v, _ := gui.View(n)
	defer v.Clear()
	return strings.TrimRight(esc.ReplaceAllString(v.Buffer(), ""), "\n\x00 ")
}

// windows: texts appear in their window in the order in which they were printed
func windows(depth int, texts, colours []string) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		begin()
		want := map[string]string{}
		for i := 0; i < depth; i++ {
			win := views[c.Pick("window", 4)]
			txt := mc.Of(c, "text", texts)
			col := mc.Of(c, "colour", colours)
			how := c.Bool("formatted")
			c.Must("printing", func() { want[win] += print(win, col, txt, i, how) })
			c.Op(1)
		}
		showAll(c)
		for _, n := range views {
			if got, w := window(n), strings.TrimRight(want[n], "\n "); got != w {
				c.Fail("window", "the window %s shows %q and not %q", n, got, w)
			}
		}
	}
}

// cleared: windows are emptied as asked, and what is printed later is seen on the screen
func cleared(depth int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		begin()
		old := gui
		defer func() { gui, termbox.Screen, queued = old, nil, nil }()
		size := mc.Of(c, "terminal", [][2]int{{160, 60}, {80, 24}})
		oc, or := termbox.Cols, termbox.Rows
		termbox.Cols, termbox.Rows = size[0], size[1]
		defer func() { termbox.Cols, termbox.Rows = oc, or }()
		var err error
		gui, err = gocui.NewGui(gocui.OutputNormal)
		must(err)
		sarwin.FirstPass = true
		gui.SetManagerFunc(sarwin.Layout)
		must(gui.Redraw())
		termbox.Screen = make([][]rune, size[1])
		for i := range termbox.Screen {
			termbox.Screen[i] = make([]rune, size[0])
		}
		at := c.Pick("shown", 3) // after each step, at the end, at the end from last to first
		show := func() {
			c.Must("showing", func() {
				for len(queued) > 0 {
					i := 0
					if at == 2 {
						i = len(queued) - 1
					}
					f := queued[i]
					queued = append(queued[:i:i], queued[i+1:]...)
					must(f(gui))
				}
				must(gui.Redraw())
			})
		}
		want := map[string][]string{}
		n := 0
		for i := 0; i < depth; i++ {
			k := c.Pick("step", 9+6)
			if k < 9 {
				win := views[k%3]
				for j := []int{1, 25, 100}[k/3]; j > 0; j-- {
					n++
					want[win] = append(want[win], strings.TrimSpace(print(win, "green_black", "text", n, false)))
				}
			} else {
				line := []string{"clear", "clear msg", "clear err", "clear packet", "clear msg err", "clear packet msg"}[k-9]
				r := c.Sched(vs.Config{}, func() { sarwin.Run(gui, line) })
				if r.Crash != "" || r.Died || len(r.Blocked) > 0 {
					c.Fail("ends", "the line %q ends the program or hangs: %s\n%s", line, r.Crash, r.Stack)
				}
				a := strings.Fields(line)[1:]
				if len(a) == 0 {
					a = views[:3]
				}
				for _, w := range a {
					want[w] = nil
				}
			}
			c.Op(1)
			if at == 0 {
				show()
			}
		}
		show()
		must(gui.Redraw())
		own := func(l []string) (out []string) { // without what the command itself says
			for _, l := range l {
				if l = strings.Trim(l, " \x00"); strings.HasPrefix(l, "text") {
					out = append(out, l)
				}
			}
			return
		}
		for _, w := range views[:3] {
			v, err := gui.View(w)
			must(err)
			if got := own(v.BufferLines()); strings.Join(got, "\n") != strings.Join(want[w], "\n") {
				c.Fail("cleared", "the window %s holds %d lines %.80q and not %d lines %.80q", w, len(got), fmt.Sprint(got), len(want[w]), fmt.Sprint(want[w]))
			}
			if w == "packet" {
				continue // lies below, and shows the oldest
			}
			x0, y0, x1, y1, err := gui.ViewPosition(w)
			must(err)
			var seen []string
			for y := y0 + 1; y < y1; y++ {
				seen = append(seen, string(termbox.Screen[y][x0+1:x1]))
			}
			got := own(seen)
			newest := want[w]
			room := y1 - y0 - 2 // the last row is empty
			if w == "msg" {
				room -= 2 * depth // what the commands say
			}
			if len(newest) > room {
				newest = newest[len(newest)-room:]
			}
			if len(got) < len(newest) || strings.Join(got[len(got)-len(newest):], "\n") != strings.Join(newest, "\n") {
				c.Fail("seen", "the screen shows %d lines %.80q in %s, where the newest are %.200q", len(got), fmt.Sprint(got), w, fmt.Sprint(newest))
			}
		}
	}
}

// late: what is shown is what was held when it was printed
func late(c *mc.Ctx) {
	begin()
	win := views[c.Pick("window", 4)]
	how := c.Bool("formatted")
	b := []byte("abc")
	n := 7
	p := &struct{ N int }{7}
	f := map[string]func(*gocui.Gui, string, string, ...any){"msg": sarwin.MsgPrintf, "err": sarwin.ErrPrintf, "packet": sarwin.PacketPrintf, "cmd": sarwin.CmdPrintf}[win]
	l := map[string]func(*gocui.Gui, string, ...any){"msg": sarwin.MsgPrintln, "err": sarwin.ErrPrintln, "packet": sarwin.PacketPrintln, "cmd": sarwin.CmdPrintln}[win]
	var want string
	c.Must("printing", func() {
		if how {
			want = fmt.Sprintf("%s %d %v", b, n, p)
			f(gui, "", "%s %d %v", b, n, p)
		} else {
			want = fmt.Sprint(b, n, p)
			l(gui, "", b, n, p)
		}
	})
	c.Op(1)
	copy(b, "xyz")
	p.N = 8
	showAll(c)
	if got := window(win); got != want {
		c.Fail("late", "the window %s shows %q, which was %q when it was printed", win, got, want)
	}
}

// together: two parts of the node print at a time
func together(n, preempt int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		begin()
		var win [2][]string
		var want [2][]string
		for k := range win {
			for i := 0; i < n; i++ {
				win[k] = append(win[k], mc.Of(c, "window", []string{"msg", "err"}))
				want[k] = append(want[k], "")
			}
		}
		how := c.Bool("formatted")
		r := c.Sched(vs.Config{Preempt: preempt, FreeSwitch: true}, func() {
			for k := range win {
				vs.Go(fmt.Sprint("printer", k), func() {
					for i, w := range win[k] {
						want[k][i] = print(w, "red_black", fmt.Sprintf("%c", 'a'+k), i, how)
					}
				})
			}
		})
		c.Op(2 * n)
		if r.Crash != "" || r.Died || r.Livelock || len(r.Blocked) > 0 {
			c.Fail("ends", "printing from two places at a time ends or hangs: %s %v\n%s", r.Crash, r.Blocked, r.Stack)
		}
		showAll(c)
		for _, w := range []string{"msg", "err"} {
			got := window(w)
			var seq [2]string
			total := 0
			for k := range win {
				for i := range win[k] {
					if win[k][i] == w {
						seq[k] += want[k][i]
						total++
					}
				}
			}
			var have [2]string
			lines := 0
			for _, l := range strings.Split(got, "\n") {
				if l == "" {
					continue
				}
				lines++
				for k := range have {
					if strings.Contains(l, string(rune('a'+k))) {
						have[k] += l + "\n"
					}
				}
			}
			if have != seq || lines != total {
				c.Fail("together", "two printers print %q to the window %s, which shows %q", seq, w, got)
			}
		}
	}
}

func main() {
	mc.Main(&mc.Check{ID: "C26", Setup: setup,
		Assume: []string{"values are looked for directly behind the label they are shown with", "names hold no line break"},
		Scenarios: []mc.Scenario{
			{Name: "data", Bounds: "every header x 3 descriptors x 7 sessions x all boundary offsets x 5 lengths x 9 timestamps", Run: dataFrames},
			{Name: "status", Bounds: "every flag, or all pairs of boundary progress x in response to; 7 sessions, up to 11 holes, 9 timestamps", Run: statusFrames},
			{Name: "beacon", Bounds: "every header x 9 identities x all boundary spaces", Run: beacons},
			{Name: "request", Bounds: "every header x 9 types x 7 sessions x 9 names x 3 credentials", Run: requests},
			{Name: "metadata", Bounds: "every header x 4 checksums x 4 sessions x 4 properties x all boundary sizes x 3 times x 5 names", Run: metas},
			{Name: "peers", Bounds: "all tables of up to 2 peers of 48 beacons", Run: peers(2)},
			{Name: "transfers", Bounds: "all tables of up to 2 of 84 transfers x 15 commands", Run: transfers(2)},
			{Name: "peers-many", Bounds: "tables of 9 to 300 peers (8 sizes)", Run: peers(7), Shard: 1},
			{Name: "transfers-many", Bounds: "tables of 9 to 300 transfers (8 sizes) x 15 commands", Run: transfers(7), Shard: 1},
			{Name: "windows", Bounds: "all sequences of 2 texts (6) to 4 windows, 4 colours, formatted or not, shown in every order", Run: windows(2, texts, []string{"red_black", "green_black", "", "no such colour"})},
			{Name: "windows-4", Bounds: "all sequences of 4 texts (2) to 4 windows, formatted or not, shown in every order", Run: windows(4, texts[:2], []string{"red_black"})},
			{Name: "cleared", Bounds: "all sequences of 3 of 15 steps: 1, 25 or 100 lines to a window, or any windows cleared; on 2 terminals, shown after each or at the end in either order", Run: cleared(3)},
			{Name: "late", Bounds: "arguments changed between printing and showing, 4 windows, formatted or not", Run: late, Shard: 1},
			{Name: "together", Bounds: "2 parts of the node print 2 texts each to 2 windows, all interleavings, shown in every order", Run: together(2, 4)},
		}})
}
