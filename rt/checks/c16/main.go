// C16: every transfer request is answered exactly once and admitted correctly.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/charlesetsmith/saratoga/trans"
	"github.com/jroimartin/gocui"

	"verif/checks/h"
	"verif/mc"
	"verif/vnet"
	"verif/vstate"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var world string
var fresh map[string]string
var dirty bool
var gui *gocui.Gui

func build() {
	must(os.RemoveAll(world))
	must(os.MkdirAll(filepath.Join(world, "sardir/d"), 0o755))
	must(os.MkdirAll(filepath.Join(world, "sardir/n"), 0o755))
	for _, n := range []string{"sardir/f", "sardir/n/x", "sardir/k", "out"} {
		must(os.WriteFile(filepath.Join(world, n), []byte(n), 0o644))
	}
	must(os.Symlink("f", filepath.Join(world, "sardir/l")))
	must(os.Symlink("d", filepath.Join(world, "sardir/ld")))
	must(os.Symlink("nowhere", filepath.Join(world, "sardir/dangling")))
	must(syscall.Mkfifo(filepath.Join(world, "sardir/pipe"), 0o644))
	fresh = h.Tree(world)
	dirty = false
}

func setup(c *mc.Ctx) {
	h.Setup(c)
	world = filepath.Join(c.Dir(), "w")
	h.Dir = filepath.Join(world, "sardir")
	sarflags.Cliflag.Sardir = h.Dir
	vstate.Save()
	build()
	gui, _ = gocui.NewGui(gocui.OutputNormal)
}

var names = []string{"f", "m", "d", "n", "l", "ld", "dangling", "pipe", "", "..", "../f", "../out", "/f", "n/x", "n/y", "f/y", "é", "m/m", "f ", " f", " m", "F", "./f", "f\x01"}

var peers = []vnet.UDPAddr{
	{IP: vnet.IP{192, 0, 2, 1}, Port: 7542},
	{IP: vnet.IP{192, 0, 2, 1}, Port: 7543},
	{IP: vnet.ParseIP("fe80::1"), Port: 7542, Zone: "en0"},
	{IP: vnet.ParseIP("fe80::1"), Port: 7542, Zone: "en1"},
}

type req struct {
	word    uint32
	session uint32
	name    string
	from    *vnet.UDPAddr
}

func (r req) String() string {
	var b strings.Builder
	for _, f := range h.For("request") {
		v := f.Get(32, r.word)
		n := f.NameOf(v)
		if n == "" {
			n = fmt.Sprint(v)
		}
		fmt.Fprintf(&b, "%s=%s ", f.Name, n)
	}
	return fmt.Sprintf("%sfile %q session %d from %s", b.String(), r.name, r.session, r.from)
}

type entry struct {
	peer, ttype, name string
	session           uint32
}

type model struct {
	entries []entry
	removed map[string]bool // paths below the transfer directory
}

// present: the name leads to a file or directory
func (m *model) present(name string) bool {
	rel, _ := h.Lexical(name)
	if m.removed[rel] {
		return false
	}
	fi, err := os.Stat(filepath.Join(h.Dir, rel))
	return err == nil && (fi.IsDir() || fi.Mode().IsRegular())
}

// ask hands a request over and judges the result.
func ask(c *mc.Ctx, m *model, r req) {
	f := func(n string) string { fl := h.F(n); return fl.NameOf(fl.Get(32, r.word)) }
	typ := f("reqtype")
	reasons := map[string]bool{}
	if f("version") != "v1" || f("udplite") != "no" || f("stream") != "no" {
		reasons["badrequest"] = true
	}
	rx, tx := f("rxwilling"), f("txwilling")
	if rx == "invalid" {
		reasons["cantreceive"] = true
	}
	if tx == "invalid" {
		reasons["cantsend"] = true
	}
	present := m.present(r.name)
	rel, _ := h.Lexical(r.name)
	register := false
	switch typ {
	case "get", "take", "getdir":
		register = true
		if rx != "yes" {
			reasons["cantreceive"] = true
		}
		if !present {
			reasons["filenotfound"] = true
		}
	case "put", "give":
		register = true
		if tx != "yes" {
			reasons["cantsend"] = true
		}
		if present {
			reasons["fileinuse"] = true
		}
	case "delete":
		if !present {
			reasons["filenotfound"] = true
		} else if rel == "." {
			reasons["didnotdelete"] = true
		} else if fi, err := os.Lstat(filepath.Join(h.Dir, rel)); err == nil && fi.IsDir() {
			if es, _ := os.ReadDir(filepath.Join(h.Dir, rel)); len(es) > 0 {
				reasons["didnotdelete"] = true
			}
		}
	default:
		reasons["badrequest"] = true
	}
	repeat := false
	if register {
		for _, e := range m.entries {
			if e.peer == r.from.String() && e.session == r.session {
				repeat = true
				if e.ttype != typ || e.name != r.name {
					reasons["badrequest"] = true
				}
			}
		}
	}
	if typ == "delete" && len(reasons) == 0 {
		m.removed[rel] = true
		dirty = true
	}
	if register && !repeat && len(reasons) == 0 {
		m.entries = append(m.entries, entry{r.from.String(), typ, r.name, r.session})
	}

	from := *r.from
	from.IP = append(vnet.IP(nil), r.from.IP...)
	q := request.Request{Header: r.word, Session: r.session, Fname: r.name}
	ch := make(chan interface{}, 8)
	c.Must("handling "+r.String(), func() { trans.AddRxTran(gui, &q, &from, ch) })
	c.Op(1)
	var got interface{}
	select {
	case got = <-ch:
	case <-time.After(5 * time.Second):
		c.Fail("unanswered", "the request %s is not answered", r)
	}
	if len(ch) > 0 {
		c.Fail("answers", "the request %s is answered %d times", r, 1+len(ch))
	}
	p, ok := got.(status.Packet)
	if !ok {
		c.Fail("answer", "the request %s is answered with %T", r, got)
	}
	if p.Addr.String() != r.from.String() {
		c.Fail("addressee", "the answer to the request %s goes to %s", r, p.Addr.String())
	}
	if p.Info.Session != r.session {
		c.Fail("session", "the answer to the request %s has session %d", r, p.Info.Session)
	}
	if !h.Is(p.Info.Header, "frametype", "status") || !h.Is(p.Info.Header, "version", "v1") {
		c.Fail("answer", "the answer to the request %s has header %#x", r, p.Info.Header)
	}
	ec := h.F("errcode").NameOf(h.F("errcode").Get(32, p.Info.Header))
	c.Logf("%s -> %s", r, ec)
	if len(reasons) == 0 {
		if ec != "success" {
			c.Fail("refused", "the request %s is acceptable and is answered with %s", r, ec)
		}
	} else if ec == "success" {
		c.Fail("accepted", "the request %s is answered with success, although %v", r, keys(reasons))
	} else if !reasons[ec] {
		c.Fail("reason", "the request %s is answered with %s, which does not apply (%v do)", r, ec, keys(reasons))
	}
	// the registered transfers
	var have, want []string
	for _, v := range h.Rows(trans.Transfers) {
		peer := v.FieldByName("Peer").Interface().(vnet.UDPAddr)
		have = append(have, fmt.Sprintf("%s %d %s %q", peer.String(), v.FieldByName("Session").Uint(), v.FieldByName("Ttype").String(), v.FieldByName("Filename").String()))
	}
	for _, e := range m.entries {
		want = append(want, fmt.Sprintf("%s %d %s %q", e.peer, e.session, e.ttype, e.name))
	}
	sort.Strings(have)
	sort.Strings(want)
	if strings.Join(have, "\n") != strings.Join(want, "\n") {
		c.Fail("registered", "after the request %s (answered %s) the transfers are\n%s\nand not\n%s", r, ec, strings.Join(have, "\n"), strings.Join(want, "\n"))
	}
}

func keys(m map[string]bool) []string { return h.Keys(m) }

// start and finish surround an execution.
func start(c *mc.Ctx) *model {
	h.Fresh()
	if dirty {
		build()
	}
	dirty = true // until the tree was compared
	return &model{removed: map[string]bool{}}
}

func finish(c *mc.Ctx, m *model) {
	got := h.Tree(world)
	var want []string
	for r := range m.removed {
		want = append(want, "-sardir/"+r)
	}
	sort.Strings(want)
	diff := h.Diff(fresh, got)
	if strings.Join(diff, " ") != strings.Join(want, " ") {
		c.Fail("files", "the files changed by %v and not by %v", diff, want)
	}
	dirty = len(want) > 0
	gocui.DropPending()
}

func single(c *mc.Ctx, versions, types, descs []uint32, ns []string) {
	m := start(c)
	w := h.Header("request")
	set := func(n string, v uint32) { w = h.F(n).Put(32, w, v) }
	set("reqtype", mc.Of(c, "type", types))
	set("rxwilling", uint32(c.Pick("rxwilling", 4)))
	set("txwilling", uint32(c.Pick("txwilling", 4)))
	name := mc.Of(c, "file", ns)
	for _, ver := range versions {
		set("version", ver)
		for i := uint32(0); i < 8; i++ {
			set("udplite", i&1)
			set("stream", i>>1&1)
			set("fileordir", i>>2)
			for _, d := range descs {
				set("descriptor", d)
				h.Fresh()
				m.entries = nil
				ask(c, m, req{w, []uint32{0, 1, 0xffffffff}[int(i)%3], name, &peers[int(i)%len(peers)]})
				if len(m.removed) > 0 {
					finish(c, m)
					m = start(c)
				}
			}
		}
	}
	finish(c, m)
}

var request1 = func() (out []uint32) {
	for _, v := range h.F("reqtype").Opts {
		out = append(out, v.Val)
	}
	return append(out, 7, 8, 127, 128, 255)
}()

func seq(n int) (out []uint32) {
	for i := 0; i < n; i++ {
		out = append(out, uint32(i))
	}
	return
}

// histories of requests
func histories(depth int, np int, sessions []uint32, types []string, ns []string, unwilling bool) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		m := start(c)
		for i := 0; i < depth; i++ {
			w := h.Header("request", "reqtype", mc.Of(c, "type", types), "rxwilling", "yes", "txwilling", "yes")
			if unwilling && c.Bool("unwilling") {
				w = h.F("rxwilling").Put(32, w, 0)
				w = h.F("txwilling").Put(32, w, 0)
			}
			s := mc.Of(c, "session", sessions)
			p := c.Pick("peer", np)
			n := mc.Of(c, "file", ns)
			ask(c, m, req{w, s, n, &peers[p]})
		}
		finish(c, m)
	}
}

// many transfers at once, then each request again
func many(c *mc.Ctx) {
	m := start(c)
	n := c.Pick("transfers", 26) + 1
	at := 0
	if n <= 24 {
		at = c.Pick("again", n)
	} else {
		n = []int{70, 300}[n-25]
		at = mc.Of(c, "again", []int{0, n / 2, n - 1})
	}
	other := c.Pick("changed", 4)
	mk := func(i int) req {
		return req{h.Header("request", "reqtype", []string{"get", "put", "take", "give", "getdir"}[i%5], "rxwilling", "yes", "txwilling", "yes"),
			uint32(i / 4), []string{"f", "m", "k", "m/m", "n"}[i%5], &peers[i%4]}
	}
	for i := 0; i < n; i++ {
		ask(c, m, mk(i))
	}
	r := mk(at)
	switch other {
	case 1:
		r.name += "x"
	case 2:
		r.session += 100
	case 3:
		r.word = mk(at + 1).word
	}
	ask(c, m, r)
	finish(c, m)
}

func main() {
	six := []string{"get", "put", "take", "give", "getdir", "delete"}
	mc.Main(&mc.Check{ID: "C16", Setup: setup,
		Assume: []string{"a file is present when its name leads, from the transfer directory and through links, to a file or directory", "requests are handled one after the other here (C17 and C19 handle them at the same time)"},
		Scenarios: []mc.Scenario{
			{Name: "single", Bounds: "12 types x 4x4 willingness x 24 names x versions 0,1,2,7 x udplite x stream x fileordir x 2 widths", Run: func(c *mc.Ctx) { single(c, []uint32{0, 1, 2, 7}, request1, []uint32{0, 2}, names) }},
			{Name: "single-all-types", Bounds: "256 types x 4x4 willingness x 4 names x 8 versions x udplite x stream x fileordir x 4 widths", Run: func(c *mc.Ctx) { single(c, seq(8), seq(256), seq(4), []string{"f", "m", "n", ""}) }, Thorough: true},
			{Name: "histories", Bounds: "all sequences of 3 requests over 6 types x 2 sessions x 3 peers x 2 files", Run: histories(3, 3, []uint32{1, 2}, six, []string{"f", "m"}, false), Quick: true},
			{Name: "histories-refused", Bounds: "all sequences of 3 requests over get, put, delete x willing or not x 2 sessions x 2 peers x 2 files", Run: histories(3, 2, []uint32{1, 2}, []string{"get", "put", "delete"}, []string{"f", "m"}, true)},
			{Name: "histories-4", Bounds: "all sequences of 4 requests over get, put, delete, give x 2 sessions x 2 peers x 3 files", Run: histories(4, 2, []uint32{1, 2}, []string{"get", "put", "delete", "give"}, []string{"f", "k", "m"}, false), Thorough: true},
			{Name: "histories-3-wide", Bounds: "all sequences of 3 requests over 6 types x 3 sessions x 4 peers x 3 files", Run: histories(3, 4, []uint32{0, 1, 2}, six, []string{"f", "k", "m"}, false), Thorough: true},
			{Name: "many", Bounds: "1..24, 70 or 300 transfers, then any (of the many: the first, the middle or the last) request again, unchanged or changed in one of 3 ways", Run: many},
		}})
}
