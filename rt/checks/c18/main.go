// C18: the transfer registry finds, changes and removes the right transfer.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/jroimartin/gocui"

	"verif/checks/h"
	"verif/mc"
	"verif/vnet"
	"verif/vstate"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var world string
var start map[string]string
var gui *gocui.Gui
var clean bool

func build() {
	must(os.RemoveAll(world))
	must(os.MkdirAll(filepath.Join(world, "sardir/d"), 0o755))
	for _, n := range []string{"sardir/f", "sardir/k", "m", "f"} {
		must(os.WriteFile(filepath.Join(world, n), []byte(n), 0o644))
	}
	start = h.Tree(world)
	clean = true
}

func setup(c *mc.Ctx) {
	h.Setup(c)
	world = filepath.Join(c.Dir(), "w")
	h.Dir = filepath.Join(world, "sardir")
	sarflags.Cliflag.Sardir = h.Dir
	vstate.Save()
	build()
	gui, _ = gocui.NewGui(gocui.OutputNormal)
}

var peers = []*vnet.UDPAddr{
	{IP: vnet.IP{192, 0, 2, 1}, Port: 7542},
	{IP: vnet.IP{192, 0, 2, 1}, Port: 7543},
	{IP: vnet.IP{192, 0, 2, 11}, Port: 7542},
	{IP: vnet.ParseIP("fe80::1"), Port: 7542, Zone: "en0"},
}

// tran is what the check knows of a transfer
type tran struct {
	t         *sarwin.Transfer // as it was handed out
	direction bool
	session   uint32
	peer      string
	ttype     string
	file      string
	live      bool
	mark      uint64
	meta      bool
	csum      []byte
	size      uint64
}

func (t *tran) String() string {
	return fmt.Sprintf("%s %s session %d with %s file %q", sarwin.Directions[t.direction], t.ttype, t.session, t.peer, t.file)
}

type model struct {
	all  []*tran
	mark uint64
}

func (m *model) live() (out []*tran) {
	for _, t := range m.all {
		if t.live {
			out = append(out, t)
		}
	}
	return
}

func finish() {
	gocui.DropPending()
}

// judge compares the registry and every look-up with the model.
func judge(c *mc.Ctx, m *model, after string) {
	var have, want []string
	for _, v := range h.Rows(sarwin.Transfers) {
		have = append(have, fmt.Sprintf("%v %d %s %s %q", v.FieldByName("Direction").Bool(), v.FieldByName("Session").Uint(), v.FieldByName("Peer").Interface(), v.FieldByName("Ttype"), v.FieldByName("Filename")))
	}
	for _, t := range m.live() {
		want = append(want, fmt.Sprintf("%v %d %s %s %q", t.direction, t.session, t.peer, t.ttype, t.file))
	}
	sort.Strings(have)
	sort.Strings(want)
	if strings.Join(have, "\n") != strings.Join(want, "\n") {
		c.Fail("registry", "after %s the registry holds\n%s\nand not\n%s", after, strings.Join(have, "\n"), strings.Join(want, "\n"))
	}
	// look-ups of everything that could be there
	sessions := map[uint32]bool{0: true, 7: true}
	for _, t := range m.all {
		sessions[t.session] = true
		sessions[t.session+1] = true
	}
	for s := range sessions {
		for _, p := range peers {
			var both []*tran
			for _, dir := range []bool{sarwin.Initiator, sarwin.Responder} {
				var w *tran
				for _, t := range m.live() {
					if t.direction == dir && t.session == s && t.peer == p.String() {
						w = t
						both = append(both, t)
					}
				}
				var got *sarwin.Transfer
				c.Must("Lookup", func() { got = sarwin.Lookup(dir, s, p.String()) })
				same(c, m, after, "looking up "+fmt.Sprintf("%s session %d with %s", sarwin.Directions[dir], s, p), got, w)
			}
			var got *sarwin.Transfer
			c.Must("Match", func() { got = sarwin.Match(p.String(), s) })
			var w *tran
			for _, t := range both {
				if w == nil || (got != nil && got.Direction == t.direction) {
					w = t
				}
			}
			same(c, m, after, fmt.Sprintf("matching session %d with %s", s, p), got, w)
		}
	}
	// what nearly names a peer names none
	if len(m.all) > 0 {
		t := m.all[len(m.all)-1]
		for _, p := range []string{"", t.peer[:len(t.peer)-1], t.peer[1:], t.peer + "0", " " + t.peer} {
			var got *sarwin.Transfer
			c.Must("Match", func() { got = sarwin.Match(p, t.session) })
			same(c, m, after, fmt.Sprintf("matching session %d with %q", t.session, p), got, nil)
			c.Must("Lookup", func() { got = sarwin.Lookup(t.direction, t.session, p) })
			same(c, m, after, fmt.Sprintf("looking up session %d with %q", t.session, p), got, nil)
		}
	}
}

func same(c *mc.Ctx, m *model, after, what string, got *sarwin.Transfer, want *tran) {
	c.Op(1)
	if (got != nil) != (want != nil) {
		c.Fail("lookup", "after %s: %s finds %v, should find %v", after, what, show(got), want)
	}
	if got == nil {
		return
	}
	if got.Direction != want.direction || got.Session != want.session || got.Peer.String() != want.peer || got.Ttype != want.ttype || got.Filename != want.file {
		c.Fail("lookup", "after %s: %s finds %v, should find %v", after, what, show(got), want)
	}
	if got.Dcount != want.mark {
		c.Fail("change", "after %s: %s finds a transfer without the last change made through a look-up (%d, not %d)", after, what, got.Dcount, want.mark)
	}
	if got.Havemeta != want.meta {
		c.Fail("metadata", "after %s: %s: metadata received is %v", after, what, got.Havemeta)
	}
	if want.meta && (!bytes.Equal(got.Checksum, want.csum) || got.Dir == nil || got.Dir.Size != want.size || len(got.Data) != int(want.size)) {
		c.Fail("metadata", "after %s: %s does not have its metadata", after, what)
	}
	// a change through this look-up
	m.mark++
	got.Dcount = m.mark
	want.mark = m.mark
}

func show(t *sarwin.Transfer) string {
	if t == nil {
		return "nothing"
	}
	return fmt.Sprintf("%s %s session %d with %s file %q", sarwin.Directions[t.Direction], t.Ttype, t.Session, t.Peer, t.Filename)
}

// begin starts a transfer.
func begin(c *mc.Ctx, m *model, typ string, p int, file string, dial bool) {
	peer := *peers[p]
	peer.IP = append(vnet.IP(nil), peers[p].IP...)
	what := fmt.Sprintf("starting %s %q with %s", typ, file, &peer)
	reason := ""
	for _, t := range m.live() {
		if t.file == file && t.peer == peer.String() {
			reason = "it is under way"
		}
	}
	full := filepath.Join(h.Dir, file)
	fi, err := os.Stat(full)
	exists := err == nil && (fi.IsDir() || fi.Mode().IsRegular())
	switch typ {
	case "get", "take":
		if exists {
			reason = "the file exists"
		} else if strings.Contains(file, "/") {
			reason = "the file cannot be made"
		}
	case "put", "putblind", "give":
		if !exists {
			reason = "there is no file"
		}
	case "delete":
	default:
		reason = "there is no such type"
	}
	vnet.DialErr = nil
	if !dial {
		vnet.DialErr = func(*vnet.UDPAddr) error { return errors.New("network is unreachable") }
		what += " (unreachable)"
		reason = "the peer cannot be reached"
	}
	before := h.Tree(world)
	var got *sarwin.Transfer
	c.Must(what, func() { got, err = sarwin.NewInitiator(gui, typ, &peer, file, sarflags.Cliflag) })
	c.Op(1)
	if got != nil && got.Fp != nil {
		got.Fp.Close()
	}
	vnet.DialErr = nil
	diff := h.Diff(before, h.Tree(world))
	c.Logf("%s -> %v", what, err)
	if reason != "" {
		if err == nil {
			c.Fail("started", "%s succeeds although %s", what, reason)
		}
		if len(diff) > 0 {
			c.Fail("files", "%s is refused and changes %v", what, diff)
		}
		judge(c, m, what)
		return
	}
	if err != nil || got == nil {
		c.Fail("refused", "%s is refused: %v", what, err)
	}
	for _, d := range diff {
		if d != "+sardir/"+file || typ == "delete" {
			c.Fail("files", "%s changes %v", what, diff)
		}
		clean = false
	}
	t := &tran{t: got, direction: sarwin.Initiator, session: got.Session, peer: peer.String(), ttype: typ, file: file, live: true, mark: got.Dcount}
	for _, o := range m.all {
		if o.direction == t.direction && o.session == t.session {
			c.Fail("session", "%s gets the session %d, which %v had", what, t.session, o)
		}
	}
	if got.Conn == nil || got.Conn.RemoteAddr() == nil || got.Conn.RemoteAddr().String() != t.peer {
		c.Fail("connection", "%s is not connected to its peer", what)
	}
	m.all = append(m.all, t)
	judge(c, m, what)
}

// respond registers a transfer of the other direction as the request handling would.
func respond(c *mc.Ctx, m *model, session uint32, p int) {
	for _, o := range m.all {
		if o.direction == sarwin.Responder && o.session == session && o.peer == peers[p].String() {
			c.Skip()
		}
	}
	conn, _ := vnet.DialUDP("udp", nil, peers[p])
	t := &sarwin.Transfer{Direction: sarwin.Responder, Session: session, Conn: conn, Peer: peers[p], Ttype: "put", Filename: "r"}
	sarwin.Trmu.Lock()
	sarwin.Transfers = append(sarwin.Transfers, t)
	sarwin.Trmu.Unlock()
	m.all = append(m.all, &tran{t: t, direction: sarwin.Responder, session: session, peer: peers[p].String(), ttype: "put", file: "r", live: true})
	judge(c, m, "a request")
}

func remove(c *mc.Ctx, m *model, i int) {
	t := m.all[i]
	var err error
	what := "removing " + t.String()
	c.Must(what, func() { err = t.t.Remove() })
	c.Op(1)
	c.Logf("%s -> %v", what, err)
	if (err == nil) != t.live {
		c.Fail("remove", "%s, which is registered: %v, gives %v", what, t.live, err)
	}
	t.live = false
	judge(c, m, what)
}

func change(c *mc.Ctx, m *model, i int, size uint64, csum int) {
	t := m.all[i]
	if !t.live {
		c.Skip()
	}
	kind := []string{"none", "crc32", "md5"}[csum]
	md := metadata.MetaData{Header: h.Header("metadata", "csumtype", kind), Session: t.session, Checksum: bytes.Repeat([]byte{byte(size)}, []int{0, 4, 16}[csum]), Dir: dirent.DirEnt{Header: 0x8000, Size: size, Path: t.file}}
	got := sarwin.Lookup(t.direction, t.session, t.peer)
	if got == nil {
		c.Fail("lookup", "%v is not found", t)
	}
	var err error
	what := fmt.Sprintf("metadata of %d bytes for %v", size, t)
	c.Must(what, func() { err = got.Change(gui, md) })
	c.Op(1)
	c.Logf("%s -> %v", what, err)
	if t.meta && t.size != 0 && t.size != size {
		if err == nil {
			c.Fail("size", "%s is accepted after %d bytes", what, t.size)
		}
		// what is left of the earlier metadata is not defined
		t.meta = got.Havemeta
		t.csum, t.size = got.Checksum, got.Dir.Size
		if len(got.Data) != int(t.size) {
			// do not go on with this transfer
			c.Skip()
		}
	} else {
		if err != nil {
			c.Fail("metadata", "%s is refused: %v", what, err)
		}
		t.meta, t.size, t.csum = true, size, append([]byte(nil), md.Checksum...)
	}
	for k := range md.Checksum {
		md.Checksum[k] ^= 0xff
	}
	judge(c, m, what)
}

func fresh() *model {
	h.Fresh()
	if !clean {
		build()
	}
	return &model{}
}

func histories(depth int, types []string, np int, files []string, dials int, sizes int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		m := fresh()
		defer finish()
		judge(c, m, "nothing")
		for i := 0; i < depth; i++ {
			kinds := 2
			if len(m.all) > 0 {
				kinds = 4
			}
			switch c.Pick("operation", kinds) {
			case 0:
				typ := mc.Of(c, "type", types)
				p := c.Pick("peer", np)
				f := mc.Of(c, "file", files)
				begin(c, m, typ, p, f, dials < 2 || c.Bool("reachable"))
			case 1:
				// an incoming transfer, perhaps with the session of one of ours
				s := uint32(7)
				if k := c.Pick("session", len(m.all)+1); k > 0 {
					s = m.all[k-1].session
				}
				respond(c, m, s, c.Pick("peer", np))
			case 2:
				remove(c, m, c.Pick("transfer", len(m.all)))
			case 3:
				change(c, m, c.Pick("transfer", len(m.all)), []uint64{3, 5, 0}[c.Pick("size", sizes)], c.Pick("checksum", 2)+1)
			}
		}
	}
}

// starts: every single start in every surrounding of one other
func starts(c *mc.Ctx) {
	m := fresh()
	defer finish()
	for i := 0; i < 2; i++ {
		begin(c, m, mc.Of(c, "type", []string{"get", "take", "put", "putblind", "give", "delete", "bogus", "", "GET"}), c.Pick("peer", 3),
			mc.Of(c, "file", []string{"f", "m", "k", "x/y", "m2"}), c.Bool("reachable"))
	}
}

// many: tables of many transfers, any one removed
func many(c *mc.Ctx) {
	m := fresh()
	defer finish()
	n := c.Pick("transfers", 12) + 1
	for i := 0; i < n; i++ {
		if i%3 == 2 {
			respond(c, m, m.all[i-1].session, i%4)
		} else {
			begin(c, m, "delete", i%4, fmt.Sprint("file", i), true)
		}
	}
	a := c.Pick("first removed", n)
	b := c.Pick("second removed", n)
	remove(c, m, a)
	remove(c, m, b)
	begin(c, m, "put", 0, "f", true)
	for i := range m.all {
		remove(c, m, i)
	}
}

// metadatas: metadata again and again for one transfer while data comes in
func metadatas(c *mc.Ctx) {
	m := fresh()
	defer finish()
	begin(c, m, mc.Of(c, "type", []string{"get", "delete"}), 0, "m", true)
	sizes := []uint64{0, 1, 2, 3, 255, 256, 65536}
	for i := 0; i < 3; i++ {
		before := append([]byte(nil), m.all[0].t.Data...)
		had := m.all[0].meta && m.all[0].size != 0
		size := mc.Of(c, "size", sizes)
		csum := c.Pick("checksum", 3)
		change(c, m, 0, size, csum)
		got := sarwin.Lookup(sarwin.Initiator, m.all[0].session, m.all[0].peer)
		if had && !bytes.Equal(before, got.Data) {
			c.Fail("data", "metadata of %d bytes after %d changes the data received", size, len(before))
		}
		for k := range got.Data {
			got.Data[k] = byte(k*7 + i + 1)
		}
		c.Op(1)
	}
}

// longRun: very many transfers one after the other, several of them registered at any time
func longRun(c *mc.Ctx) {
	fresh()
	defer finish()
	keep := mc.Of(c, "registered", []int{1, 3, 40})
	order := c.Pick("removed", 3) // the oldest, the newest but one, one in the middle
	total := 3000
	if keep == 3 && order == 0 || c.Thorough() {
		total = 70000
	}
	seen := make(map[uint32]bool, total)
	var live []*sarwin.Transfer
	for i := 0; i < total; i++ {
		p := i % len(peers)
		addr := *peers[p]
		file := fmt.Sprint("file", i)
		t, err := sarwin.NewInitiator(gui, "delete", &addr, file, sarflags.Cliflag)
		if err != nil || t == nil {
			c.Fail("refused", "transfer %d, with %d others registered, is refused: %v", i, len(live), err)
		}
		if seen[t.Session] {
			c.Fail("session", "transfer %d gets the session %d of an earlier one", i, t.Session)
		}
		seen[t.Session] = true
		live = append(live, t)
		look := func(t *sarwin.Transfer, want bool) {
			got := sarwin.Lookup(sarwin.Initiator, t.Session, t.Peer.String())
			if (got != nil) != want || want && (got.Session != t.Session || got.Peer.String() != t.Peer.String() || got.Filename != t.Filename) {
				c.Fail("lookup", "after %d transfers, looking up session %d with %s, registered %v, gives %v", i, t.Session, t.Peer, want, got)
			}
		}
		look(t, true)
		if len(live) > keep {
			k := []int{0, len(live) - 2, len(live) / 2}[order]
			if k < 0 {
				k = 0
			}
			x := live[k]
			if err := x.Remove(); err != nil {
				c.Fail("remove", "after %d transfers session %d cannot be removed: %v", i, x.Session, err)
			}
			look(x, false)
			live = append(live[:k], live[k+1:]...)
		}
		if n := len(sarwin.Transfers); n != len(live) {
			c.Fail("registry", "after %d transfers %d are registered and not %d", i, n, len(live))
		}
		look(live[len(live)-1], true)
		c.Op(3)
		gocui.DropPending()
		vnet.Reset()
	}
	for _, t := range live {
		got := sarwin.Lookup(sarwin.Initiator, t.Session, t.Peer.String())
		if got == nil || got.Session != t.Session || got.Filename != t.Filename {
			c.Fail("lookup", "session %d is not found in the end", t.Session)
		}
	}
}

func main() {
	mc.Main(&mc.Check{ID: "C18", Setup: setup,
		Assume: []string{"incoming transfers are entered in the table by the check itself, as the code that would do so is unfinished", "directories are not fetched (unfinished)"},
		Scenarios: []mc.Scenario{
			{Name: "starts", Bounds: "all pairs of starts over 9 types x 3 peers x 5 files x reachable or not", Run: starts},
			{Name: "histories", Bounds: "all sequences of 3 operations: starts of 3 types x 3 peers x 2 files, incoming transfers, removals, metadata", Run: histories(3, []string{"get", "put", "delete"}, 3, []string{"f", "m"}, 1, 2)},
			{Name: "histories-4", Bounds: "all sequences of 4 operations: starts of 2 types x 2 peers x 2 files, incoming transfers, removals, metadata", Run: histories(4, []string{"get", "delete"}, 2, []string{"k", "m"}, 1, 1)},
			{Name: "histories-5", Bounds: "all sequences of 5 operations: starts of 2 types x 2 peers x 1 file, incoming transfers, removals, metadata", Run: histories(5, []string{"get", "delete"}, 2, []string{"m"}, 1, 2), Thorough: true},
			{Name: "histories-4-wide", Bounds: "all sequences of 4 operations: starts of 4 types x 3 peers x 2 files, incoming transfers, removals, metadata", Run: histories(4, []string{"get", "put", "delete", "give"}, 3, []string{"f", "m"}, 1, 1), Thorough: true},
			{Name: "metadata", Bounds: "2 types, all sequences of 3 metadata frames over 7 sizes x 3 checksum types for one transfer, data coming in between", Run: metadatas},
			{Name: "long-run", Bounds: "3000 (one of them 70000) transfers one after the other with 1, 3 or 40 registered at a time, 3 orders of removal", Run: longRun},
			{Name: "many", Bounds: "1..12 transfers, every ordered pair of removals, then all", Run: many},
		}})
}
