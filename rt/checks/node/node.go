// Package node runs the whole program under the scheduler, with datagrams waiting on its
// sockets, and records what its parts hand to each other.
package node

import (
	"encoding/binary"
	"fmt"
	"os"
	"strings"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	sarmain "github.com/charlesetsmith/saratoga/saratoga"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/jroimartin/gocui"

	"verif/checks/h"
	"verif/mc"
	"verif/vnet"
	"verif/vos"
	"verif/vs"
	"verif/vsyscall"
)

// In is a datagram that arrives.
type In struct {
	Name string
	V6   bool
	From *vnet.UDPAddr
	Data []byte
}

// Handed is a frame that one part of the program handed to another.
type Handed struct {
	Kind string // beacon, request, data, metadata, status
	Addr string
	Info string // what it held when it was handed over
	V    any
	Task int
	Ch   any // the queue it went through
}

// Describe shows a packet: its kind, address and content.
func Describe(v any) (kind, addr, info string, ok bool) {
	switch p := v.(type) {
	case beacon.Packet:
		return "beacon", p.Addr.String(), fmt.Sprintf("%+v", p.Info), true
	case request.Packet:
		return "request", p.Addr.String(), fmt.Sprintf("%+v", p.Info), true
	case data.Packet:
		return "data", p.Addr.String(), fmt.Sprintf("%+v", p.Info), true
	case metadata.Packet:
		return "metadata", p.Addr.String(), fmt.Sprintf("%+v", p.Info), true
	case status.Packet:
		return "status", p.Addr.String(), fmt.Sprintf("%+v", p.Info), true
	}
	return "", "", "", false
}

// Node is a finished run.
type Node struct {
	Res    *vs.Result
	Handed []Handed
	Left   int // datagrams not read
	Socks  int // sockets listening
	shown  []func(*gocui.Gui) error
	gui    *gocui.Gui
}

// Setup prepares the checks that use Run.
func Setup(c *mc.Ctx) {
	h.Setup(c)
	os.Setenv("SARDIR", h.Dir)
	if err := os.Chdir(h.Dir); err != nil {
		panic(err)
	}
}

// MTU of the interface.
var MTU = 1500

// Extra, when set, is started as a further activity beside the node once it listens.
var Extra []func()

// Run starts the program with the datagrams waiting and lets it go on until it idles.
func Run(c *mc.Ctx, cfg vs.Config, in []In) *Node {
	n := &Node{}
	vos.Args = []string{"saratoga", h.Conf(), "en0"}
	vnet.Ifaces = []vnet.Interface{
		{Index: 1, MTU: 65536, Name: "lo", Flags: vnet.FlagUp | vnet.FlagLoopback | vnet.FlagMulticast},
		{Index: 2, MTU: MTU, Name: "en0", Flags: vnet.FlagUp | vnet.FlagMulticast},
	}
	vsyscall.StatfsHook = func(path string, st *vsyscall.Statfs_t) error {
		*st = vsyscall.Statfs_t{Bsize: 4096, Frsize: 4096, Bavail: 1000, Bfree: 1000, Blocks: 1 << 30}
		return nil
	}
	var conns []*vnet.UDPConn
	extra := Extra
	vnet.OnListen = func(k *vnet.UDPConn) {
		n.Socks++
		conns = append(conns, k)
		v6 := k.Net == "udp6" || (k.Laddr != nil && k.Laddr.IP.To4() == nil && len(k.Laddr.IP) == 16)
		for _, d := range in {
			if d.V6 == v6 {
				k.Inject(d.From, d.Data)
			}
		}
		if n.Socks == 2 {
			for i, f := range extra {
				vs.Go(fmt.Sprint("extra", i), f)
			}
		}
	}
	var shown []func(*gocui.Gui) error
	gocui.UpdateHook = func(g *gocui.Gui, f func(*gocui.Gui) error) { shown = append(shown, f); n.gui = g }
	gocui.MainLoopHook = func(g *gocui.Gui) error {
		vs.Block(vs.KIdle, "user interface", func() bool { return false })
		return nil
	}
	user := cfg.OnRecv
	cfg.OnRecv = func(t *vs.Task, ch, v any) {
		if kind, addr, info, ok := Describe(v); ok {
			n.Handed = append(n.Handed, Handed{kind, addr, info, v, t.ID, ch})
		}
		if user != nil {
			user(t, ch, v)
		}
	}
	n.Res = c.Sched(cfg, sarmain.Main)
	for _, k := range conns {
		n.Left += k.Pending()
	}
	n.shown = shown
	return n
}

// Show runs what was queued for the screen.
func (n *Node) Show(c *mc.Ctx) {
	g := n.gui
	if g == nil {
		return
	}
	c.Must("showing the output", func() {
		if err := sarwin.Layout(g); err != nil {
			panic(err)
		}
		for _, f := range n.shown {
			if err := f(g); err != nil {
				panic(err)
			}
		}
	})
}

// Alive fails if the node ended, hangs or left datagrams unread.
func (n *Node) Alive(c *mc.Ctx, what string) {
	if n.Res.Crash != "" || n.Res.Died {
		c.Fail("ends", "%s: the node ends: %s\n%s", what, n.Res.Crash, n.Res.Stack)
	}
	if n.Res.Livelock {
		c.Fail("livelock", "%s: the node does not come to rest", what)
	}
	if n.Socks < 2 {
		c.Fail("sockets", "%s: %d sockets are opened", what, n.Socks)
	}
	if d := n.Res.Deadlocked(); len(d) > 0 {
		c.Fail("deadlock", "%s: hangs: %v", what, d)
	}
	if n.Left > 0 {
		c.Fail("unread", "%s: %d datagrams are never read; waiting: %v", what, n.Left, n.Res.Blocked)
	}
}

// Want is what a datagram has to lead to.
type Want struct {
	Kind string // a frame of this kind handed on, "answer", or "" for nothing
	Info string // its content
	Ses  uint32 // session of the answer
}

// Decode tells what a frame holds, or that it is malformed.
func decode(kind string, b []byte) (string, bool) {
	b = append([]byte(nil), b...)
	switch kind {
	case "beacon":
		v := new(beacon.Beacon)
		err := v.Decode(b)
		return fmt.Sprintf("%+v", *v), err == nil
	case "request":
		v := new(request.Request)
		err := v.Decode(b)
		return fmt.Sprintf("%+v", *v), err == nil
	case "data":
		v := new(data.Data)
		err := v.Decode(b)
		return fmt.Sprintf("%+v", *v), err == nil
	case "metadata":
		v := new(metadata.MetaData)
		err := v.Decode(b)
		return fmt.Sprintf("%+v", *v), err == nil
	case "status":
		v := new(status.Status)
		err := v.Decode(b)
		return fmt.Sprintf("%+v", *v), err == nil
	}
	return "", false
}

// Classify says what a datagram has to lead to.
func Classify(b []byte) Want {
	if len(b) < 8 || len(b) > MTU-60 {
		return Want{}
	}
	w := binary.BigEndian.Uint32(b)
	if w>>29 != 1 {
		return Want{Kind: "answer"}
	}
	t := (w >> 24) & 31
	if t > 4 {
		return Want{}
	}
	kind := []string{"beacon", "request", "metadata", "data", "status"}[t]
	info, ok := decode(kind, b)
	if ok {
		return Want{Kind: kind, Info: info}
	}
	if kind == "beacon" || kind == "request" {
		return Want{}
	}
	return Want{Kind: "answer", Ses: binary.BigEndian.Uint32(b[4:])}
}

// Senders of the two sockets.
var (
	V4 = []*vnet.UDPAddr{{IP: vnet.IP{192, 0, 2, 5}, Port: 7542}, {IP: vnet.IP{192, 0, 2, 5}, Port: 9999}, {IP: vnet.IP{192, 0, 2, 6}, Port: 7542}}
	V6 = []*vnet.UDPAddr{{IP: vnet.ParseIP("fe80::5"), Port: 7542, Zone: "en0"}, {IP: vnet.ParseIP("fe80::5"), Port: 7542, Zone: "en1"}, {IP: vnet.ParseIP("2001:db8::5"), Port: 7542}}
)

// Frame builders.

func Beacon(eid string, free uint64, kv ...string) []byte {
	hdr := h.Header("beacon", kv...)
	b := h.U(nil, 4, uint64(hdr))
	if h.Is(hdr, "freespace", "yes") {
		b = h.U(b, h.Width(h.F("freespaced").NameOf(h.F("freespaced").Get(32, hdr))), free)
	}
	return append(b, eid...)
}

func Request(session uint32, typ, name string, kv ...string) []byte {
	hdr := h.Header("request", append([]string{"reqtype", typ}, kv...)...)
	b := h.U(h.U(nil, 4, uint64(hdr)), 4, uint64(session))
	return append(append(append(b, name...), 0), "auth"...)
}

func Data(session uint32, off uint64, payload string, kv ...string) []byte {
	hdr := h.Header("data", kv...)
	b := h.U(h.U(nil, 4, uint64(hdr)), 4, uint64(session))
	if h.Is(hdr, "reqtstamp", "yes") {
		t, _, _ := h.Ts("posix64", 1700000000, 0)
		b = append(b, t...)
	}
	b = h.U(b, h.Width(h.Desc(hdr)), off)
	return append(b, payload...)
}

func Meta(session uint32, size uint64, path string, csum int, kv ...string) []byte {
	k := []string{"none", "crc32", "md5", "sha1"}[csum]
	n := []int{0, 1, 4, 5}[csum]
	hdr := h.Header("metadata", append([]string{"csumtype", k}, kv...)...)
	hdr = h.F("csumlen").Put(32, hdr, uint32(n))
	b := h.U(h.U(nil, 4, uint64(hdr)), 4, uint64(session))
	b = append(b, strings.Repeat("C", n*4)...)
	b = h.U(b, 2, 0x8000)
	b = h.U(b, 2, size)
	b = h.U(h.U(b, 4, 1000), 4, 2000)
	return append(append(b, path...), 0)
}

func Status(session uint32, prog, resp uint64, holes []uint64, kv ...string) []byte {
	hdr := h.Header("status", kv...)
	b := h.U(h.U(nil, 4, uint64(hdr)), 4, uint64(session))
	if h.Is(hdr, "reqtstamp", "yes") {
		t, _, _ := h.Ts("posix32_32", 1700000000, 7)
		b = append(b, t...)
	}
	w := h.Width(h.Desc(hdr))
	b = h.U(h.U(b, w, prog), w, resp)
	for _, x := range holes {
		b = h.U(b, w, x)
	}
	return b
}

// Good are well-formed frames of every type.
func Good() map[string][]byte {
	return map[string][]byte{
		"beacon":      Beacon("192.0.2.5:7542-77", 0, "descriptor", "d64", "txwilling", "yes", "rxwilling", "yes"),
		"beacon-free": Beacon("peer-1", 123456, "descriptor", "d32", "freespace", "yes", "freespaced", "d32"),
		"request":     Request(0x01020304, "get", "f", "txwilling", "yes", "rxwilling", "yes"),
		"request-put": Request(0x01020305, "put", "some/long name", "txwilling", "yes", "rxwilling", "yes"),
		"data16":      Data(0xa0b0c0d0, 513, "payload", "descriptor", "d16"),
		"data64-ts":   Data(0xa0b0c0d1, 1<<40, strings.Repeat("p", 100), "descriptor", "d64", "reqtstamp", "yes", "reqstatus", "yes"),
		"data-eod":    Data(7, 0, "", "descriptor", "d32", "eod", "yes"),
		"metadata":    Meta(0x11223344, 700, "a/b", 2, "descriptor", "d16"),
		"metadata-0":  Meta(0x11223345, 0, "x", 0, "descriptor", "d32", "progress", "terminated"),
		"status":      Status(0x55667788, 100, 90, nil, "descriptor", "d16"),
		"status-ts":   Status(0x55667789, 1<<33, 1<<32, []uint64{5, 9, 70, 71}, "descriptor", "d64", "reqtstamp", "yes", "allholes", "no"),
		"status-err":  Status(0x5566778a, 0, 0, []uint64{1, 2}, "descriptor", "d32", "errcode", "accessdenied"),
	}
}
