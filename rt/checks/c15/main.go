// C15: the listener dispatches every datagram exactly once and intact.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/charlesetsmith/saratoga/status"

	"verif/checks/h"
	"verif/checks/node"
	"verif/mc"
	"verif/vnet"
	"verif/vs"
)

type dgram struct {
	name string
	b    []byte
}

// named are the datagrams of every sort.
func named() []dgram {
	var out []dgram
	good := node.Good()
	for _, k := range h.Keys(good) {
		out = append(out, dgram{k, good[k]})
	}
	return out
}

func put(b []byte, field, v string) []byte {
	b = append([]byte(nil), b...)
	w := uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
	f := h.F(field)
	w = f.Put(32, w, f.Value(v))
	copy(b, h.U(nil, 4, uint64(w)))
	return b
}

func first(b []byte, x byte) []byte {
	b = append([]byte(nil), b...)
	b[0] = x
	return b
}

// bad are datagrams that are not well-formed frames.
func bad() []dgram {
	g := node.Good()
	ts := append([]byte(nil), g["data64-ts"]...)
	ts[8] = 99
	meta := append([]byte(nil), g["metadata"]...)
	meta = meta[:len(meta)-1]
	return []dgram{
		{"data-short", g["data64-ts"][:20]}, {"data-no-offset", g["data16"][:9]}, {"data-d128", put(g["data16"], "descriptor", "d128")}, {"data-stamp", ts},
		{"metadata-short", g["metadata"][:12]}, {"metadata-no-end", meta}, {"metadata-d128", put(g["metadata-0"], "descriptor", "d128")},
		{"status-short", g["status"][:10]}, {"status-half-hole", g["status-ts"][:len(g["status-ts"])-8]}, {"status-d128", put(g["status"], "descriptor", "d128")},
		{"beacon-short", put(g["beacon-free"], "freespaced", "d64")[:8]}, {"request-no-name", g["request"][:8]}, {"request-no-end", g["request"][:9]},
		{"v0", first(g["data16"], 0x03)}, {"v2", first(g["request"], 0x41)}, {"v7", first(g["beacon"], 0xe0)},
		{"type5", first(g["data16"], 0x25)}, {"type31", first(g["status"], 0x3f)},
		{"short", g["data16"][:7]}, {"empty", nil},
	}
}

type result struct {
	what string
	n    *node.Node
}

// judge compares what was handed over with what the datagrams lead to.
func judge(c *mc.Ctx, n *node.Node, in []node.In) {
	var names []string
	for i, d := range in {
		if i == 20 && len(in) > 30 {
			names = append(names, fmt.Sprintf("... (%d)", len(in)))
			break
		}
		names = append(names, fmt.Sprintf("%s from %s", d.Name, d.From))
	}
	what := strings.Join(names, ", ")
	n.Alive(c, what)
	c.Op(len(in))
	for _, d := range n.Handed {
		if _, addr, info, _ := node.Describe(d.V); addr != d.Addr || info != d.Info {
			c.Fail("changed", "%s: a %s frame handed on changed afterwards from %s %s to %s %s", what, d.Kind, d.Addr, d.Info, addr, info)
		}
	}
	// what each socket must lead to, in order
	for _, v6 := range []bool{false, true} {
		froms := map[string]bool{}
		var frames, answers []string
		for _, d := range in {
			if d.V6 != v6 {
				continue
			}
			froms[d.From.String()] = true
			w := node.Classify(d.Data)
			switch w.Kind {
			case "":
			case "answer":
				answers = append(answers, fmt.Sprintf("badpacket status of session %x to %s", w.Ses, d.From))
			default:
				frames = append(frames, fmt.Sprintf("%s from %s: %s", w.Kind, d.From, w.Info))
			}
		}
		var gotFrames, gotAnswers []string
		used := 0
		for _, d := range n.Handed {
			if !froms[d.Addr] {
				if v6 && !known(in, d.Addr) {
					c.Fail("stray", "%s: a %s frame of %s is handed on", what, d.Kind, d.Addr)
				}
				continue
			}
			s := fmt.Sprintf("%s from %s: %s", d.Kind, d.Addr, d.Info)
			if used < len(frames) && s == frames[used] {
				used++
				gotFrames = append(gotFrames, s)
				continue
			}
			if p, ok := d.V.(status.Packet); ok {
				if h.Is(p.Info.Header, "errcode", "badpacket") && h.Is(p.Info.Header, "version", "v1") && h.Is(p.Info.Header, "frametype", "status") {
					gotAnswers = append(gotAnswers, fmt.Sprintf("badpacket status of session %x to %s", p.Info.Session, d.Addr))
					continue
				}
				if requested(in, d.Addr, p.Info.Session) {
					continue // the answer to a request
				}
			}
			gotFrames = append(gotFrames, s)
		}
		if strings.Join(gotFrames, "\n") != strings.Join(frames, "\n") {
			c.Fail("frames", "%s: handed on are\n%s\nand not\n%s", what, strings.Join(gotFrames, "\n"), strings.Join(frames, "\n"))
		}
		sort.Strings(answers)
		sort.Strings(gotAnswers)
		if strings.Join(gotAnswers, "\n") != strings.Join(answers, "\n") {
			c.Fail("answers", "%s: answered is\n%s\nand not\n%s", what, strings.Join(gotAnswers, "\n"), strings.Join(answers, "\n"))
		}
	}
}

func known(in []node.In, addr string) bool {
	for _, d := range in {
		if d.From.String() == addr {
			return true
		}
	}
	return false
}

// requested: a well-formed request of the session came from the address
func requested(in []node.In, addr string, session uint32) bool {
	for _, d := range in {
		if d.From.String() == addr && len(d.Data) >= 8 && node.Classify(d.Data).Kind == "request" && session == uint32(d.Data[4])<<24|uint32(d.Data[5])<<16|uint32(d.Data[6])<<8|uint32(d.Data[7]) {
			return true
		}
	}
	return false
}

func arrive(v6 bool, k int, d dgram) node.In {
	from := node.V4[k]
	if v6 {
		from = node.V6[k]
	}
	return node.In{Name: d.name, V6: v6, From: from, Data: d.b}
}

// cut: every truncation of every frame, one after the other, then a good one
func cut(c *mc.Ctx) {
	h.Fresh()
	node.MTU = 1500
	d := mc.Of(c, "frame", named())
	v6 := c.Bool("v6")
	var in []node.In
	lo := c.Pick("from", 8)
	for n := lo; n <= len(d.b); n += 8 {
		in = append(in, arrive(v6, n%3, dgram{fmt.Sprintf("%s[:%d]", d.name, n), d.b[:n]}))
	}
	in = append(in, arrive(v6, 0, named()[c.Pick("last", len(named()))]))
	n := node.Run(c, vs.Config{}, in)
	judge(c, n, in)
	n.Show(c)
}

// heads: every version, type and descriptor
func heads(c *mc.Ctx) {
	h.Fresh()
	node.MTU = 1500
	body := mc.Of(c, "body", []string{"data64-ts", "status-ts", "metadata", "request", "beacon-free"})
	b := node.Good()[body]
	v := byte(c.Pick("version", 8))
	v6 := c.Bool("v6")
	var in []node.In
	for t := 0; t < 32; t++ {
		for _, d := range []string{"d16", "d32", "d64", "d128"} {
			in = append(in, arrive(v6, t%3, dgram{fmt.Sprintf("%s as version %d type %d %s", body, v, t, d), put(first(b, v<<5|byte(t)), "descriptor", d)}))
		}
	}
	n := node.Run(c, vs.Config{}, in)
	judge(c, n, in)
	n.Show(c)
}

// bits: every single bit of every frame changed
func bits(c *mc.Ctx) {
	h.Fresh()
	node.MTU = 1500
	d := mc.Of(c, "frame", named())
	v6 := c.Bool("v6")
	var in []node.In
	for bit := c.Pick("from", 8); bit < len(d.b)*8; bit += 8 {
		x := append([]byte(nil), d.b...)
		x[bit/8] ^= 1 << (bit % 8)
		in = append(in, arrive(v6, bit/8%3, dgram{fmt.Sprintf("%s with bit %d changed", d.name, bit), x}))
	}
	n := node.Run(c, vs.Config{}, in)
	judge(c, n, in)
}

// bytes: every byte of every frame set to every value
func bytesOf(c *mc.Ctx) {
	h.Fresh()
	node.MTU = 1500
	d := mc.Of(c, "frame", named())
	v6 := c.Bool("v6")
	i := c.Pick("byte", 96)
	if i >= len(d.b) {
		c.Skip()
	}
	var in []node.In
	for v := 0; v < 256; v++ {
		x := append([]byte(nil), d.b...)
		x[i] = byte(v)
		in = append(in, arrive(v6, v%3, dgram{fmt.Sprintf("%s with byte %d set to %d", d.name, i, v), x}))
	}
	n := node.Run(c, vs.Config{}, in)
	judge(c, n, in)
}

// bytesCut: a byte of the header or session is anything and the rest is cut short
func bytesCut(c *mc.Ctx) {
	h.Fresh()
	node.MTU = 1500
	d := mc.Of(c, "frame", named())
	v6 := c.Bool("v6")
	i := c.Pick("byte", 8)
	n := mc.Of(c, "length", []int{8, 9, 10, 11, 12, -2, -1})
	if n < 0 {
		n += len(d.b)
	}
	if n < 8 || n >= len(d.b) {
		c.Skip()
	}
	var in []node.In
	for v := 0; v < 256; v++ {
		x := append([]byte(nil), d.b[:n]...)
		x[i] = byte(v)
		in = append(in, arrive(v6, v%3, dgram{fmt.Sprintf("%s cut to %d with byte %d set to %d", d.name, n, i, v), x}))
	}
	judge(c, node.Run(c, vs.Config{}, in), in)
}

// senders: datagrams of every sort from senders of every sort, between two from another
func senders(c *mc.Ctx) {
	h.Fresh()
	node.MTU = 1500
	v6 := c.Bool("v6")
	from := []*vnet.UDPAddr{}
	for _, p := range []int{7542, 0, 1, 1023, 65535} {
		ips := []string{"192.0.2.5", "127.0.0.1", "0.0.0.0", "255.255.255.255", "224.0.0.108", "10.0.0.0", "169.254.1.1"}
		if v6 {
			ips = []string{"fe80::5", "::1", "::", "ff02::6c", "2001:db8::5", "fe80::ffff:1"}
		}
		for _, ip := range ips {
			a := &vnet.UDPAddr{IP: vnet.ParseIP(ip), Port: p}
			if !v6 && p != 1 { // the short form as well
				a.IP = a.IP.To4()
			}
			from = append(from, a)
		}
		if v6 {
			from = append(from, &vnet.UDPAddr{IP: vnet.ParseIP("fe80::5"), Port: p, Zone: "en0"}, &vnet.UDPAddr{IP: vnet.ParseIP("::1"), Port: p, Zone: "lo"})
		}
	}
	odd := mc.Of(c, "sender", from)
	var in []node.In
	for i, d := range append(named(), bad()...) {
		in = append(in, node.In{Name: d.name, V6: v6, From: odd, Data: d.b}, arrive(v6, i%3, d))
	}
	n := node.Run(c, vs.Config{}, in)
	judge(c, n, in)
}

// long: very many datagrams on the sockets, of one sort or mixed with the others
func long(c *mc.Ctx) {
	h.Fresh()
	node.MTU = 1500
	all := append(named(), bad()...)
	d := mc.Of(c, "sort", all)
	mixed := c.Bool("mixed")
	where := c.Pick("sockets", 3) // IPv4, IPv6, both
	total := 700
	if c.Thorough() {
		total = 1500
	}
	var in []node.In
	for i := 0; i < total; i++ {
		x := d
		if mixed && i%3 == 2 {
			x = all[i/3*7%len(all)]
		}
		b := append([]byte(nil), x.b...)
		if len(b) >= 8 && !strings.HasPrefix(x.name, "beacon") && !strings.HasPrefix(x.name, "v") { // each of a session of its own
			copy(b[4:8], h.U(nil, 4, uint64(i)<<8|uint64(i%251)))
		}
		in = append(in, arrive(where == 1 || where == 2 && i%5 < 2, i%3, dgram{fmt.Sprint(x.name, " ", i), b}))
	}
	n := node.Run(c, vs.Config{MaxSteps: 100 * total}, in)
	judge(c, n, in)
}

// sizes around the largest frame
func sizes(c *mc.Ctx) {
	h.Fresh()
	node.MTU = []int{1500, 200, 576, 9000, 65535}[c.Pick("mtu", 5)]
	defer func() { node.MTU = 1500 }()
	v6 := c.Bool("v6")
	max := node.MTU - 60
	var in []node.In
	add := func(n int) {
		if n < 12 || n > 65507 {
			return
		}
		in = append(in, arrive(v6, len(in)%3, dgram{fmt.Sprintf("data of %d bytes", n), node.Data(uint32(n), uint64(n), strings.Repeat("d", n-10), "descriptor", "d16")}))
	}
	sz := []int{max - 2, max - 1, max, max + 1, max + 2, max + 39, max + 40, max + 41, max + 59, max + 60, max + 99, max + 100, max + 101, max + 200, 2 * max, 65507, 12, 100}
	i := c.Pick("size", len(sz))
	add(sz[i])
	add(sz[c.Pick("next", len(sz))])
	add(40)
	n := node.Run(c, vs.Config{}, in)
	judge(c, n, in)
}

// runs of datagrams on one socket
func runs(depth int, from []dgram, senders int, preempt int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		h.Fresh()
		node.MTU = 1500
		v6 := senders > 1 && c.Bool("v6")
		var in []node.In
		for i := 0; i < depth; i++ {
			in = append(in, arrive(v6, c.Pick("sender", senders), mc.Of(c, "datagram", from)))
		}
		n := node.Run(c, vs.Config{Preempt: preempt, FreeSwitch: preempt > 0}, in)
		judge(c, n, in)
	}
}

// both sockets at once under all schedules
func both(a, b int, from []dgram, preempt int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		h.Fresh()
		node.MTU = 1500
		var in []node.In
		for i := 0; i < a; i++ {
			in = append(in, arrive(false, i%2, mc.Of(c, "v4 datagram", from)))
		}
		for i := 0; i < b; i++ {
			in = append(in, arrive(true, i%2, mc.Of(c, "v6 datagram", from)))
		}
		n := node.Run(c, vs.Config{Preempt: preempt, FreeSwitch: true}, in)
		judge(c, n, in)
	}
}

func main() {
	mc.Main(&mc.Check{ID: "C15", Setup: node.Setup,
		Assume: []string{
			"a frame is well-formed when its decoder accepts it; what the decoders accept is C14 and C01 to C05",
			"what is handed on is observed as values of the Packet types passing between the activities of the program",
			"the network, the terminal and the file system information are stand-ins; reading a socket does not fail",
		},
		Scenarios: scenarios()})
}

func scenarios() []mc.Scenario {
	g, b := named(), bad()
	all := append(append([]dgram(nil), g...), b...)
	pick := func(names ...string) (out []dgram) {
		for _, n := range names {
			for _, d := range all {
				if d.name == n {
					out = append(out, d)
				}
			}
		}
		return
	}
	few := pick("beacon", "request", "data64-ts", "status-ts", "data-short", "v0", "type5")
	some := append(few, pick("metadata", "status-short", "metadata-short", "short", "request-no-end", "data16")...)
	return []mc.Scenario{
		{Name: "cut", Bounds: "every truncation of 12 frames of every type, from three senders, on either socket", Run: cut},
		{Name: "heads", Bounds: "every version x type x descriptor on 5 bodies", Run: heads},
		{Name: "bits", Bounds: "every bit of 12 frames changed", Run: bits},
		{Name: "bytes", Bounds: "every byte of 12 frames set to every value", Run: bytesOf},
		{Name: "bytes-cut", Bounds: "every byte of header and session of 12 frames set to every value, the frame cut to 7 lengths", Run: bytesCut},
		{Name: "senders", Bounds: "32 datagrams of every sort from each of 35 IPv4 and 40 IPv6 senders (unspecified, loopback, multicast, broadcast, 5 ports, zones), between those of others", Run: senders},
		{Name: "long", Bounds: fmt.Sprintf("700 (thorough 1500) datagrams, each of %d sorts alone or mixed with all others, on one or both sockets", len(all)), Run: long},
		{Name: "sizes", Bounds: "all pairs of 18 sizes around the limits, for 5 interface MTUs", Run: sizes},
		{Name: "pairs", Bounds: fmt.Sprintf("all sequences of 2 of %d datagrams from 3 senders, either socket", len(all)), Run: runs(2, all, 3, 0)},
		{Name: "triples", Bounds: "all sequences of 3 of 13 datagrams from one sender", Run: runs(3, some, 1, 0)},
		{Name: "schedules", Bounds: "all sequences of 2 of 7 datagrams, all schedules up to 1 preemption", Run: runs(2, few, 1, 1), Shard: 7},
		{Name: "both", Bounds: "one of 4 datagrams on each socket, all schedules up to 1 preemption", Run: both(1, 1, pick("beacon", "request", "data-short", "v0"), 1), Shard: 7},
		{Name: "triples-wide", Bounds: fmt.Sprintf("all sequences of 3 of %d datagrams from one sender", len(all)), Run: runs(3, all, 1, 0), Thorough: true},
		{Name: "both-7", Bounds: "one of 7 datagrams on each socket, all schedules up to 1 preemption", Run: both(1, 1, few, 1), Shard: 7, Thorough: true},
		{Name: "schedules-2", Bounds: "all sequences of 2 of 4 datagrams, all schedules up to 2 preemptions", Run: runs(2, few[:4], 1, 2), Shard: 7, Thorough: true},
		{Name: "both-2", Bounds: "two of 3 datagrams on one socket and one on the other, all schedules up to 1 preemption", Run: both(2, 1, pick("beacon", "request", "data-short"), 1), Shard: 8, Thorough: true},
	}
}
