// C17: the node never deadlocks and answers every request.
package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/charlesetsmith/saratoga/trans"
	"github.com/jroimartin/gocui"

	"verif/checks/h"
	"verif/checks/node"
	"verif/mc"
	"verif/vnet"
	"verif/vs"
)

type dgram struct {
	name string
	b    []byte
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var files = []string{"f", "g", "x"}

// prepare brings the transfer directory to its initial state.
func prepare() {
	h.Fresh()
	node.MTU = 1500
	node.Extra = nil
	for _, n := range files {
		p := filepath.Join(h.Dir, n)
		if _, err := os.Lstat(p); err != nil {
			must(os.WriteFile(p, []byte(n), 0o644))
		}
	}
}

func pool() map[string][]byte {
	m := map[string][]byte{}
	for k, v := range node.Good() {
		m[k] = v
	}
	ok := []string{"rxwilling", "yes", "txwilling", "yes"}
	add := func(name string, s uint32, typ, file string, kv ...string) {
		if kv == nil {
			kv = ok
		}
		m[name] = node.Request(s, typ, file, kv...)
	}
	add("get", 1, "get", "f")
	add("get-again", 1, "get", "f")
	add("get-other-file", 1, "get", "g")
	add("get-missing", 2, "get", "missing")
	add("put", 3, "put", "new")
	add("put-existing", 4, "put", "f")
	add("take", 5, "take", "g")
	add("give", 6, "give", "new2")
	add("getdir", 7, "getdir", ".")
	add("delete", 8, "delete", "x")
	add("delete-missing", 9, "delete", "missing")
	add("get-unwilling", 10, "get", "f", "rxwilling", "no", "txwilling", "yes")
	add("put-unwilling", 11, "put", "n", "rxwilling", "yes", "txwilling", "no")
	add("get-invalid", 12, "get", "f", "rxwilling", "invalid", "txwilling", "yes")
	add("put-invalid", 13, "put", "n", "rxwilling", "yes", "txwilling", "invalid")
	add("get-udplite", 14, "get", "f", "rxwilling", "yes", "txwilling", "yes", "udplite", "yes")
	add("get-stream", 15, "get", "f", "rxwilling", "yes", "txwilling", "yes", "stream", "yes")
	m["request-type-200"] = func() []byte {
		b := node.Request(16, "get", "f", ok...)
		w := binary.BigEndian.Uint32(b)
		binary.BigEndian.PutUint32(b, h.F("reqtype").Put(32, w, 200))
		return b
	}()
	m["beacon-2"] = node.Beacon("other", 5, "descriptor", "d16", "freespace", "yes", "freespaced", "d16")
	m["data-short"] = node.Good()["data64-ts"][:20]
	m["status-short"] = node.Good()["status"][:10]
	m["metadata-short"] = node.Good()["metadata"][:12]
	m["v0"] = append([]byte{3}, node.Good()["data16"][1:]...)
	m["request-bad"] = node.Good()["request"][:9]
	m["beacon-bad"] = append([]byte(nil), m["beacon-2"][:5]...)
	m["short"] = []byte{0x20, 0, 0}
	m["type9"] = append([]byte{0x29}, node.Good()["data16"][1:]...)
	return m
}

var frames map[string][]byte

func in(v6 bool, k int, name string) node.In {
	from := node.V4[k]
	if v6 {
		from = node.V6[k]
	}
	b, ok := frames[name]
	if !ok {
		panic("no datagram " + name)
	}
	return node.In{Name: name, V6: v6, From: from, Data: b}
}

type key struct {
	addr    string
	session uint32
}

type asked struct {
	name, typ, file string
	want            string // the only possible answer, if there is one
}

// judge looks at the node after the datagrams.
func judge(c *mc.Ctx, n *node.Node, ds []node.In) {
	var names []string
	for _, d := range ds {
		names = append(names, fmt.Sprintf("%s from %s", d.Name, d.From))
	}
	what := strings.Join(names, ", ")
	n.Alive(c, what)
	c.Op(len(ds))
	deletes := false
	reqs := map[key][]asked{}
	bad := map[key]int{}
	heard := map[string]map[string]bool{}
	for _, d := range ds {
		w := node.Classify(d.Data)
		switch w.Kind {
		case "answer":
			bad[key{d.From.String(), w.Ses}]++
		case "beacon":
			ip := d.From.IP.String()
			if heard[ip] == nil {
				heard[ip] = map[string]bool{}
			}
			b := new(beacon.Beacon)
			must(b.Decode(append([]byte(nil), d.Data...)))
			heard[ip][fmt.Sprintf("%d %s", b.Freespace, b.Eid)] = true
		case "request":
			hdr := binary.BigEndian.Uint32(d.Data)
			f := func(n string) string { fl := h.F(n); return fl.NameOf(fl.Get(32, hdr)) }
			file, _, _ := strings.Cut(string(d.Data[8:]), "\x00")
			a := asked{name: d.Name, typ: f("reqtype"), file: file}
			fi, err := os.Stat(filepath.Join(h.Dir, file))
			exists := err == nil && (fi.IsDir() || fi.Mode().IsRegular())
			switch {
			case f("udplite") != "no" || f("stream") != "no":
				a.want = "badrequest"
			case f("rxwilling") == "invalid":
				a.want = "cantreceive"
			case f("txwilling") == "invalid":
				a.want = "cantsend"
			case a.typ == "get" || a.typ == "take" || a.typ == "getdir":
				if f("rxwilling") != "yes" {
					a.want = "cantreceive"
				} else if !exists {
					a.want = "filenotfound"
				}
			case a.typ == "put" || a.typ == "give":
				if f("txwilling") != "yes" {
					a.want = "cantsend"
				} else if exists {
					a.want = "fileinuse"
				}
			case a.typ == "delete":
				if file == "missing" {
					a.want = "filenotfound"
				} else {
					deletes = true
				}
			default:
				a.want = "badrequest"
			}
			k := key{d.From.String(), binary.BigEndian.Uint32(d.Data[4:])}
			reqs[k] = append(reqs[k], a)
		}
	}
	// the statuses handed to the dispatcher for sending
	answers := map[key][]string{}
	type route struct {
		key
		ch any
	}
	var routes []route                            // the answers to requests and the queues they went through
	in, out := map[any]string{}, map[any]string{} // the queues of received frames, and of the listeners' answers, by socket
	sock := map[string]string{}
	for _, d := range ds {
		sock[d.From.String()] = map[bool]string{false: "IPv4", true: "IPv6"}[d.V6]
	}
	relayed := map[string]int{}
	for _, d := range ds {
		if w := node.Classify(d.Data); w.Kind == "status" {
			relayed[d.From.String()+" "+w.Info]++
		}
	}
	for _, x := range n.Handed {
		p, ok := x.V.(status.Packet)
		if !ok {
			in[x.Ch] = sock[x.Addr]
			continue
		}
		if relayed[x.Addr+" "+x.Info] > 0 { // received, not to be sent
			in[x.Ch] = sock[x.Addr]
			relayed[x.Addr+" "+x.Info]--
			continue
		}
		ec := h.F("errcode").NameOf(h.F("errcode").Get(32, p.Info.Header))
		k := key{x.Addr, p.Info.Session}
		if ec == "badpacket" && bad[k] > 0 {
			bad[k]--
			if was, ok := out[x.Ch]; ok && was != sock[x.Addr] {
				out[x.Ch] = "both"
			} else {
				out[x.Ch] = sock[x.Addr]
			}
			continue
		}
		answers[k] = append(answers[k], ec)
		routes = append(routes, route{k, x.Ch})
	}
	// An answer is queued for sending: where the listeners queue theirs elsewhere than what they
	// received, it does not join what was received, nor what goes out of the other socket.
	for _, r := range routes {
		apart := false
		for ch, s := range out {
			_, both := in[ch]
			apart = apart || s == sock[r.addr] && !both
		}
		_, received := in[r.ch]
		if s, listener := out[r.ch]; apart && (received && !listener || listener && s != sock[r.addr] && s != "both") {
			c.Fail("queue", "%s: the answer to %s, session %d, is not queued for sending to it but %s", what, r.addr, r.session,
				map[bool]string{true: "as if it had been received", false: "with what leaves by the other socket"}[received])
		}
	}
	for k, v := range answers {
		if len(v) != len(reqs[k]) {
			c.Fail("answers", "%s: %d requests of session %d came from %s, answered %v", what, len(reqs[k]), k.session, k.addr, v)
		}
	}
	registered := map[key][]string{}
	for _, v := range h.Rows(trans.Transfers) {
		peer := v.FieldByName("Peer").Interface().(vnet.UDPAddr)
		k := key{peer.String(), uint32(v.FieldByName("Session").Uint())}
		registered[k] = append(registered[k], fmt.Sprintf("%s %s", v.FieldByName("Ttype").String(), v.FieldByName("Filename").String()))
	}
	for k, as := range reqs {
		got := answers[k]
		if len(got) != len(as) {
			c.Fail("answers", "%s: %d requests of session %d came from %s, answered %v; waiting: %v", what, len(as), k.session, k.addr, got, n.Res.Blocked)
		}
		if len(as) == 1 {
			a := as[0]
			if a.want != "" && got[0] != a.want {
				c.Fail("answer", "%s: %s is answered %s and not %s", what, a.name, got[0], a.want)
			}
			if a.want == "" && a.typ != "delete" && got[0] != "success" {
				c.Fail("answer", "%s: %s is acceptable and answered %s", what, a.name, got[0])
			}
			accepted := a.want == "" && a.typ != "delete"
			if accepted && (len(registered[k]) != 1 || registered[k][0] != a.typ+" "+a.file) {
				c.Fail("registered", "%s: %s is accepted and registered are %v", what, a.name, registered[k])
			}
			if !accepted && len(registered[k]) != 0 {
				c.Fail("registered", "%s: %s is not to be registered, but registered are %v", what, a.name, registered[k])
			}
			continue
		}
		// several requests with one key: one is registered if any is acceptable
		var fine []string
		for _, a := range as {
			if a.want == "" && a.typ != "delete" {
				fine = append(fine, a.typ+" "+a.file)
			}
		}
		if len(fine) == 0 {
			if len(registered[k]) != 0 {
				c.Fail("registered", "%s: registered are %v", what, registered[k])
			}
			continue
		}
		if len(registered[k]) != 1 || !contains(fine, registered[k][0]) {
			c.Fail("registered", "%s: acceptable are %v and registered are %v", what, fine, registered[k])
		}
		okN := 0
		for _, x := range got {
			if x == "success" {
				okN++
			}
		}
		wantOK := 0
		for _, x := range fine {
			if x == registered[k][0] {
				wantOK++
			}
		}
		if !deletes && okN != wantOK {
			c.Fail("answer", "%s: %d requests like the registered %v are answered %v", what, wantOK, registered[k], got)
		}
	}
	for k, v := range registered {
		if len(reqs[k]) == 0 {
			c.Fail("registered", "%s: a transfer of session %d with %s is registered: %v", what, k.session, k.addr, v)
		}
	}
	// the peers
	var have, want []string
	for _, v := range h.Rows(beacon.Peers) {
		a := v.FieldByName("Addr").String()
		have = append(have, a)
		s := fmt.Sprintf("%d %s", v.FieldByName("Freespace").Uint(), v.FieldByName("Eid").String())
		if heard[a] != nil && !heard[a][s] {
			c.Fail("peer", "%s: the peer %s is entered with %s", what, a, s)
		}
	}
	for a := range heard {
		want = append(want, a)
	}
	sort.Strings(have)
	sort.Strings(want)
	if strings.Join(have, " ") != strings.Join(want, " ") {
		c.Fail("peers", "%s: the peers are %v and not %v", what, have, want)
	}
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// seqs: all sequences on one socket, in one schedule
func seqs(depth int, from []string, senders int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		prepare()
		v6 := c.Bool("v6")
		var ds []node.In
		for i := 0; i < depth; i++ {
			ds = append(ds, in(v6, c.Pick("sender", senders), mc.Of(c, "datagram", from)))
		}
		n := node.Run(c, vs.Config{Youngest: c.Bool("youngest first")}, ds)
		judge(c, n, ds)
	}
}

// scheds: a on the IPv4 and b on the IPv6 socket, all schedules
func scheds(a, b int, from []string, preempt int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		prepare()
		var ds []node.In
		for i := 0; i < a; i++ {
			ds = append(ds, in(false, 0, mc.Of(c, "v4 datagram", from)))
		}
		for i := 0; i < b; i++ {
			ds = append(ds, in(true, 0, mc.Of(c, "v6 datagram", from)))
		}
		n := node.Run(c, vs.Config{Preempt: preempt, FreeSwitch: true}, ds)
		judge(c, n, ds)
	}
}

// bursts of many datagrams
func bursts(c *mc.Ctx) {
	prepare()
	a := mc.Of(c, "datagram", []string{"beacon", "get", "get-missing", "put", "data16", "metadata", "status", "data-short", "v0", "request-bad", "short"})
	b := mc.Of(c, "other", []string{"beacon-2", "get", "delete-missing", "data-short", "data16"})
	shape := c.Pick("shape", 4)
	count := []int{1, 2, 5, 17, 40, 130}[c.Pick("number", 6)]
	young := c.Bool("youngest first")
	var ds []node.In
	for i := 0; i < count; i++ {
		switch shape {
		case 0:
			ds = append(ds, in(false, i%3, a))
		case 1:
			ds = append(ds, in(true, i%3, a))
		case 2:
			ds = append(ds, in(false, i%3, a), in(true, i%3, b))
		case 3:
			ds = append(ds, in(false, 0, a), in(false, 1, b))
		}
	}
	n := node.Run(c, vs.Config{Youngest: young, OneCase: true, MaxSteps: 200000}, ds)
	judge(c, n, ds)
}

// sessions: many different requests in one burst
func sessions(c *mc.Ctx) {
	prepare()
	count := []int{2, 9, 33, 70}[c.Pick("number", 4)]
	typ := mc.Of(c, "type", []string{"get", "take", "getdir", "put", "give"})
	file := map[string]string{"get": "f", "take": "g", "getdir": ".", "put": "new", "give": "new2"}[typ]
	young := c.Bool("youngest first")
	two := c.Bool("both sockets")
	var ds []node.In
	for i := 0; i < count; i++ {
		v6 := two && i%2 == 1
		d := in(v6, i%3, "get")
		d.Name = fmt.Sprintf("%s %d", typ, i)
		d.Data = node.Request(uint32(i/3), typ, file, "rxwilling", "yes", "txwilling", "yes")
		ds = append(ds, d)
	}
	n := node.Run(c, vs.Config{Youngest: young, OneCase: true, MaxSteps: 200000}, ds)
	judge(c, n, ds)
}

// commands: the user looks at the tables while datagrams arrive
func commands(from []string, preempt int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		prepare()
		d := in(c.Bool("v6"), 0, mc.Of(c, "datagram", from))
		line := mc.Of(c, "command", []string{"peers", "tran", "beacon", "rxwilling off", "descriptor d16"})
		g, err := gocui.NewGui(gocui.OutputNormal)
		must(err)
		node.Extra = []func(){func() { sarwin.Run(g, line) }}
		ds := []node.In{d}
		n := node.Run(c, vs.Config{Preempt: preempt, FreeSwitch: true}, ds)
		node.Extra = nil
		judge(c, n, ds)
		_ = sarflags.Cliflag
	}
}

func setup(c *mc.Ctx) {
	node.Setup(c)
	frames = pool()
}

func main() {
	all := []string{"beacon", "beacon-free", "beacon-2", "get", "get-again", "get-other-file", "get-missing", "put", "put-existing", "take", "give", "getdir", "delete", "delete-missing",
		"get-unwilling", "put-unwilling", "get-invalid", "put-invalid", "get-udplite", "get-stream", "request-type-200",
		"data16", "metadata", "status", "data-short", "status-short", "metadata-short", "v0", "request-bad", "beacon-bad", "short", "type9"}
	some := []string{"beacon", "beacon-2", "get", "get-other-file", "get-missing", "put", "delete", "data16", "data-short", "v0"}
	few := []string{"beacon", "get", "data-short", "get-missing"}
	mc.Main(&mc.Check{ID: "C17", Setup: setup,
		Assume: []string{
			"what the parts of the node hand to each other is observed as values of the Packet types passing between its activities; sending what is queued is not implemented and not required",
			"reading a socket does not fail and the terminal stays open",
			"the schedules range over goroutine, channel, lock and network operations and accesses to package variables that nothing orders",
		},
		Scenarios: []mc.Scenario{
			{Name: "pairs", Bounds: fmt.Sprintf("all sequences of 2 of %d datagrams from 3 senders on either socket, oldest or youngest activity first", len(all)), Run: seqs(2, all, 3)},
			{Name: "triples", Bounds: "all sequences of 3 of 10 datagrams from 2 senders on either socket, oldest or youngest activity first", Run: seqs(3, some, 2)},
			{Name: "bursts", Bounds: "1 to 260 datagrams of 11 sorts on one or both sockets, mixed with 5 others", Run: bursts},
			{Name: "sessions", Bounds: "2 to 70 accepted requests of 5 types from 3 senders", Run: sessions},
			{Name: "one", Bounds: "each of 32 datagrams, all schedules up to 2 preemptions", Run: scheds(1, 0, all, 2), Shard: 6},
			{Name: "two", Bounds: "all sequences of 2 of 3 datagrams, all schedules up to 1 preemption", Run: scheds(2, 0, few[:3], 1), Shard: 7},
			{Name: "both", Bounds: "one of 3 datagrams on each socket, all schedules without preemption", Run: scheds(1, 1, few[:3], 0), Shard: 7},
			{Name: "commands", Bounds: "3 datagrams x 5 commands, all schedules without preemption", Run: commands([]string{"beacon", "get", "data-short"}, 0), Shard: 6},
			{Name: "two-10", Bounds: "all sequences of 2 of 10 datagrams, all schedules up to 1 preemption", Run: scheds(2, 0, some, 1), Shard: 7, Thorough: true},
			{Name: "both-10", Bounds: "one of 10 datagrams on each socket, all schedules up to 1 preemption", Run: scheds(1, 1, some, 1), Shard: 7, Thorough: true},
			{Name: "three", Bounds: "all sequences of 3 of 4 datagrams, all schedules without preemption", Run: scheds(3, 0, few, 0), Shard: 7, Thorough: true},
			{Name: "commands-1", Bounds: "3 datagrams x 5 commands, all schedules up to 1 preemption", Run: commands([]string{"beacon", "get", "data-short"}, 1), Shard: 6, Thorough: true},
		}})
}
