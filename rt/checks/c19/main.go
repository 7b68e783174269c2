// C19: concurrent use never duplicates or loses sessions, peers or transfers.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/charlesetsmith/saratoga/timestamp"
	"github.com/charlesetsmith/saratoga/trans"
	"github.com/jroimartin/gocui"

	"verif/checks/h"
	"verif/checks/node"
	"verif/mc"
	"verif/vnet"
	"verif/vs"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var addrs = []*vnet.UDPAddr{
	{IP: vnet.IP{192, 0, 2, 1}, Port: 7542},
	{IP: vnet.IP{192, 0, 2, 2}, Port: 7542},
	{IP: vnet.ParseIP("fe80::1"), Port: 7542, Zone: "en0"},
	{IP: vnet.IP{192, 0, 2, 9}, Port: 7542},
}

func at(i int) *vnet.UDPAddr {
	a := *addrs[i]
	a.IP = append(vnet.IP(nil), a.IP...)
	return &a
}

// world is one run: what it started with and what came out.
type world struct {
	preset []*sarwin.Transfer
	shown  map[*gocui.Gui][]func(*gocui.Gui) error
}

type op struct {
	name string
	run  func(w *world, g *gocui.Gui) string
	text bool // what it shows is part of the outcome
	need bool // needs transfers under way
}

func hear(name string, a int, frame []byte) op {
	return op{name: name, run: func(w *world, g *gocui.Gui) string {
		b := new(beacon.Beacon)
		must(b.Decode(append([]byte(nil), frame...)))
		return fmt.Sprint(beacon.NewPeer(b, at(a)))
	}}
}

func asked(name string, a int, session uint32, typ, file string) op {
	return op{name: name, run: func(w *world, g *gocui.Gui) string {
		r := new(request.Request)
		must(r.Decode(node.Request(session, typ, file, "rxwilling", "yes", "txwilling", "yes")))
		tx := make(chan interface{}, 4)
		ok := trans.AddRxTran(g, r, at(a), tx)
		out := fmt.Sprint(ok)
		for vs.Len((<-chan interface{})(tx)) > 0 {
			p := vs.Recv((<-chan interface{})(tx)).(status.Packet)
			ec := h.F("errcode").NameOf(h.F("errcode").Get(32, p.Info.Header))
			out += fmt.Sprintf(" %s to %s session %d", ec, p.Addr.String(), p.Info.Session)
		}
		return out
	}}
}

func begin(name string, a int, typ, file string) op {
	return op{name: name, run: func(w *world, g *gocui.Gui) string {
		t, err := sarwin.NewInitiator(g, typ, at(a), file, sarflags.Cliflag)
		if err != nil {
			return "refused"
		}
		return fmt.Sprintf("session %d", t.Session)
	}}
}

func remove(i int) op {
	return op{name: fmt.Sprintf("remove transfer %d", i), need: true, run: func(w *world, g *gocui.Gui) string {
		return fmt.Sprint(w.preset[i].Remove() == nil)
	}}
}

func find(i int) op {
	return op{name: fmt.Sprintf("look up transfer %d", i), need: true, run: func(w *world, g *gocui.Gui) string {
		t := sarwin.Lookup(sarwin.Initiator, w.preset[i].Session, w.preset[i].Peer.String())
		return fmt.Sprint(t == w.preset[i], t == nil)
	}}
}

func match(i int) op {
	return op{name: fmt.Sprintf("match transfer %d", i), need: true, run: func(w *world, g *gocui.Gui) string {
		t := sarwin.Match(w.preset[i].Peer.String(), w.preset[i].Session)
		return fmt.Sprint(t == w.preset[i], t == nil)
	}}
}

func line(l string, text bool) op {
	return op{name: "command " + l, text: text, run: func(w *world, g *gocui.Gui) string {
		sarwin.Run(g, l)
		return ""
	}}
}

func rmtran(i int) op {
	return op{name: fmt.Sprintf("command rmtran %d", i), need: true, run: func(w *world, g *gocui.Gui) string {
		t := w.preset[i]
		sarwin.Run(g, fmt.Sprintf("rmtran %s %s %d", t.Ttype, t.Peer, t.Session))
		return ""
	}}
}

var ops []op
var bases = []string{"nothing", "transfers", "peers"}

func setup(c *mc.Ctx) {
	h.Setup(c)
	for _, n := range []string{"f", "g", "k"} {
		must(os.WriteFile(filepath.Join(h.Dir, n), []byte(n), 0o644))
	}
	b1 := node.Beacon("one", 1000, "descriptor", "d32", "freespace", "yes", "freespaced", "d32", "rxwilling", "yes", "txwilling", "yes")
	b2 := node.Beacon("two", 1<<33, "descriptor", "d64", "freespace", "yes", "freespaced", "d64", "rxwilling", "no", "txwilling", "capable")
	ops = []op{
		hear("beacon one from A", 0, b1), hear("beacon two from A", 0, b2), hear("beacon one from B", 1, b1), hear("beacon two from C", 2, b2),
		asked("get f from A", 0, 1, "get", "f"), asked("get g from A", 0, 1, "get", "g"), asked("put new from A", 0, 1, "put", "new"), asked("get f from B", 1, 1, "get", "f"), asked("take f from A, session 2", 0, 2, "take", "f"), asked("get missing from A", 0, 1, "get", "missing"),
		begin("start put f to A", 0, "put", "f"), begin("start put f to B", 1, "put", "f"), begin("start get new1 from A", 0, "get", "new1"), begin("start get new1 from B", 1, "get", "new1"), begin("start give g to A", 0, "give", "g"),
		remove(0), remove(1), find(0), match(0), rmtran(0),
		line("peers", true), line("tran", true), line("tran put", true), line("checksum md5", false),
	}
	gocui.UpdateHook = func(g *gocui.Gui, f func(*gocui.Gui) error) {
		if cur != nil {
			cur.shown[g] = append(cur.shown[g], f)
		}
	}
	bases = bases[:3]
}

var cur *world

// clear removes what a run has made.
func clear() {
	for _, v := range h.Rows(sarwin.Transfers) {
		if f, ok := v.FieldByName("Fp").Interface().(*os.File); ok && f != nil {
			f.Close()
		}
	}
	if cur != nil {
		for _, t := range cur.preset {
			if t.Fp != nil {
				t.Fp.Close()
			}
		}
	}
	for _, n := range []string{"new", "new1"} {
		os.Remove(filepath.Join(h.Dir, n))
	}
}

type zero struct{}

func (zero) Pick(string, int) int { return 0 }

func guis(n int) []*gocui.Gui {
	var out []*gocui.Gui
	for i := 0; i < n; i++ {
		g, err := gocui.NewGui(gocui.OutputNormal)
		must(err)
		must(sarwin.Layout(g))
		out = append(out, g)
	}
	return out
}

// base brings about the state the operations start from.
func base(c *mc.Ctx, which int) {
	clear() // what a run that is started over has left
	h.Fresh()
	w := &world{shown: map[*gocui.Gui][]func(*gocui.Gui) error{}}
	cur = w
	g := guis(1)[0]
	if which == 1 {
		for i, a := range []int{0, 1, 0} {
			t, err := sarwin.NewInitiator(g, "put", at(a), []string{"k", "k", "g"}[i], sarflags.Cliflag)
			if err != nil {
				c.Fail("start", "a transfer cannot be started: %v", err)
			}
			w.preset = append(w.preset, t)
		}
	}
	if which == 2 {
		for i := 0; i < 3; i++ {
			b := new(beacon.Beacon)
			must(b.Decode(node.Beacon("old", 7, "descriptor", "d16", "freespace", "yes", "freespaced", "d16")))
			beacon.NewPeer(b, at(i))
		}
	}
	flush(c)
}

// flush shows what is queued for the screens.
func flush(c *mc.Ctx) {
	m := cur.shown
	cur.shown = map[*gocui.Gui][]func(*gocui.Gui) error{}
	c.Must("showing the output", func() {
		for g, fs := range m {
			for _, f := range fs {
				must(f(g))
			}
		}
	})
}

func healthy(c *mc.Ctx, what string, r *vs.Result) {
	if r.Crash != "" || r.Died {
		c.Fail("crash", "%s: ends with %s\n%s", what, r.Crash, r.Stack)
	}
	if len(r.Blocked) > 0 || r.Livelock {
		c.Fail("hang", "%s: never finishes: %v", what, r.Blocked)
	}
}

// outcome is what the operations brought and left behind.
func outcome(c *mc.Ctx, what string, sel []int, res []string, gs []*gocui.Gui) string {
	var out []string
	for i, k := range sel {
		s := ops[k].name + ": " + res[i]
		if ops[k].text {
			g := gs[i]
			flush(c)
			for _, v := range []string{"msg", "err"} {
				if vw, err := g.View(v); err == nil {
					s += "\n" + vw.Buffer()
				}
			}
		}
		out = append(out, s)
	}
	var t []string
	for _, v := range h.Rows(beacon.Peers) {
		s := "peer"
		for _, f := range []string{"Addr", "Freespace", "Eid", "Maxdesc", "Canrx", "Cantx"} {
			s += fmt.Sprintf(" %v", v.FieldByName(f))
		}
		for _, f := range []string{"Created", "Updated"} {
			x := v.FieldByName(f).Interface().(timestamp.Timestamp)
			s += " " + x.Print()
		}
		t = append(t, s)
	}
	for _, v := range h.Rows(trans.Transfers) {
		p := v.FieldByName("Peer").Interface().(vnet.UDPAddr)
		t = append(t, fmt.Sprintf("received request %s %d %v %v", p.String(), v.FieldByName("Session").Uint(), v.FieldByName("Ttype"), v.FieldByName("Filename")))
	}
	for _, v := range h.Rows(sarwin.Transfers) {
		t = append(t, fmt.Sprintf("transfer %s %d %v %v", v.FieldByName("Peer").Interface(), v.FieldByName("Session").Uint(), v.FieldByName("Ttype"), v.FieldByName("Filename")))
	}
	sort.Strings(t)
	out = append(out, t...)
	// the next session
	n, err := sarwin.NewInitiator(gs[0], "put", at(3), "k", sarflags.Cliflag)
	if err != nil {
		out = append(out, "no further transfer can be started")
	} else {
		out = append(out, fmt.Sprintf("next session %d", n.Session))
	}
	clear()
	return strings.Join(out, "\n")
}

var known = map[string]map[string]bool{}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int(nil), p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

// orders are the outcomes of the sequential orders.
func orders(c *mc.Ctx, what string, b int, sel []int) map[string]bool {
	key := fmt.Sprint(b, sel)
	if m := known[key]; m != nil {
		return m
	}
	m := map[string]bool{}
	for _, p := range perms(len(sel)) {
		base(c, b)
		gs := guis(len(sel))
		res := make([]string, len(sel))
		for _, i := range p {
			r := vs.Run(vs.Config{}, zero{}, func() { res[i] = ops[sel[i]].run(cur, gs[i]) })
			healthy(c, what+" one after the other", r)
		}
		m[outcome(c, what, sel, res, gs)] = true
	}
	known[key] = m
	return m
}

func together(n, preempt int, of func(op) bool) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		b := c.Pick("base", len(bases))
		var sel []int
		lo := 0
		for i := 0; i < n; i++ {
			k := lo + c.Pick("operation", len(ops)-lo)
			lo = k
			if ops[k].need && b != 1 || of != nil && !of(ops[k]) {
				c.Skip()
			}
			sel = append(sel, k)
		}
		var names []string
		for _, k := range sel {
			names = append(names, ops[k].name)
		}
		what := fmt.Sprintf("with %s: %s together", bases[b], strings.Join(names, ", "))
		want := orders(c, what, b, sel)
		base(c, b)
		gs := guis(n)
		res := make([]string, n)
		r := c.Sched(vs.Config{Preempt: preempt, FreeSwitch: true}, func() {
			for i, k := range sel {
				vs.Go(ops[k].name, func() { res[i] = ops[k].run(cur, gs[i]) })
			}
		})
		c.Op(n)
		healthy(c, what, r)
		got := outcome(c, what, sel, res, gs)
		if !want[got] {
			var l []string
			for k := range want {
				l = append(l, k)
			}
			sort.Strings(l)
			c.Fail("outcome/"+strings.ReplaceAll(strings.Join(names, ","), " ", "-"), "%s: the outcome is\n%s\nwhich no order of them gives; those give\n%s", what, got, strings.Join(l, "\n--\n"))
		}
	}
}

func main() {
	short := func(o op) bool {
		switch o.name {
		case "beacon one from A", "beacon two from A", "get f from A", "get g from A", "start put f to A", "start get new1 from B", "start get new1 from A", "remove transfer 0", "command rmtran 0", "command peers", "command tran", "command checksum md5":
			return true
		}
		return false
	}
	mc.Main(&mc.Check{ID: "C19", Setup: setup,
		Assume: []string{
			"the outcomes of the sequential orders are taken from the code itself; that they are right is C16, C18 and C22 to C24",
			"the schedules range over goroutine, channel, lock and network operations and accesses to package variables that nothing orders; fields reached through pointers are not scheduling points",
		},
		Scenarios: []mc.Scenario{
			{Name: "pairs", Bounds: "all pairs of 24 operations from 3 states, all schedules up to 2 preemptions", Run: together(2, 2, nil)},
			{Name: "triples", Bounds: "all triples of 24 operations from 3 states, all schedules up to 1 preemption", Run: together(3, 1, nil), Shard: 3},
			{Name: "triples-2", Bounds: "all triples of 12 operations from 3 states, all schedules up to 2 preemptions", Run: together(3, 2, short), Shard: 3},
			{Name: "pairs-4", Bounds: "all pairs of 24 operations from 3 states, all schedules up to 4 preemptions", Run: together(2, 4, nil)},
			{Name: "four", Bounds: "all quadruples of 12 operations from 3 states, all schedules without preemption", Run: together(4, 0, short), Shard: 3},
			{Name: "triples-23", Bounds: "all triples of 24 operations from 3 states, all schedules up to 2 preemptions", Run: together(3, 2, nil), Shard: 3, Thorough: true},
			{Name: "four-1", Bounds: "all quadruples of 12 operations from 3 states, all schedules up to 1 preemption", Run: together(4, 1, short), Shard: 3, Thorough: true},
		}})
}
