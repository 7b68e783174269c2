// C25: beacons are emitted as commanded.
package main

import (
	"errors"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/jroimartin/gocui"

	"verif/checks/h"
	"verif/mc"
	"verif/vnet"
	"verif/vos"
	"verif/vs"
	"verif/vsyscall"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var gui *gocui.Gui
var queued []func(*gocui.Gui) error
var views = []string{"msg", "err", "packet", "cmd"}
var avail uint64

func setup(c *mc.Ctx) {
	h.Setup(c)
	must(os.Chdir(h.Dir))
	gocui.UpdateHook = func(g *gocui.Gui, f func(*gocui.Gui) error) { queued = append(queued, f) }
	var err error
	gui, err = gocui.NewGui(gocui.OutputNormal)
	must(err)
	must(sarwin.Layout(gui))
	queued = nil
}

var esc = regexp.MustCompile("\x1b\\[[0-9;]*m")

// flush shows what is still queued for the screen.
func flush() {
	q := queued
	queued = nil
	for _, f := range q {
		f(gui)
	}
}

func output(c *mc.Ctx, what string) string {
	for _, n := range views {
		v, _ := gui.View(n)
		v.Clear()
	}
	q := queued
	queued = nil
	c.Must("showing the output of "+what, func() {
		for _, f := range q {
			must(f(gui))
		}
	})
	var b strings.Builder
	for _, n := range views {
		v, _ := gui.View(n)
		b.WriteString(v.Buffer())
	}
	return strings.ReplaceAll(esc.ReplaceAllString(b.String(), ""), "\n", "")
}

// target is a word of a beacon command.
type target struct {
	word string
	addr string // where the beacons go; empty if it is not an address
	bad  int    // 1: cannot be dialled, 2+k: the beacon k cannot be sent, 100+k: nor any later one
}

var targets = []target{
	{"192.0.2.7", "192.0.2.7:7542", 0},
	{"2001:db8::7", "[2001:db8::7]:7542", 0},
	{"10.255.255.254", "10.255.255.254:7542", 0},
	{"nosuchhost", "", 0},
	{"192.0.2.300", "", 0},
	{"192.0.2.98", "192.0.2.98:7542", 1},
	{"192.0.2.99", "192.0.2.99:7542", 2},
	{"192.0.2.100", "192.0.2.100:7542", 3},
	{"2001:db8::bad", "[2001:db8::bad]:7542", 1},
	{"fe80::7", "[fe80::7]:7542", 0},
	{"2001:db8::/32", "", 0},
	{"192.0.2.101", "192.0.2.101:7542", 100},
	{"2001:db8::101", "[2001:db8::101]:7542", 101},
}

var v4 = target{"v4", "224.0.0.108:7542", 0}
var v6 = target{"v6", "[ff02::6c]:7542", 0}

// conf is what the beacons are sent with.
type conf struct {
	count, interval uint
	flags           map[string]string
}

func current() conf {
	f := map[string]string{}
	for k, v := range sarflags.Cliflag.Global {
		f[k] = v
	}
	return conf{sarflags.Cliflag.Bcount, sarflags.Cliflag.Timeout.Binterval, f}
}

func network() {
	sent := map[string]int{}
	vnet.DialErr = func(a *vnet.UDPAddr) error {
		for _, t := range targets {
			if t.addr == a.String() && t.bad == 1 {
				return errors.New("network is unreachable")
			}
		}
		return nil
	}
	vnet.SendErr = func(c *vnet.UDPConn, a *vnet.UDPAddr, b []byte) error {
		for _, t := range targets {
			if t.addr == a.String() && t.bad >= 100 && sent[a.String()] >= t.bad-100 {
				return errors.New("no buffer space available")
			}
			if t.addr == a.String() && t.bad > 1 && sent[a.String()] == t.bad-2 {
				sent[a.String()]++
				return errors.New("connection refused")
			}
		}
		sent[a.String()]++
		return nil
	}
	vsyscall.StatfsHook = func(path string, st *vsyscall.Statfs_t) error {
		*st = vsyscall.Statfs_t{Bsize: 4096, Frsize: 4096, Bavail: avail, Bfree: avail * 2, Blocks: 1 << 42}
		return nil
	}
}

// header and space a beacon must have
func (k conf) want() (uint32, uint64) {
	hdr := h.Header("beacon")
	for _, f := range []string{"descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace"} {
		if v, ok := k.flags[f]; ok {
			hdr = h.F(f).Put(32, hdr, h.F(f).Value(v))
		}
	}
	if h.Is(hdr, "freespace", "no") {
		return hdr, 0
	}
	free := avail * 4
	d := "d64"
	if free < 1<<16 {
		d = "d16"
	} else if free < 1<<32 {
		d = "d32"
	}
	return h.F("freespaced").Put(32, hdr, h.F("freespaced").Value(d)), free
}

// is reports whether a datagram is the beacon wanted.
func (k conf) is(d vnet.Datagram) string {
	var b beacon.Beacon
	if err := b.Decode(d.Data); err != nil {
		return "cannot be decoded: " + err.Error()
	}
	hdr, free := k.want()
	got := b.Header
	if h.Is(hdr, "freespace", "no") {
		got = h.F("freespaced").Put(32, got, 0)
	}
	if got != hdr {
		return fmt.Sprintf("has the header %08x and not %08x", b.Header, hdr)
	}
	if b.Freespace != free {
		return fmt.Sprintf("has free space %d and not %d", b.Freespace, free)
	}
	if eid := fmt.Sprintf("%s-%d", d.From, vos.Pid); b.Eid != eid {
		return fmt.Sprintf("has the identity %q and not %q", b.Eid, eid)
	}
	return ""
}

func show(ds []vnet.Datagram, t0 time.Time) string {
	var out []string
	for _, d := range ds {
		out = append(out, fmt.Sprintf("%v %s (%d bytes)", d.At.Sub(t0), d.To, len(d.Data)))
	}
	return strings.Join(out, ", ")
}

// judge compares what one command sent with what it should.
func judge(c *mc.Ctx, line string, ts []target, k conf, ds []vnet.Datagram, from time.Time, text string) {
	i := 0
	last := from
	for _, t := range ts {
		if t.addr == "" {
			if !strings.Contains(text, t.word) {
				c.Fail("unreported", "%q: nothing is said of %q, which is no address: %q", line, t.word, text)
			}
			continue
		}
		n := k.count
		if t.bad == 1 {
			n = 0
		} else if t.bad >= 100 && uint(t.bad-100) < n {
			n = uint(t.bad - 100)
		} else if t.bad > 1 && t.bad < 100 && uint(t.bad-2) < n {
			n = uint(t.bad - 2)
		}
		var prev time.Time
		for j := uint(0); j < n; j++ {
			if i >= len(ds) || ds[i].To.String() != t.addr {
				c.Fail("number", "%q with %d beacons every %d s: %d of the beacons to %s are sent: %s", line, k.count, k.interval, j, t.addr, show(ds, from))
			}
			if why := k.is(ds[i]); why != "" {
				c.Fail("content", "%q: the beacon %d to %s %s", line, j, t.addr, why)
			}
			iv := time.Duration(k.interval) * time.Second
			if j == 0 {
				if d := ds[i].At.Sub(last); d < 0 || d > iv {
					c.Fail("time", "%q every %d s: the first beacon to %s follows after %v: %s", line, k.interval, t.addr, d, show(ds, from))
				}
			} else if d := ds[i].At.Sub(prev); d != iv {
				c.Fail("time", "%q every %d s: a beacon to %s follows after %v: %s", line, k.interval, t.addr, d, show(ds, from))
			}
			prev = ds[i].At
			last = prev
			i++
		}
		if n < k.count {
			if !strings.Contains(text, t.word) || len(text) < len(t.word)+8 {
				c.Fail("unreported", "%q: nothing is said of %s, which cannot be reached: %q", line, t.word, text)
			}
			// what may still be sent to it
			for i < len(ds) && ds[i].To.String() == t.addr {
				last = ds[i].At
				i++
			}
		}
	}
	if i != len(ds) {
		c.Fail("number", "%q with %d beacons: more is sent: %s", line, k.count, show(ds, from))
	}
}

func run(c *mc.Ctx, line string) (*vs.Result, []vnet.Datagram, time.Time, string) {
	flush()
	before := len(vnet.Sent)
	start := time.Date(2024, 5, 6, 7, 8, 9, 0, time.UTC)
	r := c.Sched(vs.Config{Start: start}, func() { sarwin.Run(gui, line) })
	c.Op(1)
	alive(c, line, r)
	text := output(c, line)
	c.Logf("> %s: %s", line, show(vnet.Sent[before:], start))
	for _, k := range vnet.Conns {
		if !k.Closed {
			c.Fail("socket", "%q leaves a socket to %s open", line, k.Raddr)
		}
	}
	return r, vnet.Sent[before:], start, text
}

func alive(c *mc.Ctx, line string, r *vs.Result) {
	if r.Crash != "" || r.Died || r.Livelock {
		c.Fail("ends", "%q ends the node: %s\n%s", line, r.Crash, r.Stack)
	}
	if len(r.Blocked) > 0 {
		c.Fail("hangs", "%q hangs: %v", line, r.Blocked)
	}
}

func configure(c *mc.Ctx, deep int) {
	f := sarflags.Cliflag
	f.Bcount = []uint{1, 2, 4, 0}[c.Pick("count", 4)]
	f.Timeout.Binterval = []uint{1, 3, 3600}[c.Pick("interval", deep)]
	avail = []uint64{1000, 1 << 20, 1 << 32}[c.Pick("disk", deep)]
	if deep < 2 {
		return
	}
	switch c.Pick("flags", 5) {
	case 1:
		f.Global["freespace"] = "no"
	case 2:
		f.Global["descriptor"], f.Global["txwilling"], f.Global["rxwilling"] = "d16", "capable", "no"
	case 3:
		f.Global["stream"], f.Global["udplite"], f.Global["descriptor"] = "yes", "yes", "d32"
	case 4:
		f.Global["txwilling"], f.Global["rxwilling"], f.Global["csumtype"] = "no", "capable", "md5"
	}
}

func fresh() {
	h.Fresh()
	vnet.Reset()
	queued = nil
	network()
}

// single: one address of every kind under every configuration
func single(c *mc.Ctx) {
	fresh()
	configure(c, 3)
	t := mc.Of(c, "target", append([]target{v4, v6}, targets...))
	if strings.HasPrefix(t.word, "v") && c.Bool("other groups") {
		sarflags.Cliflag.V4Multicast, sarflags.Cliflag.V6Multicast = "239.1.2.3", "ff05::1:2"
		t.addr = map[string]string{"v4": "239.1.2.3:7542", "v6": "[ff05::1:2]:7542"}[t.word]
	}
	k := current()
	_, ds, at, text := run(c, "beacon "+t.word)
	judge(c, "beacon "+t.word, []target{t}, k, ds, at, text)
	if c.Bool("again") {
		network()
		_, ds, at, text = run(c, "beacon "+t.word)
		judge(c, "beacon "+t.word, []target{t}, k, ds, at, text)
	}
}

// many: large numbers of beacons and long intervals
func many(c *mc.Ctx) {
	fresh()
	f := sarflags.Cliflag
	f.Bcount = []uint{3, 7, 31, 33, 100, 128, 255, 256, 257, 300, 1000}[c.Pick("count", 11)]
	f.Timeout.Binterval = []uint{1, 59, 60, 61, 255, 256, 3601, 65536, 5000000, 400000000}[c.Pick("interval", 10)]
	t := mc.Of(c, "target", []target{v4, v6, targets[0], targets[1]})
	k := current()
	_, ds, at, text := run(c, "beacon "+t.word)
	judge(c, "beacon "+t.word, []target{t}, k, ds, at, text)
}

// lists of addresses
func lists(n int, deep int, from []target) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		fresh()
		configure(c, deep)
		k := c.Pick("length", n-1) + 2
		line := "beacon"
		var ts []target
		seen := map[string]bool{}
		for i := 0; i < k; i++ {
			t := mc.Of(c, "target", from)
			if t.bad > 1 && seen[t.word] {
				c.Skip() // fails only once
			}
			seen[t.word] = true
			ts = append(ts, t)
			line += " " + t.word
		}
		cf := current()
		_, ds, at, text := run(c, line)
		judge(c, line, ts, cf, ds, at, text)
	}
}

// quiet: what sends nothing
func quiet(c *mc.Ctx) {
	fresh()
	configure(c, 1)
	ops := []string{"beacon off", "beacon", "beacon ?", "beacon off 192.0.2.7", "beacon off 192.0.2.7 2001:db8::7", "beacon off 2001:db8::7 192.0.2.7 192.0.2.7", "bcount 2", "interval 1", "peers"}
	for i := 0; i < 3; i++ {
		line := mc.Of(c, "line", append([]string{"beacon v4", "beacon 192.0.2.7 2001:db8::7"}, ops...))
		k := current()
		_, ds, at, text := run(c, line)
		switch line {
		case "beacon v4":
			judge(c, line, []target{v4}, k, ds, at, text)
		case "beacon 192.0.2.7 2001:db8::7":
			judge(c, line, targets[:2], k, ds, at, text)
		default:
			if len(ds) > 0 {
				c.Fail("quiet", "%q sends %s", line, show(ds, at))
			}
		}
	}
}

// histories of beacons with settings changed between them
func histories(depth int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		fresh()
		sarflags.Cliflag.Bcount, sarflags.Cliflag.Timeout.Binterval = 2, 2
		avail = 5000
		for i := 0; i < depth; i++ {
			line := mc.Of(c, "line", []string{"beacon v4", "beacon v6", "beacon 192.0.2.7", "beacon nosuchhost 192.0.2.7", "beacon 192.0.2.98 2001:db8::7", "beacon off", "beacon",
				"bcount 1", "bcount 3", "interval 5", "interval 1", "freespace no", "freespace yes", "txwilling off", "rxwilling capable", "descriptor d16", "stream yes", "disk"})
			if line == "disk" {
				avail = avail * 1000
				continue
			}
			k := current()
			_, ds, at, text := run(c, line)
			var ts []target
			switch a := strings.Fields(line); {
			case a[0] != "beacon" || len(a) == 1 || a[1] == "off":
				if len(ds) > 0 {
					c.Fail("quiet", "%q sends %s", line, show(ds, at))
				}
				continue
			default:
				for _, w := range a[1:] {
					for _, t := range append([]target{v4, v6}, targets...) {
						if t.word == w {
							ts = append(ts, t)
						}
					}
				}
			}
			judge(c, line, ts, k, ds, at, text)
		}
	}
}

// together: commands that run at the same time
func together(n, preempt int, lines []string) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		fresh()
		sarflags.Cliflag.Bcount, sarflags.Cliflag.Timeout.Binterval = 2, 2
		avail = 5000
		before := current()
		var ls []string
		for i := 0; i < n; i++ {
			ls = append(ls, mc.Of(c, "line", lines))
		}
		seen := map[string]bool{}
		for _, l := range ls {
			if seen[l] || strings.HasPrefix(l, "beacon 192.0.2.98") && seen["beacon 192.0.2.98"] {
				c.Skip()
			}
			seen[l] = true
		}
		flush()
		r := c.Sched(vs.Config{Preempt: preempt, FreeSwitch: true}, func() {
			for _, l := range ls {
				sarwin.Run(gui, l)
			}
		})
		c.Op(1)
		alive(c, fmt.Sprint(ls), r)
		text := output(c, fmt.Sprint(ls))
		// the settings a beacon may have been sent with: any of the changes made before it
		cands := []conf{before}
		for _, l := range ls {
			for _, k := range cands[:len(cands):len(cands)] {
				n := conf{k.count, k.interval, map[string]string{}}
				for a, b := range k.flags {
					n.flags[a] = b
				}
				switch l {
				case "bcount 3":
					n.count = 3
				case "interval 5":
					n.interval = 5
				case "freespace no":
					n.flags["freespace"] = "no"
				case "rxwilling off":
					n.flags["rxwilling"] = "no"
				default:
					continue
				}
				cands = append(cands, n)
			}
		}
		any := func(f func(conf) bool) bool {
			for _, k := range cands {
				if f(k) {
					return true
				}
			}
			return false
		}
		// every connection is one address of one command
		by := map[string][]vnet.Datagram{}
		for _, d := range vnet.Sent {
			by[d.To.String()] = append(by[d.To.String()], d)
		}
		want := map[string]int{}
		for _, l := range ls {
			a := strings.Fields(l)
			if a[0] != "beacon" || len(a) < 2 || a[1] == "off" {
				continue
			}
			for _, w := range a[1:] {
				for _, t := range append([]target{v4, v6}, targets...) {
					if t.word != w {
						continue
					}
					want[t.addr]++
					if t.bad == 1 {
						if len(by[t.addr]) > 0 || !strings.Contains(text, w) {
							c.Fail("unreported", "%q: %s", ls, w)
						}
						continue
					}
					ds := by[t.addr]
					if !any(func(k conf) bool { return uint(len(ds)) == k.count }) {
						c.Fail("number", "%q together: %d beacons to %s", ls, len(ds), t.addr)
					}
					for i, d := range ds {
						if !any(func(k conf) bool { return k.is(d) == "" }) {
							c.Fail("content", "%q together: the beacon %d to %s %s", ls, i, t.addr, before.is(d))
						}
						if i > 0 {
							if iv := d.At.Sub(ds[i-1].At); !any(func(k conf) bool { return iv == time.Duration(k.interval)*time.Second }) {
								c.Fail("time", "%q together: the beacon %d to %s follows after %v", ls, i, t.addr, iv)
							}
						}
					}
				}
			}
		}
		for a, ds := range by {
			if want[a] == 0 {
				c.Fail("number", "%q together: %d beacons to %s", ls, len(ds), a)
			}
		}
		var open []string
		for _, k := range vnet.Conns {
			if !k.Closed {
				open = append(open, k.Raddr.String())
			}
		}
		sort.Strings(open)
		if len(open) > 0 {
			c.Fail("socket", "%q together: sockets left open: %v", ls, open)
		}
	}
}

func main() {
	ls := []string{"beacon v4", "beacon v6", "beacon 192.0.2.7 2001:db8::7", "beacon 192.0.2.98 10.255.255.254", "beacon off", "beacon", "bcount 3", "interval 5", "freespace no", "rxwilling off"}
	mc.Main(&mc.Check{ID: "C25", Setup: setup,
		Assume: []string{
			"intervals of at least one second",
			"v4 and v6 are the only word of their command",
			"after a beacon that cannot be sent nothing is required of the further ones to that address",
		},
		Scenarios: []mc.Scenario{
			{Name: "single", Bounds: "17 kinds of target x 4 counts x 3 intervals x 3 disks x 5 sets of flags, once or twice", Run: single},
			{Name: "many", Bounds: "4 targets x 11 counts up to 1000 x 10 intervals up to 400000000 s", Run: many},
			{Name: "lists-flags", Bounds: "all lists of 2 of 7 targets x 3 counts x 2 intervals x 2 disks x 5 sets of flags", Run: lists(2, 2, targets[:7])},
			{Name: "quiet", Bounds: "all sequences of 3 of 11 commands x 3 counts", Run: quiet},
			{Name: "together", Bounds: "all pairs of 10 commands at once, all schedules up to 2 preemptions", Run: together(2, 2, ls)},
			{Name: "histories-4", Bounds: "all sequences of 4 of 18 commands that send and configure", Run: histories(4)},
			{Name: "lists-4", Bounds: "all lists of 2 to 4 of 13 targets x 3 counts", Run: lists(4, 1, targets)},
			{Name: "together-3", Bounds: "all triples of 10 commands at once, all schedules up to 2 preemptions", Run: together(3, 2, ls), Thorough: true},
		}})
}
