// C13: the peer table reflects exactly the beacons heard.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/charlesetsmith/saratoga/beacon"

	"verif/checks/h"
	"verif/mc"
	"verif/vnet"
	"verif/vtime"
)

type peer struct {
	free              uint64
	eid, desc, rx, tx string
	created, updated  uint64
}

type variant struct {
	free              uint64
	eid, desc, rx, tx string
}

var variants = []variant{
	{0, "192.0.2.1-4321", "d32", "yes", "yes"},
	{70000, "192.0.2.1-4321", "d32", "yes", "yes"},
	{70001, "192.0.2.1-4321", "d32", "yes", "yes"},
	{0, "[2001:db8::1]:7542-77", "d32", "yes", "yes"},
	{0, "", "d32", "yes", "yes"},
	{0, "192.0.2.1-4321", "d64", "yes", "yes"},
	{0, "192.0.2.1-4321", "d32", "no", "yes"},
	{0, "192.0.2.1-4321", "d32", "yes", "no"},
	{0, "192.0.2.1-4321", "d32", "capable", "invalid"},
}

var senders = []*vnet.UDPAddr{
	{IP: vnet.IP{192, 0, 2, 1}, Port: 7542},
	{IP: vnet.ParseIP("192.0.2.1"), Port: 9999}, // the same sender
	{IP: vnet.IP{192, 0, 2, 10}, Port: 7542},
	{IP: vnet.ParseIP("2001:db8::1"), Port: 7542},
	{IP: vnet.ParseIP("2001:db8::1"), Port: 7542, Zone: "en0"}, // the same address
}

func heard(c *mc.Ctx, b *beacon.Beacon, v variant, reuse bool) {
	fl := fmt.Sprintf("descriptor=%s,rxwilling=%s,txwilling=%s", v.desc, v.rx, v.tx)
	if v.free > 0 {
		fl += ",freespace=yes"
	}
	var t beacon.Beacon
	if err := t.New(fl, &beacon.Binfo{Freespace: v.free, Eid: v.eid}); err != nil {
		c.Fail("build", "%v: %v", v, err)
	}
	buf, err := t.Encode()
	if err == nil {
		err = b.Decode(buf)
	}
	if err != nil {
		c.Fail("build", "%v: %v", v, err)
	}
	for i := range buf {
		buf[i] = 0x77
	}
}

func check(c *mc.Ctx, what string, model map[string]*peer) {
	if len(beacon.Peers) != len(model) {
		c.Fail("entries", "%s: %d entries, want %d", what, len(beacon.Peers), len(model))
	}
	seen := map[string]bool{}
	for i := range beacon.Peers {
		p := &beacon.Peers[i]
		m := model[p.Addr]
		if m == nil || seen[p.Addr] {
			c.Fail("entries", "%s: entry for %s is unknown or repeated", what, p.Addr)
		}
		seen[p.Addr] = true
		if p.Freespace != m.free || p.Eid != m.eid || p.Maxdesc != m.desc || p.Canrx != m.rx || p.Cantx != m.tx {
			c.Fail("content", "%s: entry for %s is free %d identity %q %s rx %s tx %s, want %+v", what, p.Addr, p.Freespace, p.Eid, p.Maxdesc, p.Canrx, p.Cantx, *m)
		}
		if p.Created.Secs() != m.created || p.Updated.Secs() != m.updated {
			c.Fail("times", "%s: entry for %s first heard %d changed %d, want %d and %d", what, p.Addr, p.Created.Secs(), p.Updated.Secs(), m.created, m.updated)
		}
		if m.created == m.updated && p.Updated.Print() != p.Created.Print() {
			c.Fail("times", "%s: entry for %s last changed %s, and was first heard %s and not since", what, p.Addr, p.Updated.Print(), p.Created.Print())
		}
	}
}

func histories(depth int, vs []variant) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		h.Fresh()
		beacon.Peers = nil
		model := map[string]*peer{}
		var shared beacon.Beacon
		for i := 0; i < depth; i++ {
			s := mc.Of(c, "sender", senders)
			v := mc.Of(c, "beacon", vs)
			now := int64(1700000000 + 1000*i)
			vtime.Clock = time.Unix(now, 500000000)
			from := *s
			from.IP = append(vnet.IP(nil), s.IP...)
			heard(c, &shared, v, true)
			key := from.IP.String()
			m := model[key]
			want := false
			nv := peer{free: v.free, eid: v.eid, desc: v.desc, rx: v.rx, tx: v.tx, created: uint64(now), updated: uint64(now)}
			if m == nil {
				model[key] = &nv
				want = true
			} else if m.free != v.free || m.eid != v.eid || m.desc != v.desc || m.rx != v.rx || m.tx != v.tx {
				nv.created = m.created
				*m = nv
				want = true
			}
			var got bool
			c.Must("NewPeer", func() { got = beacon.NewPeer(&shared, &from) })
			c.Op(1)
			what := fmt.Sprintf("beacon %d: %+v from %s", i, v, s)
			c.Logf("%s -> new information %v", what, got)
			if got != want {
				c.Fail("news", "%s: reported as new information: %v, want %v", what, got, want)
			}
			// the registered beacon and address are re-used
			shared = beacon.Beacon{Header: 0xffffffff, Freespace: 3, Eid: "garbage"}
			for k := range from.IP {
				from.IP[k] = 9
			}
			check(c, what, model)
		}
	}
}

// many senders: the table grows
func many(c *mc.Ctx) {
	h.Fresh()
	beacon.Peers = nil
	n := c.Pick("senders", 43) + 1
	if n > 40 {
		n = []int{129, 260, 1030}[n-41]
	}
	stride := c.Pick("again", 7) + 1
	order := c.Pick("order", 3)
	model := map[string]*peer{}
	var b beacon.Beacon
	clock := int64(1700000000)
	hear := func(i, k int) {
		switch order {
		case 1:
			i = n - 1 - i
		case 2:
			i = i * 7 % n
		}
		v := variants[k%len(variants)]
		clock += 3
		now := clock
		vtime.Clock = time.Unix(now, 0)
		from := &vnet.UDPAddr{IP: vnet.IP{10, 0, byte(i / 200), byte(i % 200)}, Port: 1000 + i}
		if i%3 == 2 {
			from.IP = vnet.ParseIP(fmt.Sprintf("2001:db8::%x:%x", i/7, i))
		}
		heard(c, &b, v, true)
		m := model[from.IP.String()]
		nv := peer{free: v.free, eid: v.eid, desc: v.desc, rx: v.rx, tx: v.tx, created: uint64(now), updated: uint64(now)}
		want := true
		if m == nil {
			model[from.IP.String()] = &nv
		} else {
			nv.created = m.created
			nv.updated = m.updated
			if *m == nv {
				want = false
			} else {
				nv.updated = uint64(now)
				*m = nv
			}
		}
		c.Op(1)
		if got := beacon.NewPeer(&b, from); got != want {
			c.Fail("news", "%d senders: beacon of %s reported as new information: %v, want %v", n, from.IP, got, want)
		}
	}
	for i := 0; i < n; i++ {
		hear(i, i)
		if i%stride > 0 { // one heard before says something else
			hear(i-1, i+1)
			hear(i/2, i+stride)
		}
		if n < 20 {
			check(c, fmt.Sprint(i+1, " of ", n, " senders"), model)
		}
	}
	check(c, fmt.Sprint(n, " senders"), model)
	for i := 0; i < n; i++ {
		hear(i, i+i%stride)
	}
	check(c, fmt.Sprint(n, " senders"), model)
}

// kinds are variants in which only one sort of fields differs
func flagKinds() (vs []variant) {
	for _, d := range []string{"d16", "d32", "d64"} {
		for _, rx := range []string{"no", "invalid", "capable", "yes"} {
			for _, tx := range []string{"no", "invalid", "capable", "yes"} {
				vs = append(vs, variant{0, "192.0.2.1-4321", d, rx, tx})
			}
		}
	}
	return
}

func freeKinds() (vs []variant) {
	for _, f := range []uint64{0, 1, 2, 255, 256, 257, 65535, 65536, 65537, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 53, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2} {
		vs = append(vs, variant{f, "192.0.2.1-4321", "d64", "yes", "yes"})
	}
	return
}

func eidKinds() (vs []variant) {
	long := strings.Repeat("0123456789abcdef", 60)
	for _, e := range []string{"", "a", "A", "b", "aa", "a ", " a", "a\n", "192.0.2.1-4321", "192.0.2.1-432", "192.0.2.1-43211", "192.0.2.2-4321", "\u00e9", "e\u0301", "\xff", long, long + "x", "x" + long, long[1:]} {
		vs = append(vs, variant{70000, e, "d32", "yes", "yes"})
	}
	return
}

func main() {
	mc.Main(&mc.Check{ID: "C13", Setup: h.Setup,
		Assume: []string{"senders are told apart by their IP address", "peers do not expire", "the flags a peer table entry holds are descriptor and willingness"},
		Scenarios: []mc.Scenario{
			{Name: "histories", Bounds: "all sequences of 3 beacons over 5 sender addresses (3 senders) x 9 variants", Run: histories(3, variants), Quick: true},
			{Name: "histories-4", Bounds: "all sequences of 4 beacons over 5 sender addresses x 6 variants", Run: histories(4, variants[:6]), Thorough: true},
			{Name: "histories-4b", Bounds: "all sequences of 4 beacons over 5 sender addresses x 4 variants of capabilities", Run: histories(4, append([]variant{variants[0]}, variants[6:]...)), Thorough: true},
			{Name: "histories-5", Bounds: "all sequences of 5 beacons over 5 sender addresses x 3 variants", Run: histories(5, variants[:3]), Thorough: true},
			{Name: "flags", Bounds: "all sequences of 2 beacons over 5 sender addresses and all 48 combinations of size and willingness", Run: histories(2, flagKinds())},
			{Name: "space", Bounds: "all sequences of 2 beacons over 5 sender addresses and 20 amounts of free space", Run: histories(2, freeKinds())},
			{Name: "names", Bounds: "all sequences of 2 beacons over 5 sender addresses and 19 identities", Run: histories(2, eidKinds())},
			{Name: "many", Bounds: "1..40, 129, 260 and 1030 senders (a third of them IPv6) in 3 orders, changed in 7 patterns while others are added and again at the end", Run: many},
		}})
}
