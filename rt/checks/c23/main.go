// C23: network addresses are parsed and removed exactly.
package main

import (
	"fmt"
	"net"
	"net/netip"
	"reflect"
	"strings"

	"github.com/charlesetsmith/saratoga/sarnet"

	"verif/checks/h"
	"verif/mc"
)

const port = 7542

func parse(c *mc.Ctx, s string) {
	var got *net.UDPAddr
	var err error
	if cr := c.Try(func() { got, err = sarnet.UDPAddress(s) }); cr != nil {
		c.Fail("parse/crash", "parsing the address %q crashes: %s\n%s", s, cr.Msg, cr.Stack)
	}
	c.Op(1)
	t := s
	if strings.ContainsAny(s, "[]") {
		// nobody says whether brackets belong to an address: either is fine
		if err != nil {
			return
		}
		t = strings.TrimSuffix(strings.TrimPrefix(s, "["), "]")
	}
	want, bad := netip.ParseAddr(t)
	if bad != nil {
		if err == nil {
			c.Fail("parse/accepts", "%q is not an address and is parsed as %v", s, got)
		}
		return
	}
	if err != nil || got == nil {
		c.Fail("parse/rejects", "the address %q is rejected: %v", s, err)
	}
	a, ok := netip.AddrFromSlice(got.IP)
	if !ok || a.Unmap() != want.Unmap().WithZone("") || got.Zone != want.Zone() || got.Port != port {
		c.Fail("parse/value", "the address %q is parsed as %#v", s, got)
	}
	// shown, it is the same endpoint again
	var t2 string
	c.Must("UDPinfo", func() { t2 = sarnet.UDPinfo(got) })
	if back, err := netip.ParseAddrPort(t2); !(want.Is4In6() && want.Zone() != "") && (err != nil || back.Addr().Unmap().WithZone("") != want.Unmap().WithZone("") || back.Addr().Zone() != want.Zone() || back.Port() != port) {
		c.Fail("parse/shown", "the endpoint of %q is shown as %q", s, t2)
	}
}

var tokens = []string{"1", "0", "224", "256", ".", ":", "::", "fe80", "ffff", "g", "%", "eth0", "[", "]", " ", "x", "-", "01", "108", "FF02", "6c"}

func sequences(depth int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		n := c.Pick("length", depth+1)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(mc.Of(c, "token", tokens))
		}
		parse(c, b.String())
	}
}

// four octets, each any of a number of texts, with something in front and behind
func octets(c *mc.Ctx) {
	t := []string{"0", "1", "9", "10", "99", "100", "127", "192", "199", "200", "224", "249", "250", "255", "256", "260", "300", "999", "1000", "00", "01", "-1", "", "a", "0x1", " 1"}
	if !c.Thorough() {
		t = []string{"0", "1", "10", "108", "127", "192", "224", "239", "255", "256", "01", "", "a", "0x1"}
	}
	var o [4]string
	for i := range o {
		o[i] = mc.Of(c, "octet", t)
	}
	s := strings.Join(o[:], ".")
	parse(c, s)
	parse(c, s+".1")
	parse(c, s+":7542")
	parse(c, s+"%eth0")
	parse(c, "::ffff:"+s)
	parse(c, "["+s+"]")
}

// every single octet value in every place
func everyOctet(c *mc.Ctx) {
	at := c.Pick("place", 4)
	v := c.Pick("value", 300)
	o := []string{"10", "20", "30", "40"}
	o[at] = fmt.Sprint(v)
	parse(c, strings.Join(o, "."))
}

func groups(c *mc.Ctx) {
	n := c.Pick("groups", 9) + 1 // up to 9, with at most one gap
	gap := c.Pick("gap", n+2)    // n+1: none
	val := mc.Of(c, "group", []string{"0", "1", "fe80", "FFFF", "abcd", "00ab", "12345", "g", ""})
	at := c.Pick("at", n)
	tail := mc.Of(c, "tail", []string{"", "%eth0", "%en0", "%1", "%", "%a%b", "%Wi-Fi 2", ":7542", "/64", " ", ":1.2.3.4", ":1.2.3.256", "%lo]"})
	head := mc.Of(c, "head", []string{"", "[", ":", " "})
	g := make([]string, n)
	for i := range g {
		g[i] = fmt.Sprintf("%x", 0x1230+i)
	}
	g[at] = val
	var s string
	if gap > n {
		s = strings.Join(g, ":")
	} else {
		s = strings.Join(g[:gap], ":") + "::" + strings.Join(g[gap:], ":")
	}
	parse(c, head+s+tail)
}

// ---- removal

var addrs = []net.UDPAddr{
	{IP: net.IP{10, 0, 0, 1}, Port: port},
	{IP: net.IPv4(10, 0, 0, 1), Port: port}, // equal to the first
	{IP: net.IP{10, 0, 0, 2}, Port: port},
	{IP: net.IP{10, 0, 0, 1}, Port: 7543},
	{IP: net.ParseIP("fe80::1"), Port: port, Zone: "eth0"},
	{IP: net.ParseIP("fe80::1"), Port: port, Zone: "eth1"},
	{IP: net.ParseIP("fe80::1"), Port: port},
	{IP: net.ParseIP("fe80::2"), Port: port, Zone: "eth0"},
}

func same(a, b *net.UDPAddr) bool {
	return a.IP.Equal(b.IP) && a.Port == b.Port && a.Zone == b.Zone
}

func clone(a net.UDPAddr) net.UDPAddr {
	a.IP = append(net.IP(nil), a.IP...)
	return a
}

func remove(depth, kinds int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		n := c.Pick("length", depth+1)
		spare := c.Pick("spare", 2)
		list := make([]net.UDPAddr, n, n+3*spare)
		var orig, want []net.UDPAddr
		vi := c.Pick("value", kinds)
		val := clone(addrs[vi])
		for i := range list {
			a := addrs[c.Pick("address", kinds)]
			list[i] = clone(a)
			orig = append(orig, clone(a))
			if !same(&a, &val) {
				want = append(want, clone(a))
			}
		}
		all := list[:cap(list)]
		for i := n; i < cap(list); i++ {
			all[i] = clone(addrs[2])
		}
		p := &val
		within := false
		if n > 0 && c.Bool("the value is an element of the list") {
			// the address to remove may be the caller's own element
			k := c.Pick("element", n)
			p, within = &list[k], true
			val = clone(list[k])
			want = nil
			for i := range orig {
				if !same(&orig[i], &val) {
					want = append(want, clone(orig[i]))
				}
			}
			if vi != 0 {
				c.Skip()
			}
		}
		var got []net.UDPAddr
		if cr := c.Try(func() { got = sarnet.RemoveUDPAddrValue(list, p) }); cr != nil {
			c.Fail("remove/crash", "removing %v from %v crashes: %s\n%s", &val, orig, cr.Msg, cr.Stack)
		}
		c.Op(1)
		if len(got) != len(want) || (len(got) > 0 && !reflect.DeepEqual(got, want)) {
			c.Fail("remove/result", "removing %v from %v gives %v, not %v", &val, orig, got, want)
		}
		if n > 0 && !reflect.DeepEqual(list, orig) {
			c.Fail("remove/original", "removing %v from %v changed that list to %v", &val, orig, list)
		}
		for i := n; i < cap(list); i++ {
			if !reflect.DeepEqual(all[i], addrs[2]) {
				c.Fail("remove/behind", "removing %v from %v changed what lies behind the list", &val, orig)
			}
		}
		if !within && !reflect.DeepEqual(*p, val) {
			c.Fail("remove/value", "removing %v changed it to %v", &val, p)
		}
	}
}

// removeLong: long lists with the address at one or two places
func removeLong(c *mc.Ctx) {
	n := []int{5, 9, 31, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300}[c.Pick("length", 13)]
	i := c.Pick("place", n)
	var js []int
	for _, j := range []int{i, i + 1, i + 2, n - 1, 0} {
		if j < n {
			js = append(js, j)
		}
	}
	j := mc.Of(c, "other place", js)
	val := net.UDPAddr{IP: net.IP{10, 1, 2, 3}, Port: 7542}
	var list, orig, want []net.UDPAddr
	for k := 0; k < n; k++ {
		a := net.UDPAddr{IP: net.IP{10, 0, byte(k >> 8), byte(k)}, Port: 7542}
		if k == i || k == j {
			a = clone(val)
		} else {
			want = append(want, clone(a))
		}
		list, orig = append(list, clone(a)), append(orig, a)
	}
	var got []net.UDPAddr
	if cr := c.Try(func() { got = sarnet.RemoveUDPAddrValue(list, &val) }); cr != nil {
		c.Fail("remove/crash", "removing the entries %d and %d of %d crashes: %s\n%s", i, j, n, cr.Msg, cr.Stack)
	}
	c.Op(1)
	if len(got) != len(want) || (len(got) > 0 && !reflect.DeepEqual(got, want)) {
		c.Fail("remove/result", "removing the entries %d and %d of %d gives %v, not %v", i, j, n, got, want)
	}
	if !reflect.DeepEqual(list, orig) {
		c.Fail("remove/original", "removing the entries %d and %d of %d changed that list", i, j, n)
	}
}

func main() {
	mc.Main(&mc.Check{ID: "C23", Setup: h.Setup,
		Assume: []string{"no host name resolves to an address", "what an address text means is defined by the standard library's net/netip", "an address in brackets may be accepted or rejected"},
		Scenarios: []mc.Scenario{
			{Name: "tokens", Bounds: "all sequences of up to 4 of 21 tokens", Run: sequences(4), Quick: true},
			{Name: "tokens-deep", Bounds: "all sequences of up to 5 of 21 tokens", Run: sequences(5), Thorough: true},
			{Name: "octets", Bounds: "all quadruples of 14 (thorough 26) octet texts x 6 surroundings", Run: octets},
			{Name: "every-octet", Bounds: "octets 0..299 in each of the 4 places", Run: everyOctet},
			{Name: "groups", Bounds: "1..9 groups, gap at every place or none, every place holding each of 9 group texts, 13 endings, 4 beginnings", Run: groups},
			{Name: "remove", Bounds: "all lists of up to 4 of 8 addresses x 8 addresses to remove x 2 storage layouts", Run: remove(4, 8)},
			{Name: "remove-long", Bounds: "lists of 13 lengths up to 300, the address at every place and at one of 5 others", Run: removeLong},
			{Name: "remove-deep", Bounds: "all lists of up to 7 of 4 addresses x 4 addresses to remove x 2 storage layouts", Run: remove(7, 4), Thorough: true},
		}})
}
