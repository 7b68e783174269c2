// C09: hole bookkeeping is exact for every arrival order.
package main

import (
	"fmt"
	"math"

	"github.com/charlesetsmith/saratoga/holes"

	"verif/mc"
)

// The model is a bit set of received cells; cell i covers bytes coord[i] .. coord[i+1].
type space struct {
	name  string
	coord []int
}

func line(n, from, step int) []int {
	var c []int
	for i := 0; i <= n; i++ {
		c = append(c, from+i*step)
	}
	return c
}

// ranges lists the normal form of a cell set.
func (s space) ranges(bits uint32) (out []holes.Hole) {
	n := len(s.coord) - 1
	for i := 0; i < n; i++ {
		if bits>>i&1 == 0 {
			continue
		}
		j := i
		for j < n && bits>>j&1 == 1 {
			j++
		}
		out = append(out, holes.Hole{Start: s.coord[i], End: s.coord[j]})
		i = j
	}
	return
}

// missing lists the complement below the highest received byte.
func (s space) missing(bits uint32) (out []holes.Hole) {
	rs := s.ranges(bits)
	at := 0
	for _, r := range rs {
		if r.Start > at {
			out = append(out, holes.Hole{Start: at, End: r.Start})
		}
		at = r.End
	}
	return
}

func eq(a holes.Holes, b []holes.Hole) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func cp(a holes.Holes) holes.Holes { return append(holes.Holes(nil), a...) }

// judge compares a list with the model.
func judge(c *mc.Ctx, s space, what string, got holes.Holes, bits uint32) {
	want := s.ranges(bits)
	if !eq(got, want) {
		c.Fail("ranges", "%s: recorded ranges %v, want %v", what, got, want)
	}
	before := cp(got)
	miss := got.Getholes()
	n := got.Lenholes()
	c.Op(2)
	if !eq(got, before) {
		c.Fail("query-changes", "%s: asking for the missing ranges changed the record from %v to %v", what, before, got)
	}
	if wm := s.missing(bits); !eq(miss, wm) {
		c.Fail("missing", "%s: received %v, missing %v, want %v", what, got, miss, wm)
	} else if n != len(wm) {
		c.Fail("count", "%s: received %v, %d missing ranges reported, want %d", what, got, n, len(wm))
	}
}

// step adds cells [i,j) to list l in state bits, and checks everything.
func step(c *mc.Ctx, s space, l holes.Holes, bits uint32, i, j int) (holes.Holes, uint32) {
	miss := l.Getholes()
	keep := cp(miss)
	a, b := s.coord[i], s.coord[j]
	before := cp(l)
	var out holes.Holes
	c.Must("Add", func() { out = l.Add(a, b) })
	c.Op(2)
	for k := i; k < j; k++ {
		bits |= 1 << k
	}
	if c.Logging() {
		c.Logf("%v + [%d,%d) -> %v", before, a, b, out)
	}
	judge(c, s, fmt.Sprintf("%v then add [%d,%d)", before, a, b), out, bits)
	if !eq(miss, keep) {
		c.Fail("alias", "missing ranges %v reported earlier changed to %v when [%d,%d) was added to %v", keep, miss, a, b, before)
	}
	return out, bits
}

// transitions: every reachable record, in every storage layout, and every range.
func transitions(s space) func(*mc.Ctx) {
	n := len(s.coord) - 1
	return func(c *mc.Ctx) {
		bits := uint32(c.Pick("received", 1<<n))
		i := c.Pick("from", n+1)
		j := c.Pick("to", n+1)
		spare := c.Pick("spare", 2)
		rs := s.ranges(bits)
		var l holes.Holes
		if spare == 0 {
			l = append(holes.Holes(nil), rs...)
			l = l[:len(l):len(l)]
		} else {
			l = make(holes.Holes, len(rs), len(rs)+3)
			copy(l, rs)
			for k := len(rs); k < cap(l); k++ {
				l[:cap(l)][k] = holes.Hole{Start: 7, End: 9}
			}
		}
		judge(c, s, "record", l, bits)
		step(c, s, l, bits, i, j)
	}
}

// histories: all sequences of additions from nothing.
func histories(s space, depth int) func(*mc.Ctx) {
	n := len(s.coord) - 1
	return func(c *mc.Ctx) {
		var l holes.Holes
		var bits uint32
		for k := 0; k < depth; k++ {
			i := c.Pick("from", n+1)
			j := c.Pick("to", n+1)
			l, bits = step(c, s, l, bits, i, j)
		}
	}
}

// many ranges: the record of a long transfer, in several orders, without gaps at the end
func many(n int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		width := mc.Of(c, "width", []int{1, 1400, 1 << 20})
		first := mc.Of(c, "first", []int{0, 1})
		order := func(k, i int) int { // i'th of n in order k
			switch k {
			case 1:
				return n - 1 - i
			case 2:
				return (i*37 + 5) % n
			case 3: // from the middle
				if i%2 == 0 {
					return n/2 + i/2
				}
				return n/2 - 1 - i/2
			}
			return i
		}
		one, two := c.Pick("order", 4), c.Pick("fill", 4)
		got := make([]bool, 2*n+1) // got[k]: cell k is received; cell k covers first+k*width on
		var l holes.Holes
		look := func(what string) {
			var rs, ms []holes.Hole
			at := 0
			for i := 0; i < len(got); i++ {
				if !got[i] {
					continue
				}
				j := i
				for j < len(got) && got[j] {
					j++
				}
				r := holes.Hole{Start: first + i*width, End: first + j*width}
				if r.Start > at {
					ms = append(ms, holes.Hole{Start: at, End: r.Start})
				}
				rs, at, i = append(rs, r), r.End, j
			}
			if !eq(l, rs) {
				c.Fail("ranges", "%s: %d ranges recorded, %d received (or different ones)", what, len(l), len(rs))
			}
			miss := l.Getholes()
			if !eq(miss, ms) || l.Lenholes() != len(ms) {
				c.Fail("missing", "%s: %d missing ranges reported (%d counted), %d are missing (or different ones)", what, len(miss), l.Lenholes(), len(ms))
			}
			c.Op(2)
		}
		add := func(i, j int) {
			c.Must("Add", func() { l = l.Add(first+i*width, first+j*width) })
			c.Op(1)
			for k := i; k < j; k++ {
				got[k] = true
			}
		}
		for i := 0; i < n; i++ { // every second cell
			k := 2 * order(one, i)
			add(k, k+1)
			if i%16 == 0 || i > n-3 {
				look(fmt.Sprintf("%d separate ranges of %d bytes in order %d", i+1, width, one))
			}
		}
		for i := 0; i < n-1; i++ { // the gaps between them
			k := 2*order(two, i) + 1
			if k > 2*n-2 {
				k = 1
			}
			switch i % 5 {
			case 4: // with its neighbours
				add(k-1, k+2)
			default:
				add(k, k+1)
			}
			if i%16 == 0 || i > n-4 {
				look(fmt.Sprintf("%d gaps of %d bytes filled in order %d after order %d", i+1, width, two, one))
			}
		}
		add(0, 2*n+1)
		look("all received")
	}
}

func main() {
	small := space{"small", line(10, 0, 1)}
	off := space{"offset", line(6, 5, 3)}
	big := space{"big", []int{0, 1, 1400, 65535, 65536, math.MaxInt32, 1 << 32, 1 << 62, math.MaxInt}}
	mc.Main(&mc.Check{ID: "C09",
		Assume: []string{"ranges have non-negative bounds (offsets in a file)", "the list returned by an addition replaces the list it was applied to"},
		Scenarios: []mc.Scenario{
			{Name: "all-records", Bounds: "all 2^10 received sets of 10 one-byte cells x all (start,end) pairs incl. empty and reversed x 2 storage layouts", Run: transitions(small)},
			{Name: "all-records-offset", Bounds: "6 cells of 3 bytes starting at byte 5", Run: transitions(off)},
			{Name: "all-records-wide", Bounds: "8 cells with bounds up to the largest int", Run: transitions(big)},
			{Name: "many", Bounds: "300 separate ranges in 4 orders, then the gaps between them in 4 orders, 3 widths, first byte 0 or 1", Run: many(300)},
			{Name: "many-deep", Bounds: "as many, with 5000 ranges", Run: many(5000), Thorough: true},
			{Name: "histories", Bounds: "all sequences of 3 additions over 4 cells", Run: histories(space{"h", line(4, 0, 1)}, 3), Quick: true},
			{Name: "histories-deep", Bounds: "all sequences of 4 additions over 5 cells", Run: histories(space{"h", line(5, 0, 1)}, 4), Thorough: true},
			{Name: "all-records-14", Bounds: "all 2^14 received sets of 14 cells x all pairs x 2 layouts", Run: transitions(space{"s14", line(14, 0, 1)}), Thorough: true},
		}})
}
