package vs

// VC is a vector clock: what of every task happened before.
type VC []int32

func (a VC) join(b VC) VC {
	if len(b) > len(a) {
		a = append(a, make(VC, len(b)-len(a))...)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (a VC) copy() VC { return append(VC(nil), a...) }

func (a VC) at(i int) int32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

// tick starts a new interval of the task.
func (t *Task) tick() {
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.ID]++
}

// Order is what a lock or the like carries from those who release it to those who acquire it.
type Order struct {
	run int64
	vc  VC
}

// Acquire makes what was released into o happen before what the running task does next.
func Acquire(o *Order) {
	if s := active.Load(); s != nil && !s.aborting && o.run == s.id {
		s.cur.vc = s.cur.vc.join(o.vc)
	}
}

// Release adds what the running task did so far to o.
func Release(o *Order) {
	if s := active.Load(); s != nil && !s.aborting {
		if o.run != s.id {
			o.run, o.vc = s.id, nil
		}
		o.vc = o.vc.copy().join(s.cur.vc)
		s.cur.tick()
	}
}

// meet orders a hand-over without a buffer: each side happens before the other goes on.
func meet(a, b *Task) {
	j := a.vc.copy().join(b.vc)
	a.vc, b.vc = j, j.copy()
	a.tick()
	b.tick()
}

type item struct {
	v  any
	vc VC
}

// push puts a value of t (nil: the scheduler itself) into the buffer.
func (c *vchan) push(t *Task, v any, vc VC) {
	if t != nil {
		if n := c.sent - c.cap; n >= 0 && n < len(c.rvcs) {
			t.vc = t.vc.join(c.rvcs[n])
		}
		vc = t.vc.copy()
		t.tick()
	}
	c.sent++
	c.buf = append(c.buf, item{v, vc})
}

// pop takes a value out of the buffer.
func (c *vchan) pop(t *Task) any {
	it := c.buf[0]
	c.buf = c.buf[1:]
	t.vc = t.vc.join(it.vc)
	c.rvcs = append(c.rvcs, t.vc.copy())
	t.tick()
	return it.v
}

// Access records who touched a variable last.
type Access struct {
	r, w VC
	race string // the first conflicting accesses that nothing orders
}

func (a *Access) note(t *Task, write bool) (other int, raced bool) {
	other = -1
	for u, x := range a.w {
		if u != t.ID && x > t.vc.at(u) {
			other = u
		}
	}
	if write {
		for u, x := range a.r {
			if u != t.ID && x > t.vc.at(u) {
				other = u
			}
		}
	}
	set := func(v *VC) {
		for len(*v) <= t.ID {
			*v = append(*v, 0)
		}
		(*v)[t.ID] = t.vc.at(t.ID)
	}
	if write {
		set(&a.w)
	} else {
		set(&a.r)
	}
	return other, other >= 0
}
