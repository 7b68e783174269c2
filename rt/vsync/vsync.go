// Package vsync stands in for sync: its locks are scheduling points of the explorer.
package vsync

import (
	"runtime"
	"sync"
	"time"

	"verif/vs"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
	Pool   = sync.Pool
)

// DeadlockLimit bounds how long an uncontrolled lock may be waited for.
var DeadlockLimit = 20 * time.Second

// Deadlock is the value panicked with when a lock can never be had.
type Deadlock struct{ What string }

func (d Deadlock) Error() string { return "deadlock: " + d.What }

func wait(what string, try func() bool) {
	var start time.Time
	for i := 0; ; i++ {
		if try() {
			return
		}
		runtime.Gosched()
		if i > 1000 {
			time.Sleep(100 * time.Microsecond)
		}
		if i == 100 {
			start = time.Now()
		}
		if i > 100 && time.Since(start) > DeadlockLimit {
			panic(Deadlock{what})
		}
	}
}

type Mutex struct {
	real sync.Mutex
	held bool // under the scheduler
	vc   vs.Order
}

func (m *Mutex) Lock() {
	if !vs.Active() {
		if m.real.TryLock() {
			return
		}
		wait("lock is held for ever", m.real.TryLock)
		return
	}
	if vs.Aborting() {
		return
	}
	vs.Block(vs.KLock, "mutex", func() bool { return !m.held })
	m.held = true
	vs.Acquire(&m.vc)
}

func (m *Mutex) TryLock() bool {
	if !vs.Active() {
		return m.real.TryLock()
	}
	vs.Point("trylock")
	if m.held {
		return false
	}
	m.held = true
	vs.Acquire(&m.vc)
	return true
}

func (m *Mutex) Unlock() {
	if !vs.Active() {
		if m.real.TryLock() {
			m.real.Unlock()
			panic("sync: unlock of unlocked mutex")
		}
		m.real.Unlock()
		return
	}
	if vs.Aborting() {
		return
	}
	if !m.held {
		vs.Fatal("sync: unlock of unlocked mutex")
	}
	if tryLocks {
		vs.Point("unlock")
	}
	m.held = false
	vs.Release(&m.vc)
}

// QuietLock takes the lock without a scheduling point if it is free.
func (m *Mutex) QuietLock() {
	if !vs.Active() {
		m.Lock()
		return
	}
	if vs.Aborting() {
		return
	}
	if m.held {
		vs.Block(vs.KLock, "mutex", func() bool { return !m.held })
	}
	m.held = true
	vs.Hush(1)
}

// QuietUnlock undoes QuietLock.
func (m *Mutex) QuietUnlock() {
	if !vs.Active() {
		m.Unlock()
		return
	}
	if vs.Aborting() {
		return
	}
	if !m.held {
		vs.Fatal("sync: unlock of unlocked mutex")
	}
	m.held = false
	vs.Hush(-1)
}

type RWMutex struct {
	real    sync.RWMutex
	writer  bool
	readers int
	waiting int
	wvc     vs.Order // released by writers
	rvc     vs.Order // released by readers
}

func (m *RWMutex) Lock() {
	if !vs.Active() {
		if m.real.TryLock() {
			return
		}
		wait("lock is held for ever", m.real.TryLock)
		return
	}
	if vs.Aborting() {
		return
	}
	m.waiting++
	vs.Block(vs.KLock, "rwmutex", func() bool { return !m.writer && m.readers == 0 })
	m.waiting--
	m.writer = true
	vs.Acquire(&m.wvc)
	vs.Acquire(&m.rvc)
}

func (m *RWMutex) TryLock() bool {
	if !vs.Active() {
		return m.real.TryLock()
	}
	vs.Point("trylock")
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	vs.Acquire(&m.wvc)
	vs.Acquire(&m.rvc)
	return true
}

func (m *RWMutex) Unlock() {
	if !vs.Active() {
		m.real.Unlock()
		return
	}
	if vs.Aborting() {
		return
	}
	if !m.writer {
		vs.Fatal("sync: Unlock of unlocked RWMutex")
	}
	if tryLocks {
		vs.Point("unlock")
	}
	m.writer = false
	vs.Release(&m.wvc)
}

func (m *RWMutex) RLock() {
	if !vs.Active() {
		if m.real.TryRLock() {
			return
		}
		wait("lock is held for ever", m.real.TryRLock)
		return
	}
	if vs.Aborting() {
		return
	}
	vs.Block(vs.KLock, "rwmutex read", func() bool { return !m.writer && m.waiting == 0 })
	m.readers++
	vs.Acquire(&m.wvc)
}

func (m *RWMutex) TryRLock() bool {
	if !vs.Active() {
		return m.real.TryRLock()
	}
	vs.Point("tryrlock")
	if m.writer {
		return false
	}
	m.readers++
	vs.Acquire(&m.wvc)
	return true
}

func (m *RWMutex) RUnlock() {
	if !vs.Active() {
		m.real.RUnlock()
		return
	}
	if vs.Aborting() {
		return
	}
	if m.readers == 0 {
		vs.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	if tryLocks {
		vs.Point("unlock")
	}
	m.readers--
	vs.Release(&m.rvc)
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct {
	real sync.WaitGroup
	n    int
	vc   vs.Order
}

func (w *WaitGroup) Add(d int) {
	if !vs.Active() {
		w.real.Add(d)
		return
	}
	if vs.Aborting() {
		return
	}
	w.n += d
	if d < 0 {
		vs.Release(&w.vc)
	}
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if !vs.Active() {
		w.real.Wait()
		return
	}
	if vs.Aborting() {
		return
	}
	vs.Block(vs.KWait, "waitgroup", func() bool { return w.n == 0 })
	vs.Acquire(&w.vc)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go("waitgroup.Go", func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Cond struct {
	L    Locker
	gen  int
	wait []int
	vc   vs.Order
	real *sync.Cond
	once sync.Once
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if !vs.Active() {
		c.real.Wait()
		return
	}
	if vs.Aborting() {
		return
	}
	c.gen++
	me := c.gen
	c.wait = append(c.wait, me)
	c.L.Unlock()
	vs.Block(vs.KWait, "cond", func() bool {
		for _, w := range c.wait {
			if w == me {
				return false
			}
		}
		return true
	})
	vs.Acquire(&c.vc)
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !vs.Active() {
		c.real.Signal()
		return
	}
	vs.Release(&c.vc)
	if len(c.wait) > 0 {
		c.wait = c.wait[1:]
	}
}

func (c *Cond) Broadcast() {
	if !vs.Active() {
		c.real.Broadcast()
		return
	}
	vs.Release(&c.vc)
	c.wait = nil
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}
