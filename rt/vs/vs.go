// Package vs is a cooperative scheduler: while a run is active every instrumented
// goroutine, channel operation, lock, sleep and access to a contended package variable of
// the program under check is a step that the explorer orders. Without an active run the
// operations behave natively.
package vs

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// Chooser resolves one n-way choice (n >= 2); a negative answer ends the run.
type Chooser interface {
	Pick(label string, n int) int
}

type Kind int

const (
	KReady Kind = iota // may continue unconditionally
	KLock
	KSend
	KRecv
	KSelect
	KWait // wait group, once, cond
	KSleep
	KNet  // blocked reading from the network
	KIdle // idle service (user interface)
)

func (k Kind) String() string {
	return [...]string{"ready", "lock", "send", "recv", "select", "wait", "sleep", "net", "idle"}[k]
}

type selCase struct {
	send bool
	vc   *vchan
	val  any
	set  func(v any, ok bool)
}

type Task struct {
	ID      int
	Name    string
	Low     bool // only runs when nothing else can
	hushed  int  // locks held that order nothing
	wake    chan struct{}
	done    bool
	kind    Kind
	enabled func() bool
	desc    string
	wakeAt  time.Time
	posted  int64
	// channel operation
	ch        *vchan
	val       any
	ok        bool
	cases     []*selCase
	chosen    int
	completed bool
	vc        VC
}

type vchan struct {
	keep   any
	cap    int
	buf    []item
	closed bool
	id     int
	sent   int  // values ever put into the buffer
	rvcs   []VC // clocks of the receives from the buffer
	cvc    VC   // clock of the close
}

type timer struct {
	at   time.Time
	seq  int64
	fire func()
	vc   VC
}

type Config struct {
	Preempt  int // preemption bound
	MaxSteps int
	// FreeSwitch limits branching at blocking points: false = only the lowest numbered
	// enabled task runs next, true = all of them are explored.
	FreeSwitch bool
	Youngest   bool // without FreeSwitch the highest numbered enabled task runs next
	OneCase    bool // a select takes its first ready case (the last with Youngest)
	Contended  map[string]bool
	OnRecv     func(task *Task, ch, v any) // monitor: a value was handed over
	OnSend     func(task *Task, v any)     // monitor: a value was offered
	Start      time.Time
}

var runs int64

type Sched struct {
	id          int64
	cfg         Config
	ch          Chooser
	tasks       []*Task
	cur         *Task
	chans       map[unsafe.Pointer]*vchan
	seq         int64
	steps       int
	preemptions int
	timers      []*timer
	now         time.Time
	aborting    bool
	over        bool
	doneCh      chan struct{}
	exitCh      chan struct{}
	res         Result
	access      map[string]*Access
	maps        map[uintptr]*mapAccess
	firing      *VC // clock of the timer being fired
	trace       []string
}

// Blocked describes a task that cannot continue at the end of a run.
type Blocked struct {
	ID   int
	Name string
	Kind Kind
	Desc string
}

type Result struct {
	Steps       int
	Switches    int
	Preemptions int
	Crash       string // a task panicked, or the program ended itself
	Stack       string
	Died        bool // the program ended itself (exit or fatal log)
	Livelock    bool
	Blocked     []Blocked
	Tasks       int
	Trace       []string
	Contended   []string // variables with conflicting accesses that nothing orders
	Races       []string // the same, with the tasks
	End         time.Time
}

// Deadlocked lists the tasks stuck on something other than input or idling.
func (r *Result) Deadlocked() []Blocked {
	var out []Blocked
	for _, b := range r.Blocked {
		switch b.Kind {
		case KLock, KSend, KWait:
			out = append(out, b)
		}
	}
	return out
}

var active atomic.Pointer[Sched]

// Active reports whether a controlled run is in progress.
func Active() bool { return active.Load() != nil }

// Now is the virtual time of the active run.
func Now() (time.Time, bool) {
	if s := active.Load(); s != nil {
		return s.now, true
	}
	return time.Time{}, false
}

// Run executes f as task 0 under the scheduler until no task can continue.
func Run(cfg Config, ch Chooser, f func()) *Result {
	if active.Load() != nil {
		panic("vs: nested run")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20000
	}
	if cfg.Start.IsZero() {
		cfg.Start = time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)
	}
	s := &Sched{cfg: cfg, ch: ch, chans: map[unsafe.Pointer]*vchan{}, doneCh: make(chan struct{}),
		exitCh: make(chan struct{}), now: cfg.Start, access: map[string]*Access{}}
	runs++
	s.id = runs
	active.Store(s)
	t := s.spawn("main", f)
	s.cur = t
	t.wake <- struct{}{}
	<-s.doneCh
	s.res.Steps = s.steps
	s.res.Preemptions = s.preemptions
	s.res.Tasks = len(s.tasks)
	s.res.End = s.now
	for _, t := range s.tasks {
		if !t.done {
			s.res.Blocked = append(s.res.Blocked, Blocked{t.ID, t.Name, t.kind, t.desc})
		}
	}
	// unwind what is left, one task at a time
	s.aborting = true
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if !t.done {
			s.cur = t
			t.wake <- struct{}{}
			<-s.exitCh
		}
	}
	active.Store(nil)
	for n, a := range s.access {
		if a.race != "" {
			s.res.Contended = append(s.res.Contended, n)
			s.res.Races = append(s.res.Races, n+": "+a.race)
		}
	}
	sort.Strings(s.res.Contended)
	sort.Strings(s.res.Races)
	s.res.Trace = s.trace
	return &s.res
}

func (s *Sched) spawn(name string, f func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, wake: make(chan struct{}), kind: KReady, desc: "start"}
	s.tasks = append(s.tasks, t)
	switch {
	case s.firing != nil:
		t.vc = s.firing.copy()
	case s.cur != nil:
		t.vc = s.cur.vc.copy()
		s.cur.tick()
	}
	t.tick()
	go func() {
		<-t.wake
		defer func() {
			r := recover()
			if r != nil && !s.aborting && !s.over {
				if s.res.Crash == "" {
					s.res.Crash = fmt.Sprint("panic: ", r)
					s.res.Stack = trimStack(string(debug.Stack()))
				}
				t.done = true
				s.finish()
				return
			}
			t.done = true
			if s.aborting {
				s.exitCh <- struct{}{}
				return
			}
			if s.over { // ended the run itself
				return
			}
			s.next(t)
		}()
		if s.aborting {
			return
		}
		f()
	}()
	return t
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// finish ends the run; the caller must not continue as a task.
func (s *Sched) finish() {
	if !s.over {
		s.over = true
		close(s.doneCh)
	}
}

// next is called by a task that has ended.
func (s *Sched) next(t *Task) {
	n := s.pick(t)
	if n == nil {
		s.finish()
		return
	}
	s.cur = n
	s.res.Switches++
	n.wake <- struct{}{}
}

// yield: the current task has posted its next operation; run whatever is chosen.
func (s *Sched) yield(t *Task) {
	if s.aborting {
		return
	}
	s.steps++
	if s.steps > s.cfg.MaxSteps {
		s.res.Livelock = true
		s.finish()
		s.park(t)
	}
	n := s.pick(t)
	if n == nil {
		s.finish()
		s.park(t)
		return
	}
	if n != t {
		s.cur = n
		s.res.Switches++
		n.wake <- struct{}{}
		<-t.wake
		if s.aborting {
			runtime.Goexit()
		}
	}
	t.kind = KReady
}

func (s *Sched) park(t *Task) {
	<-t.wake
	runtime.Goexit()
}

func (s *Sched) runnable(t *Task) bool {
	if t.done {
		return false
	}
	switch t.kind {
	case KReady:
		return true
	case KSend:
		return t.completed || t.ch.closed || (t.ch.cap > 0 && len(t.ch.buf) < t.ch.cap)
	case KRecv:
		return t.completed || s.canRecv(t.ch, t)
	case KSelect:
		return t.completed || len(s.readyCases(t)) > 0
	case KSleep:
		return !t.wakeAt.After(s.now)
	default:
		return t.enabled()
	}
}

func (s *Sched) pick(cur *Task) *Task {
	for {
		var en []*Task
		curOK := false
		if s.runnable(cur) && !cur.Low {
			en = append(en, cur)
			curOK = true
		}
		for _, t := range s.tasks {
			if t != cur && !t.Low && s.runnable(t) {
				en = append(en, t)
			}
		}
		if len(en) == 0 {
			for _, t := range s.tasks {
				if t.Low && s.runnable(t) {
					return t
				}
			}
			if s.advance() {
				continue
			}
			return nil
		}
		if len(en) == 1 {
			return en[0]
		}
		if curOK {
			if s.preemptions >= s.cfg.Preempt {
				return en[0]
			}
			i := s.ch.Pick("preempt", len(en))
			if i < 0 {
				return nil
			}
			if i != 0 {
				s.preemptions++
			}
			return en[i]
		}
		if !s.cfg.FreeSwitch {
			if s.cfg.Youngest {
				return en[len(en)-1]
			}
			return en[0]
		}
		i := s.ch.Pick("next", len(en))
		if i < 0 {
			return nil
		}
		return en[i]
	}
}

// advance moves the virtual clock to the next sleeper or timer.
func (s *Sched) advance() bool {
	var at time.Time
	found := false
	for _, t := range s.tasks {
		if !t.done && t.kind == KSleep && (!found || t.wakeAt.Before(at)) {
			at, found = t.wakeAt, true
		}
	}
	for _, tm := range s.timers {
		if !found || tm.at.Before(at) {
			at, found = tm.at, true
		}
	}
	if !found {
		return false
	}
	if at.After(s.now) {
		s.now = at
	}
	var rest, due []*timer
	for _, tm := range s.timers {
		if !tm.at.After(s.now) {
			due = append(due, tm)
		} else {
			rest = append(rest, tm)
		}
	}
	s.timers = rest
	for _, tm := range due {
		s.firing = &tm.vc
		tm.fire()
		s.firing = nil
	}
	return true
}

// Go starts a task.
func Go(name string, f func()) {
	s := active.Load()
	if s == nil {
		go f()
		return
	}
	if s.aborting {
		return
	}
	s.spawn(name, f)
}

// GoLow starts a task that runs only when no other can.
func GoLow(name string, f func()) {
	s := active.Load()
	if s == nil {
		go f()
		return
	}
	t := s.spawn(name, f)
	t.Low = true
}

// Point is an unconditional scheduling point.
func Point(desc string) {
	s := active.Load()
	if s == nil || s.aborting {
		return
	}
	t := s.cur
	t.kind, t.desc = KReady, desc
	s.yield(t)
}

// Block waits until enabled() holds.
func Block(k Kind, desc string, enabled func() bool) {
	s := active.Load()
	if s == nil || s.aborting {
		return
	}
	t := s.cur
	t.kind, t.desc, t.enabled = k, desc, enabled
	s.yield(t)
}

// CurTask identifies the running task (-1 outside a run).
func CurTask() int {
	if s := active.Load(); s != nil && s.cur != nil {
		return s.cur.ID
	}
	return -1
}

// Aborting reports that the run is being unwound: operations have no effect.
func Aborting() bool {
	s := active.Load()
	return s != nil && s.aborting
}

// Acc marks an access to a package variable.
func Acc(name string, write bool) {
	s := active.Load()
	if s == nil || s.aborting {
		return
	}
	a := s.access[name]
	if a == nil {
		a = &Access{}
		s.access[name] = a
	}
	if u, ok := a.note(s.cur, write); ok && a.race == "" {
		a.race = fmt.Sprintf("%s and %s", s.tasks[u].Name, s.cur.Name)
	}
	if s.cfg.Contended[name] {
		Point("access " + name)
	}
}

type mapAccess struct {
	Access
	m any // keeps the map, so that its address is not used again
}

// MapR and MapW mark an access to a map and return it. Go ends the program when a map is used by two
// goroutines at once and one of them changes it: so does this where nothing orders the two.
func MapR[M ~map[K]V, K comparable, V any](m M) M { touch(m, false); return m }
func MapW[M ~map[K]V, K comparable, V any](m M) M { touch(m, true); return m }

func touch(m any, write bool) {
	s := active.Load()
	if s == nil || s.aborting || s.cur == nil || s.cur.hushed > 0 {
		return
	}
	p := reflect.ValueOf(m).Pointer()
	if p == 0 {
		return
	}
	a := s.maps[p]
	if a == nil {
		if s.maps == nil {
			s.maps = map[uintptr]*mapAccess{}
		}
		a = &mapAccess{m: m}
		s.maps[p] = a
	}
	if u, ok := a.note(s.cur, write); ok {
		what := "concurrent map read and map write"
		if write && len(a.w) > u && a.w.at(u) > 0 {
			what = "concurrent map writes"
		}
		Fatal(fmt.Sprintf("%s (%s and %s)", what, s.tasks[u].Name, s.cur.Name))
	}
}

// Hush says that the running task holds (1) or gives up (-1) a lock that orders nothing here.
func Hush(n int) {
	if s := active.Load(); s != nil && s.cur != nil {
		s.cur.hushed += n
	}
}

// Die ends the run because the program ended itself. It does not return.
func Die(msg string) {
	s := active.Load()
	if s == nil {
		panic("vs.Die outside a run")
	}
	if s.aborting {
		runtime.Goexit()
	}
	if s.res.Crash == "" {
		s.res.Crash = msg
		s.res.Died = true
		s.res.Stack = trimStack(string(debug.Stack()))
	}
	t := s.cur
	s.finish()
	s.park(t)
}

// Fatal reports an unrecoverable runtime error (such as unlocking an unlocked mutex).
func Fatal(msg string) { Die("fatal error: " + msg) }

// Note adds a line to the trace of the run.
func Note(format string, a ...any) {
	s := active.Load()
	if s == nil || s.aborting {
		return
	}
	if len(s.trace) < 400 {
		s.trace = append(s.trace, fmt.Sprintf("[t%d %s] ", s.cur.ID, s.cur.Name)+fmt.Sprintf(format, a...))
	}
}

// ---- time

func Sleep(d time.Duration) bool {
	s := active.Load()
	if s == nil {
		return false
	}
	if s.aborting {
		return true
	}
	t := s.cur
	if d < 0 {
		d = 0
	}
	t.kind, t.desc, t.wakeAt = KSleep, "sleep "+d.String(), s.now.Add(d)
	s.yield(t)
	return true
}

// Timer registers fire to be called by the scheduler at now+d.
func Timer(d time.Duration, fire func()) (stop func() bool) {
	s := active.Load()
	if s == nil || s.aborting {
		return func() bool { return false }
	}
	if d < 0 {
		d = 0
	}
	s.seq++
	tm := &timer{at: s.now.Add(d), seq: s.seq, fire: fire, vc: s.cur.vc.copy()}
	s.cur.tick()
	s.timers = append(s.timers, tm)
	sort.SliceStable(s.timers, func(i, j int) bool {
		if s.timers[i].at.Equal(s.timers[j].at) {
			return s.timers[i].seq < s.timers[j].seq
		}
		return s.timers[i].at.Before(s.timers[j].at)
	})
	return func() bool {
		for i, x := range s.timers {
			if x == tm {
				s.timers = append(s.timers[:i:i], s.timers[i+1:]...)
				return true
			}
		}
		return false
	}
}

// Deliver puts a value on a buffered channel without blocking (timers).
func Deliver[T any](ch chan T, v T) {
	s := active.Load()
	if s == nil {
		select {
		case ch <- v:
		default:
		}
		return
	}
	vc := getChan(s, (<-chan T)(ch))
	if len(vc.buf) < vc.cap {
		var at VC
		if s.firing != nil {
			at = s.firing.copy()
		}
		vc.push(nil, v, at)
	}
}

// ---- channels

func key[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func getChan[T any](s *Sched, ch <-chan T) *vchan {
	k := key(ch)
	if k == nil {
		return nil
	}
	vc := s.chans[k]
	if vc == nil {
		vc = &vchan{keep: ch, cap: cap(ch), id: len(s.chans)}
		// values sent before the run
		for len(ch) > 0 {
			vc.push(nil, <-ch, nil)
		}
		s.chans[k] = vc
	}
	return vc
}

func getSend[T any](s *Sched, ch chan<- T) *vchan {
	return getChan(s, *(*<-chan T)(unsafe.Pointer(&ch)))
}

func forever(s *Sched, t *Task, k Kind, desc string) {
	t.kind, t.desc, t.enabled = KIdle, desc, func() bool { return false }
	t.completed = false
	s.yield(t)
}

// pendingSender is the longest waiting task offering a value on vc (not self).
func (s *Sched) pendingSender(vc *vchan, self *Task) (*Task, int) {
	var best *Task
	bi := -1
	for _, t := range s.tasks {
		if t == self || t.done || t.completed {
			continue
		}
		if t.kind == KSend && t.ch == vc {
			if best == nil || t.posted < best.posted {
				best, bi = t, -1
			}
		} else if t.kind == KSelect {
			for i, c := range t.cases {
				if c.send && c.vc == vc && vc != nil {
					if best == nil || t.posted < best.posted {
						best, bi = t, i
					}
					break
				}
			}
		}
	}
	return best, bi
}

func (s *Sched) pendingReceiver(vc *vchan, self *Task) (*Task, int) {
	var best *Task
	bi := -1
	for _, t := range s.tasks {
		if t == self || t.done || t.completed {
			continue
		}
		if t.kind == KRecv && t.ch == vc {
			if best == nil || t.posted < best.posted {
				best, bi = t, -1
			}
		} else if t.kind == KSelect {
			for i, c := range t.cases {
				if !c.send && c.vc == vc && vc != nil {
					if best == nil || t.posted < best.posted {
						best, bi = t, i
					}
					break
				}
			}
		}
	}
	return best, bi
}

func (s *Sched) canRecv(vc *vchan, self *Task) bool {
	if vc == nil {
		return false
	}
	if len(vc.buf) > 0 || vc.closed {
		return true
	}
	p, _ := s.pendingSender(vc, self)
	return p != nil
}

// take performs a receive that is known to be possible.
func (s *Sched) take(vc *vchan, self *Task) (any, bool) {
	if len(vc.buf) > 0 {
		v := vc.pop(self)
		if vc.cap > 0 {
			if p, i := s.pendingSender(vc, self); p != nil {
				vc.push(p, s.complete(p, i), nil)
			}
		}
		if s.cfg.OnRecv != nil {
			s.cfg.OnRecv(self, vc, v)
		}
		return v, true
	}
	if p, i := s.pendingSender(vc, self); p != nil {
		v := s.complete(p, i)
		meet(p, self)
		if s.cfg.OnRecv != nil {
			s.cfg.OnRecv(self, vc, v)
		}
		return v, true
	}
	self.vc = self.vc.join(vc.cvc)
	return nil, false // closed
}

// complete finishes the pending send of p (case i of a select, -1 for a plain send).
func (s *Sched) complete(p *Task, i int) any {
	p.completed = true
	if i < 0 {
		return p.val
	}
	p.chosen = i
	return p.cases[i].val
}

// SendTo(ch)(v) sends v.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		s := active.Load()
		if s == nil {
			ch <- v
			return
		}
		if s.aborting {
			return
		}
		t := s.cur
		vc := getSend(s, ch)
		if vc == nil {
			forever(s, t, KSend, "send on nil channel")
			return
		}
		if s.cfg.OnSend != nil {
			s.cfg.OnSend(t, v)
		}
		s.seq++
		t.kind, t.desc, t.ch, t.val, t.completed, t.posted = KSend, fmt.Sprintf("send on channel %d", vc.id), vc, v, false, s.seq
		s.yield(t)
		if t.completed {
			t.completed = false
			return
		}
		if vc.closed {
			panic("send on closed channel")
		}
		vc.push(t, v, nil)
	}
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	var zero T
	s := active.Load()
	if s == nil {
		v, ok := <-ch
		return v, ok
	}
	if s.aborting {
		return zero, false
	}
	t := s.cur
	vc := getChan(s, ch)
	if vc == nil {
		forever(s, t, KRecv, "receive on nil channel")
		return zero, false
	}
	s.seq++
	t.kind, t.desc, t.ch, t.completed, t.posted = KRecv, fmt.Sprintf("receive on channel %d", vc.id), vc, false, s.seq
	s.yield(t)
	if t.completed {
		t.completed = false
		if t.val == nil {
			return zero, t.ok
		}
		return t.val.(T), t.ok
	}
	v, ok := s.take(vc, t)
	if !ok || v == nil {
		return zero, ok
	}
	return v.(T), true
}

func Close[T any](ch chan<- T) {
	s := active.Load()
	if s == nil {
		close(ch)
		return
	}
	if s.aborting {
		return
	}
	vc := getSend(s, ch)
	if vc == nil {
		panic("close of nil channel")
	}
	Point("close")
	if vc.closed {
		panic("close of closed channel")
	}
	vc.closed = true
	vc.cvc = s.cur.vc.copy()
	s.cur.tick()
}

func Len[T any](ch <-chan T) int {
	s := active.Load()
	if s == nil {
		return len(ch)
	}
	vc := getChan(s, ch)
	if vc == nil {
		return 0
	}
	return len(vc.buf)
}

// Case of a select statement.
type Case interface{ sel(s *Sched) *selCase }

type RecvCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func RC[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func (c *RecvCase[T]) sel(s *Sched) *selCase {
	return &selCase{vc: getChan(s, c.ch), set: func(v any, ok bool) {
		c.OK = ok
		if v != nil {
			c.V = v.(T)
		}
	}}
}

type SendCase[T any] struct {
	ch chan<- T
	v  T
}

func SC[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch, v} }
}

func (c *SendCase[T]) sel(s *Sched) *selCase {
	return &selCase{send: true, vc: getSend(s, c.ch), val: c.v}
}

func (s *Sched) readyCases(t *Task) []int {
	var out []int
	for i, c := range t.cases {
		if c.vc == nil {
			continue
		}
		if c.send {
			if c.vc.closed || (c.vc.cap > 0 && len(c.vc.buf) < c.vc.cap) {
				out = append(out, i)
			}
		} else if s.canRecv(c.vc, t) {
			out = append(out, i)
		}
	}
	return out
}

// Select returns the index of the chosen case, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	s := active.Load()
	if s == nil {
		return nativeSelect(hasDefault, cases)
	}
	if s.aborting {
		runtime.Goexit()
	}
	t := s.cur
	t.cases = nil
	for _, c := range cases {
		t.cases = append(t.cases, c.sel(s))
	}
	s.seq++
	t.completed, t.posted, t.desc = false, s.seq, "select"
	if hasDefault {
		t.kind = KReady
		s.yield(t)
		ready := s.readyCases(t)
		for i, c := range t.cases { // a waiting receiver makes a send case ready
			if c.send && c.vc != nil && c.vc.cap == 0 && !c.vc.closed {
				if p, _ := s.pendingReceiver(c.vc, t); p != nil {
					ready = append(ready, i)
				}
			}
		}
		if len(ready) == 0 {
			return -1
		}
		sort.Ints(ready)
		return s.runCase(t, ready)
	}
	t.kind = KSelect
	s.yield(t)
	if t.completed { // a receiver took the value of a send case
		t.completed = false
		return t.chosen
	}
	return s.runCase(t, s.readyCases(t))
}

func (s *Sched) runCase(t *Task, ready []int) int {
	k := 0
	if len(ready) > 1 && s.cfg.OneCase {
		if s.cfg.Youngest {
			k = len(ready) - 1
		}
	} else if len(ready) > 1 {
		k = s.ch.Pick("select", len(ready))
		if k < 0 {
			s.finish()
			s.park(t)
		}
	}
	i := ready[k]
	c := t.cases[i]
	if c.send {
		if c.vc.closed {
			panic("send on closed channel")
		}
		if s.cfg.OnSend != nil {
			s.cfg.OnSend(t, c.val)
		}
		if c.vc.cap > 0 && len(c.vc.buf) < c.vc.cap {
			c.vc.push(t, c.val, nil)
		} else {
			p, j := s.pendingReceiver(c.vc, t)
			p.completed = true
			meet(t, p)
			if j < 0 {
				p.val, p.ok = c.val, true
			} else {
				p.chosen = j
				p.cases[j].set(c.val, true)
			}
			if s.cfg.OnRecv != nil {
				s.cfg.OnRecv(p, c.vc, c.val)
			}
		}
		return i
	}
	v, ok := s.take(c.vc, t)
	c.set(v, ok)
	return i
}

// BlockForever is an empty select.
func BlockForever() {
	s := active.Load()
	if s == nil {
		select {}
	}
	forever(s, s.cur, KIdle, "empty select")
	runtime.Goexit()
}
