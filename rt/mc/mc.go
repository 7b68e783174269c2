// Package mc is an explicit explorer: a scenario is a function of the choices it makes, and
// every combination of choices within the bounds is executed against the real code and
// judged against the scenario's model. Work is split over worker processes; a crash or a
// hang of a worker is itself a finding about the code under check.
package mc

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verif/vlog"
	"verif/vs"
	"verif/vsync"
)

// Scenario is one bounded space of executions.
type Scenario struct {
	Name     string
	Bounds   string // what is enumerated, in words
	Run      func(c *Ctx)
	Thorough bool // only in the thorough tier
	Quick    bool // only in the quick tier
	Shard    int  // number of leading choices that split the work (default 2)
}

// Check decides one property.
type Check struct {
	ID        string
	Setup     func(c *Ctx) // once per worker
	Scenarios []Scenario
	Assume    []string
}

// Ctx is one execution.
type Ctx struct {
	w                 *worker
	sc                *Scenario
	vec               []int32 // choices of this execution
	ns                []int32 // their arities
	depth             int
	prefix            int  // choices fixed by the search
	running, skipping bool // in a scheduled run; it belongs to another worker
	replay            bool
	logging           bool
	log               []string
	diverged          bool
	h                 uint32
	dir               string
	choices           string
}

type stop struct{}
type skip struct{}

type violation struct {
	Scenario  string   `json:"scenario"`
	Choices   []int32  `json:"choices"`
	Arity     []int32  `json:"arity"`
	Sig       string   `json:"signature"`
	Msg       string   `json:"message"`
	Log       []string `json:"execution"`
	Contended []string `json:"contended,omitempty"`
	Worker    int      `json:"worker"`
	Workers   int      `json:"workers"`
	Crash     bool     `json:"crash,omitempty"`
	Share     bool     `json:"share,omitempty"` // it takes the executions of the worker before it
	Case      int64    `json:"case"`
}

// Thorough reports the tier.
func (c *Ctx) Thorough() bool { return c.w.tier == "thorough" }

// Dir is a scratch directory of this worker.
func (c *Ctx) Dir() string { return c.w.dir }

// Pick chooses one of n alternatives; all are explored.
func (c *Ctx) Pick(label string, n int) int {
	if n <= 0 {
		panic(fmt.Sprintf("mc: Pick(%s, %d)", label, n))
	}
	if n == 1 {
		return 0
	}
	d := c.depth
	c.depth++
	if d < c.prefix {
		if int(c.ns[d]) != n {
			c.diverged = true
			c.w.nondet++
			c.ns[d] = int32(n)
			if int(c.vec[d]) >= n {
				c.vec[d] = int32(n - 1)
			}
			// what followed belongs to another execution
			c.prefix = d + 1
			c.vec, c.ns = c.vec[:d+1], c.ns[:d+1]
		}
	} else {
		c.vec = append(c.vec[:d], 0)
		c.ns = append(c.ns[:d], int32(n))
		if d >= c.shard() {
			c.w.cur.nodes++
		}
	}
	v := int(c.vec[d])
	if c.logging {
		c.choices += fmt.Sprintf(" %s=%d/%d", label, v, n)
	}
	if !c.replay && d < c.shard() {
		c.h = (c.h*31 + uint32(v) + 1) * 2654435761
		if d == c.shard()-1 && int(c.h>>8)%c.w.n != c.w.i {
			if c.running { // not on the goroutine of the explorer
				c.skipping = true
				return -1
			}
			panic(skip{})
		}
	}
	return v
}

func (c *Ctx) shard() int {
	if c.sc.Shard > 0 {
		return c.sc.Shard
	}
	return 2
}

// Bool chooses a boolean.
func (c *Ctx) Bool(label string) bool { return c.Pick(label, 2) == 1 }

// Of chooses an element.
func Of[T any](c *Ctx, label string, xs []T) T { return xs[c.Pick(label, len(xs))] }

// Op counts operations executed on the real code.
func (c *Ctx) Op(n int) { c.w.cur.ops += int64(n) }

// Logf describes the execution (kept for samples and counterexamples).
func (c *Ctx) Logf(format string, a ...any) {
	if c.logging && len(c.log) < 200 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.log = append(c.log, s)
	}
}

// Logging reports whether Logf keeps anything.
func (c *Ctx) Logging() bool { return c.logging }

// Fail reports a violation identified by sig and ends the execution.
func (c *Ctx) Fail(sig, format string, a ...any) {
	c.w.found(c, sig, fmt.Sprintf(format, a...))
	panic(stop{})
}

// Skip ends the execution as not applicable.
func (c *Ctx) Skip() { panic(stop{}) }

// Crash describes how a call into the real code ended abnormally.
type Crash struct {
	Msg   string
	Died  bool
	Stack string
}

// Try runs f and returns how it crashed, or nil.
func (c *Ctx) Try(f func()) (cr *Crash) {
	d := vlog.Deaths
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case stop, skip:
				panic(r)
			case vlog.Died:
				cr = &Crash{Msg: r.Error(), Died: true}
			default:
				cr = &Crash{Msg: fmt.Sprint("panic: ", r), Stack: shortStack()}
			}
			return
		}
		if vlog.Deaths != d {
			cr = &Crash{Msg: "process ended: " + vlog.LastDeath, Died: true}
		}
	}()
	f()
	return nil
}

// Must runs f and reports a violation if it crashes.
func (c *Ctx) Must(what string, f func()) {
	if cr := c.Try(f); cr != nil {
		c.Fail("crash/"+what, "%s crashed: %s\n%s", what, cr.Msg, cr.Stack)
	}
}

func shortStack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/saratoga/") || strings.Contains(l, "checks/") || strings.Contains(l, "charlesetsmith") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Sched runs f under the scheduler, exploring its schedules as choices of this execution.
func (c *Ctx) Sched(cfg vs.Config, f func()) *vs.Result {
	cfg.Contended = c.w.contended
	c.running = true
	r := vs.Run(cfg, c, f)
	c.running = false
	if c.skipping {
		panic(skip{})
	}
	c.w.cur.ops += int64(r.Steps)
	c.w.cur.schedules++
	grew := false
	for _, v := range r.Contended {
		if !c.w.contended[v] {
			c.w.contended[v] = true
			grew = true
		}
	}
	if grew && !c.replay {
		panic(restart{})
	}
	for _, l := range r.Trace {
		c.Logf("%s", l)
	}
	return r
}

type restart struct{}

// ------------------------------------------------------------------ worker

type counters struct {
	execs, nodes, ops, schedules int64
	complete                     bool
}

type worker struct {
	check     *Check
	tier      string
	i, n      int
	dir       string
	deadline  time.Time
	looked    time.Time
	late      bool
	grace     string // exists when a worker has found a violation
	cur       *counters
	cell      *cell
	viol      []violation
	sigs      map[string]bool
	nondet    int64
	contended map[string]bool
	initial   map[string][]string // contended variables known from an earlier pass
	fast      string
	stopAt    int // maximum number of violations
	cases     int64
	lastOne   *violation
	samples   map[string][]string
}

func (w *worker) found(c *Ctx, sig, msg string) {
	v := violation{Scenario: c.sc.Name, Choices: append([]int32(nil), c.vec[:c.depth]...), Arity: append([]int32(nil), c.ns[:c.depth]...),
		Sig: sig, Msg: msg, Log: append([]string(nil), c.log...), Worker: w.i, Workers: w.n, Case: w.cases}
	for k := range w.contended {
		v.Contended = append(v.Contended, k)
	}
	sort.Strings(v.Contended)
	w.lastOne = &v
	key := c.sc.Name + "\x00" + sig
	if w.sigs[key] || len(w.viol) >= w.stopAt {
		return
	}
	w.sigs[key] = true
	w.viol = append(w.viol, v)
}

// exec runs one execution; it reports skipped and restart.
func (w *worker) exec(c *Ctx) (skipped, again bool) {
	defer func() {
		r := recover()
		switch r := r.(type) {
		case nil, stop:
		case skip:
			skipped = true
		case restart:
			again = true
		case vlog.Died:
			w.found(c, "died", "the program ended itself: "+r.Msg)
		case vsync.Deadlock:
			w.found(c, "deadlock", "deadlock: "+r.What)
		default:
			w.found(c, "panic", fmt.Sprintf("panic: %v\n%s", r, shortStack()))
		}
	}()
	c.sc.Run(c)
	// fewer choices than the split needs: a fixed worker owns the execution
	if !c.replay && c.depth < c.shard() && int(c.h>>8)%w.n != w.i {
		return true, false
	}
	return false, false
}

func (w *worker) scenario(idx int, sc *Scenario) *counters {
	w.contended = map[string]bool{}
	for _, k := range w.initial[sc.Name] {
		w.contended[k] = true
	}
again:
	w.cur = &counters{complete: true}
	var vec, ns []int32
	for {
		h := fnv.New32a()
		h.Write([]byte(sc.Name))
		c := &Ctx{w: w, sc: sc, vec: vec, ns: ns, prefix: len(vec), h: h.Sum32() | 1}
		if w.i == 0 && (w.cur.execs == 0 || w.cur.execs == 60 || w.cur.execs == 3000) {
			c.logging = true
		}
		w.cases++
		w.cell.set(idx, w.cases, vec)
		skipped, restarted := w.exec(c)
		if restarted { // with more scheduling points; what was found so far was found all the same
			goto again
		}
		if !skipped {
			w.cur.execs++
			w.cur.nodes++
			if c.logging && len(w.samples[sc.Name]) < 12 {
				l := c.log
				if len(l) == 0 {
					l = []string{"choices:" + c.choices[:min(len(c.choices), 300)]}
				}
				if len(l) > 6 {
					l = l[:6]
				}
				w.samples[sc.Name] = append(w.samples[sc.Name], l...)
			}
		}
		// next vector
		vec, ns = c.vec[:min(c.depth, len(c.vec))], c.ns[:min(c.depth, len(c.ns))]
		k := len(vec) - 1
		for k >= 0 && vec[k]+1 >= ns[k] {
			k--
		}
		if k < 0 {
			break
		}
		vec, ns = vec[:k+1], ns[:k+1]
		vec[k]++
		if k >= c.shard() {
			w.cur.nodes++
		}
		if now := time.Now(); now.After(w.looked.Add(time.Second)) {
			w.looked = now
			if w.grace != "" {
				// a violation is found: what else there is to find is only looked for a while longer
				if len(w.viol) > 0 {
					os.WriteFile(w.grace, nil, 0o666)
				}
				if _, err := os.Stat(w.grace); err == nil {
					w.grace = ""
					if d := now.Add(40 * time.Second); d.Before(w.deadline) {
						w.deadline = d
					}
				}
			}
			if now.After(w.deadline) {
				w.late = true
			}
		}
		if w.late {
			w.cur.complete = false
			break
		}
		if len(w.viol) >= w.stopAt {
			w.cur.complete = false
			break
		}
		if w.fast != "" && w.cases&15 == 0 { // development only: stop all at the first violation
			if len(w.viol) > 0 {
				os.WriteFile(w.fast, nil, 0o666)
			}
			if _, err := os.Stat(w.fast); err == nil {
				w.cur.complete = false
				break
			}
		}
	}
	return w.cur
}

// one executes a single vector; it returns the violation, if any.
func (w *worker) one(idx int, sc *Scenario, vec, ns []int32, contended []string) *violation {
	w.contended = map[string]bool{}
	for _, k := range contended {
		w.contended[k] = true
	}
	w.cur = &counters{}
	w.lastOne = nil
	c := &Ctx{w: w, sc: sc, vec: append([]int32(nil), vec...), ns: append([]int32(nil), ns...), prefix: len(vec), replay: true, logging: true}
	w.cell.set(idx, 1, vec)
	w.exec(c)
	return w.lastOne
}

func fatalf(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(3)
}
