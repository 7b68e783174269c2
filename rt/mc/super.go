package mc

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// cell is shared memory telling the supervisor which case a worker is at.
type cell struct{ m []byte }

const cellSize = 8192

func openCell(path string) (*cell, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o666)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(cellSize); err != nil {
		return nil, err
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, cellSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &cell{m}, nil
}

func (c *cell) set(sc int, n int64, vec []int32) {
	binary.LittleEndian.PutUint64(c.m[0:], uint64(n))
	binary.LittleEndian.PutUint32(c.m[8:], uint32(sc))
	k := len(vec)
	if k > (cellSize-16)/4 {
		k = (cellSize - 16) / 4
	}
	binary.LittleEndian.PutUint32(c.m[12:], uint32(k))
	for i := 0; i < k; i++ {
		binary.LittleEndian.PutUint32(c.m[16+4*i:], uint32(vec[i]))
	}
}

func (c *cell) get() (sc int, n int64, vec []int32) {
	n = int64(binary.LittleEndian.Uint64(c.m[0:]))
	sc = int(binary.LittleEndian.Uint32(c.m[8:]))
	k := int(binary.LittleEndian.Uint32(c.m[12:]))
	for i := 0; i < k && 16+4*i+4 <= cellSize; i++ {
		vec = append(vec, int32(binary.LittleEndian.Uint32(c.m[16+4*i:])))
	}
	return
}

type scResult struct {
	Name      string `json:"name"`
	Execs     int64  `json:"executions"`
	Nodes     int64  `json:"states"`
	Ops       int64  `json:"transitions"`
	Schedules int64  `json:"schedules,omitempty"`
	Complete  bool   `json:"complete"`
	Bounds    string `json:"bounds,omitempty"`
}

type workerResult struct {
	Done       bool                `json:"done"`
	Scenarios  []scResult          `json:"scenarios"`
	Violations []violation         `json:"violations"`
	Nondet     int64               `json:"nondet"`
	Samples    map[string][]string `json:"samples"`
	SetupFail  string              `json:"setup_fail"`
	Contended  map[string][]string `json:"contended"`
}

// HangLimit is how long one case may take before it is a hang.
var HangLimit = 150 * time.Second

// Main is the body of a check program.
func Main(ck *Check) {
	tier := flag.String("tier", "quick", "")
	evidence := flag.String("evidence", "", "")
	replay := flag.String("replay", "", "")
	out := flag.String("out", "", "directory for replay files")
	known := flag.String("known", "", "known findings")
	work := flag.String("work", "", "scratch directory")
	wi := flag.Int("worker", -1, "")
	wn := flag.Int("workers", runtime.NumCPU(), "")
	limit := flag.Int("limit", 0, "seconds")
	only := flag.String("only", "", "scenario name substring")
	oneFile := flag.String("one", "", "")
	flag.Parse()
	if *only != "" {
		var k []Scenario
		for _, s := range ck.Scenarios {
			if strings.Contains(s.Name, *only) {
				k = append(k, s)
			}
		}
		ck.Scenarios = k
	}
	if *wi >= 0 {
		workerMain(ck, *tier, *wi, *wn, *work, *limit, *oneFile)
		return
	}
	if *limit == 0 {
		*limit = 450
		if *tier == "thorough" {
			*limit = 3 * 3600
		}
	}
	s := &super{ck: ck, tier: *tier, n: *wn, work: *work, limit: *limit, only: *only, out: *out}
	if *replay != "" {
		os.Exit(s.replay(*replay))
	}
	os.Exit(s.run(*evidence, *known))
}

func workerMain(ck *Check, tier string, i, n int, work string, limit int, oneFile string) {
	debug.SetGCPercent(400)
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	runtime.GOMAXPROCS(1)
	dir := filepath.Join(work, fmt.Sprintf("w%d", i))
	os.MkdirAll(filepath.Join(dir, "d"), 0o755)
	cl, err := openCell(filepath.Join(dir, "cell"))
	if err != nil {
		fatalf("cell: %v", err)
	}
	w := &worker{check: ck, tier: tier, i: i, n: n, dir: filepath.Join(dir, "d"), deadline: time.Now().Add(time.Duration(limit) * time.Second),
		cell: cl, sigs: map[string]bool{}, stopAt: 40, cur: &counters{}, samples: map[string][]string{}, contended: map[string]bool{}}
	if os.Getenv("VERIF_FAST") != "" {
		w.fast = filepath.Join(dir, "..", "share", "stop")
	}
	if os.Getenv("VERIF_GRACE") != "" {
		w.grace = filepath.Join(dir, "..", "share", "found")
	}
	if b, err := os.ReadFile(filepath.Join(work, "contended.json")); err == nil {
		json.Unmarshal(b, &w.initial)
	}
	res := workerResult{Contended: map[string][]string{}}
	finish := func() {
		b, err := json.Marshal(&res)
		if err != nil {
			fatalf("%v", err)
		}
		if err := os.WriteFile(filepath.Join(dir, "result.json"), b, 0o644); err != nil {
			fatalf("%v", err)
		}
	}
	if ck.Setup != nil {
		c := &Ctx{w: w, sc: &Scenario{Name: "setup"}, replay: true}
		if cr := c.Try(func() { ck.Setup(c) }); cr != nil {
			res.SetupFail = cr.Msg + "\n" + cr.Stack
			finish()
			return
		}
	}
	if oneFile != "" {
		b, err := os.ReadFile(oneFile)
		if err != nil {
			fatalf("%v", err)
		}
		var v violation
		if err := json.Unmarshal(b, &v); err != nil {
			fatalf("%v", err)
		}
		for k := range ck.Scenarios {
			if ck.Scenarios[k].Name == v.Scenario {
				if x := w.one(k, &ck.Scenarios[k], v.Choices, v.Arity, v.Contended); x != nil {
					res.Violations = append(res.Violations, *x)
				}
				res.Done = true
			}
		}
		finish()
		return
	}
	var again map[string]bool
	if b, err := os.ReadFile(filepath.Join(work, "again.json")); err == nil {
		json.Unmarshal(b, &again)
	}
	if f := os.Getenv("VERIF_PROF"); f != "" && i == 0 {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	for k := range ck.Scenarios {
		sc := &ck.Scenarios[k]
		if again != nil && !again[sc.Name] {
			continue
		}
		if sc.Thorough && tier != "thorough" || sc.Quick && tier == "thorough" {
			continue
		}
		r := w.scenario(k, sc)
		for v := range w.contended {
			res.Contended[sc.Name] = append(res.Contended[sc.Name], v)
		}
		sort.Strings(res.Contended[sc.Name])
		res.Scenarios = append(res.Scenarios, scResult{sc.Name, r.execs, r.nodes, r.ops, r.schedules, r.complete, sc.Bounds})
	}
	res.Violations = w.viol
	res.Nondet = w.nondet
	res.Samples = w.samples
	res.Done = true
	finish()
}

type super struct {
	ck    *Check
	tier  string
	n     int
	work  string
	limit int
	only  string
	out   string
	notes []string
	began time.Time
	// shares are the signatures found when the share of a worker was executed again
	shares map[int]map[string]bool
}

type proc struct {
	i     int
	cmd   *exec.Cmd
	dir   string
	cell  *cell
	errb  *bytes.Buffer
	done  chan error
	lastN int64
	since time.Time
	hung  bool
}

func (s *super) start(i int, extra ...string) (*proc, error) {
	dir := filepath.Join(s.work, fmt.Sprintf("w%d", i))
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o777)
	os.Chmod(dir, 0o777)
	cl, err := openCell(filepath.Join(dir, "cell"))
	if err != nil {
		return nil, err
	}
	os.Chmod(filepath.Join(dir, "cell"), 0o666)
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	args := []string{"-tier", s.tier, "-worker", strconv.Itoa(i), "-workers", strconv.Itoa(s.n), "-work", s.work, "-limit", strconv.Itoa(s.limit)}
	if s.only != "" {
		args = append(args, "-only", s.only)
	}
	args = append(args, extra...)
	mk := func(cred bool) *proc {
		p := &proc{i: i, dir: dir, cell: cl, errb: &bytes.Buffer{}, done: make(chan error, 1), since: time.Now()}
		p.cmd = exec.Command(self, args...)
		p.cmd.Dir = dir
		p.cmd.Stderr = &capped{b: p.errb}
		p.cmd.Stdout = nil
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		if cred {
			p.cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65533} // owner and group differ
		}
		return p
	}
	p := mk(os.Getuid() == 0)
	if err := p.cmd.Start(); err != nil {
		p = mk(false)
		if err := p.cmd.Start(); err != nil {
			return nil, err
		}
	}
	go func() { p.done <- p.cmd.Wait() }()
	return p, nil
}

type capped struct{ b *bytes.Buffer }

func (c *capped) Write(p []byte) (int, error) {
	if c.b.Len() < 1<<16 {
		c.b.Write(p)
	}
	return len(p), nil
}

func (p *proc) kill() {
	syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
}

// wait for a worker; returns its result, or the crash it had.
func (s *super) wait(p *proc) (*workerResult, *violation, error) {
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	var err error
loop:
	for {
		select {
		case err = <-p.done:
			break loop
		case <-tick.C:
			_, n, _ := p.cell.get()
			if n != p.lastN {
				p.lastN, p.since = n, time.Now()
			} else if n > 0 && time.Since(p.since) > HangLimit {
				p.hung = true
				p.kill()
			} else if n == 0 && time.Since(p.since) > 4*HangLimit {
				p.kill()
			}
		}
	}
	p.kill()
	b, rerr := os.ReadFile(filepath.Join(p.dir, "result.json"))
	if rerr == nil && !p.hung {
		var r workerResult
		if e := json.Unmarshal(b, &r); e == nil {
			return &r, nil, nil
		}
	}
	k, n, vec := p.cell.get()
	if n == 0 {
		return nil, nil, fmt.Errorf("worker %d did not start: %v: %s", p.i, err, tail(p.errb.String()))
	}
	v := &violation{Choices: vec, Crash: true, Worker: p.i, Workers: s.n, Case: n}
	if k < len(s.ck.Scenarios) {
		v.Scenario = s.ck.Scenarios[k].Name
	}
	if p.hung {
		v.Sig, v.Msg = "hang", fmt.Sprintf("no progress for %v: the code under check hangs", HangLimit)
		return nil, v, nil
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			return nil, nil, fmt.Errorf("worker %d was killed (memory?)", p.i)
		}
	}
	v.Sig, v.Msg = "process-crash", fmt.Sprintf("the process under check ended: %v\n%s", err, tail(p.errb.String()))
	return nil, v, nil
}

func tail(s string) string {
	if len(s) > 3000 {
		return s[:1500] + "\n...\n" + s[len(s)-1500:]
	}
	return s
}

// confirm re-executes a violation: alone first, then the whole share of its worker.
func (s *super) confirm(v *violation) bool {
	b, _ := json.Marshal(v)
	f := filepath.Join(s.work, "one.json")
	os.WriteFile(f, b, 0o644)
	os.Chmod(f, 0o644)
	if !v.Crash {
		for try := 0; try < 6; try++ {
			p, err := s.start(900+try, "-one", f)
			if err != nil {
				break
			}
			r, c, _ := s.wait(p)
			if c != nil {
				v.Msg += "\n(on replay: " + c.Msg + ")"
				return true
			}
			if r != nil && len(r.Violations) > 0 {
				if len(r.Violations[0].Log) > 0 {
					v.Log = r.Violations[0].Log
				}
				return true
			}
		}
	}
	if v.Workers != s.n {
		return false
	}
	// what it takes may lie in the executions before: the whole share of the worker again
	sigs, done := s.shares[v.Worker]
	if !done {
		sigs = map[string]bool{}
		if s.shares == nil {
			s.shares = map[int]map[string]bool{}
		}
		s.shares[v.Worker] = sigs
		left := 800 - int(time.Since(s.began).Seconds())
		if s.tier == "thorough" {
			left = s.limit
		}
		if left < 20 {
			s.notes = append(s.notes, "no time to execute a share again")
			return false
		}
		for _, n := range []string{"share/stop", "share/found", "again.json"} {
			os.Remove(filepath.Join(s.work, n))
		}
		limit0 := s.limit
		s.limit = min(s.limit, left)
		p, err := s.start(v.Worker)
		s.limit = limit0
		if err == nil {
			r, c, _ := s.wait(p)
			if c != nil {
				sigs[""] = true
			}
			if r != nil {
				for i := range r.Violations {
					sigs[r.Violations[i].Sig] = true
				}
			}
		}
	}
	if sigs[v.Sig] || sigs[""] {
		v.Share = !v.Crash
		return true
	}
	return false
}

func (s *super) replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatalf("%v", err)
	}
	var doc struct {
		Tier      string    `json:"tier"`
		Violation violation `json:"violation"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fatalf("%v", err)
	}
	if doc.Tier != "" {
		s.tier = doc.Tier
	}
	v := doc.Violation
	fmt.Printf("property %s scenario %s choices %v\nrecorded: %s\n", s.ck.ID, v.Scenario, v.Choices, v.Msg)
	nb, _ := json.Marshal(&v)
	f := filepath.Join(s.work, "one.json")
	os.WriteFile(f, nb, 0o644)
	s.n = max(1, v.Workers)
	var args []string
	if !v.Crash && !v.Share {
		args = []string{"-one", f}
	}
	p, err := s.start(v.Worker, args...)
	if err != nil {
		fatalf("%v", err)
	}
	r, c, err := s.wait(p)
	if err != nil {
		fatalf("%v", err)
	}
	if c != nil {
		fmt.Printf("replayed: %s\nVIOLATION property=%s replay=%s\n", c.Msg, s.ck.ID, file)
		return 1
	}
	for _, x := range r.Violations {
		for _, l := range x.Log {
			fmt.Println("  ", l)
		}
		fmt.Printf("replayed: [%s] %s\nVIOLATION property=%s replay=%s\n", x.Sig, x.Msg, s.ck.ID, file)
		return 1
	}
	fmt.Println("replayed: no violation")
	return 0
}

type knownFinding struct{ sig, what string }

// loadKnown reads "known: property=<id> signature=<sig> <what>" lines.
func loadKnown(file, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+id+" signature=")
		if !ok {
			continue
		}
		sig, what, _ := strings.Cut(rest, " ")
		out[sig] = what
	}
	return out
}

func (s *super) run(evidence, knownFile string) int {
	t0 := time.Now()
	s.began = t0
	type ret struct {
		r *workerResult
		v *violation
		e error
	}
	var earlier []ret
	share := filepath.Join(s.work, "share")
	os.Mkdir(share, 0o777)
	os.Chmod(share, 0o777)
	os.Unsetenv("VERIF_GRACE")
	if len(loadKnown(knownFile, s.ck.ID)) == 0 {
		os.Setenv("VERIF_GRACE", "1")
	}
	pass := 0
again:
	pass++
	limit0 := s.limit
	s.limit = max(10, s.limit-int(time.Since(t0).Seconds()))
	var procs []*proc
	for i := 0; i < s.n; i++ {
		p, err := s.start(i)
		if err != nil {
			fatalf("start worker: %v", err)
		}
		procs = append(procs, p)
	}
	s.limit = limit0
	rets := make([]ret, len(procs))
	ch := make(chan int)
	for i, p := range procs {
		go func(i int, p *proc) {
			r, v, e := s.wait(p)
			rets[i] = ret{r, v, e}
			ch <- i
		}(i, p)
	}
	for range procs {
		<-ch
	}
	// the workers share the schedules among them: all must have seen the same variables contended
	union := map[string]map[string]bool{}
	for _, x := range rets {
		if x.r != nil {
			for n, vs := range x.r.Contended {
				if union[n] == nil {
					union[n] = map[string]bool{}
				}
				for _, v := range vs {
					union[n][v] = true
				}
			}
		}
	}
	uneven, bad := map[string]bool{}, false
	for _, x := range rets {
		if x.r == nil || len(x.r.Violations) > 0 {
			bad = true
			continue
		}
		for _, sr := range x.r.Scenarios {
			if len(x.r.Contended[sr.Name]) != len(union[sr.Name]) {
				uneven[sr.Name] = true
			}
		}
	}
	if left := s.limit - int(time.Since(t0).Seconds()); len(uneven) > 0 && !bad && pass < 6 && left > 10 {
		all := map[string][]string{}
		for n, vs := range union {
			for v := range vs {
				all[n] = append(all[n], v)
			}
			sort.Strings(all[n])
		}
		b, _ := json.Marshal(all)
		os.WriteFile(filepath.Join(s.work, "contended.json"), b, 0o644)
		b, _ = json.Marshal(uneven)
		os.WriteFile(filepath.Join(s.work, "again.json"), b, 0o644)
		for i := range rets { // only what is done again is discarded
			if r := rets[i].r; r != nil {
				keep := r.Scenarios[:0]
				for _, sr := range r.Scenarios {
					if !uneven[sr.Name] {
						keep = append(keep, sr)
					}
				}
				r.Scenarios = keep
			}
		}
		earlier = append(earlier, rets...)
		goto again
	} else if len(uneven) > 0 {
		s.notes = append(s.notes, "the workers disagree on the contended variables")
	}
	rets = append(earlier, rets...)
	agg := map[string]*scResult{}
	var order []string
	var viols []violation
	exhaustive := true
	var nondet int64
	samples := []any{}
	for _, x := range rets {
		switch {
		case x.e != nil:
			fmt.Fprintln(os.Stderr, "note:", x.e)
			s.notes = append(s.notes, x.e.Error())
			exhaustive = false
		case x.v != nil:
			viols = append(viols, *x.v)
			exhaustive = false
		default:
			if x.r.SetupFail != "" {
				viols = append(viols, violation{Scenario: "setup", Sig: "setup", Msg: "the code under check cannot be set up: " + x.r.SetupFail, Crash: true})
				continue
			}
			nondet += x.r.Nondet
			for _, sr := range x.r.Scenarios {
				a := agg[sr.Name]
				if a == nil {
					a = &scResult{Name: sr.Name, Complete: true, Bounds: sr.Bounds}
					agg[sr.Name] = a
					order = append(order, sr.Name)
				}
				a.Execs += sr.Execs
				a.Nodes += sr.Nodes
				a.Ops += sr.Ops
				a.Schedules += sr.Schedules
				a.Complete = a.Complete && sr.Complete
			}
			viols = append(viols, x.r.Violations...)
			var names []string
			for k := range x.r.Samples {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				if len(x.r.Samples[k]) > 0 && len(samples) < 30 {
					samples = append(samples, map[string]any{"scenario": k, "execution": x.r.Samples[k]})
				}
			}
		}
	}
	// all workers failing to answer means the check has not decided anything
	if len(agg) == 0 && len(viols) == 0 {
		fatalf("no worker gave a result: %v", s.notes)
	}
	var total scResult
	var scs []scResult
	for _, n := range order {
		a := agg[n]
		scs = append(scs, *a)
		total.Execs += a.Execs
		total.Nodes += a.Nodes
		total.Ops += a.Ops
		total.Schedules += a.Schedules
		exhaustive = exhaustive && a.Complete
	}
	if nondet > 0 {
		exhaustive = false
	}
	sort.SliceStable(viols, func(i, j int) bool { return len(viols[i].Choices) < len(viols[j].Choices) })
	known := loadKnown(knownFile, s.ck.ID)
	seen := map[string]bool{}
	reported, knownN := 0, 0
	code := 0
	for i := range viols {
		v := &viols[i]
		key := v.Sig
		if seen[key] {
			continue
		}
		seen[key] = true
		if what, ok := known[v.Sig]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", s.ck.ID, what)
			knownN++
			continue
		}
		if reported >= 3 {
			continue
		}
		if v.Sig != "setup" && !s.confirm(v) {
			fmt.Printf("note: [%s] %s was not confirmed by re-execution\n", v.Sig, firstLine(v.Msg))
			s.notes = append(s.notes, "unconfirmed: "+v.Sig)
			continue
		}
		reported++
		os.MkdirAll(s.out, 0o755)
		file := filepath.Join(s.out, fmt.Sprintf("%s-%d.json", s.ck.ID, reported))
		doc := map[string]any{"property": s.ck.ID, "tier": s.tier, "violation": v,
			"how": "run.sh " + s.ck.ID + " --replay <this file>"}
		b, _ := json.MarshalIndent(doc, "", " ")
		os.WriteFile(file, b, 0o644)
		fmt.Printf("violation [%s] in scenario %s, choices %v:\n%s\n", v.Sig, v.Scenario, v.Choices, v.Msg)
		for _, l := range v.Log {
			fmt.Println("    ", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", s.ck.ID, file)
		code = 1
	}
	wall := time.Since(t0).Seconds()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"states": total.Nodes, "transitions": total.Ops, "traces_validated_against_impl": total.Execs,
		"samples": samples, "exhaustive": exhaustive, "scenarios": scs, "nondeterministic_replays": nondet,
		"workers": s.n, "known_findings_seen": knownN,
		"rule": "states: nodes of the choice tree visited; transitions: operations or scheduler steps executed on the real code; traces: complete executions compared with the model",
	}
	if total.Schedules > 0 {
		cov["schedules"] = total.Schedules
	}
	racy := map[string][]string{}
	for n, vs := range union {
		for v := range vs {
			racy[n] = append(racy[n], v)
		}
		sort.Strings(racy[n])
	}
	if len(racy) > 0 {
		cov["unordered_variables"] = racy // their accesses were scheduling points too
	}
	if len(s.notes) > 0 {
		cov["notes"] = s.notes
	}
	ev := map[string]any{"property": s.ck.ID, "tier": s.tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": s.ck.Assume, "wall_s": wall, "violations": reported}
	if s.ck.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if len(b) > 60000 {
		cov["samples"] = samples[:1]
		b, _ = json.MarshalIndent(ev, "", " ")
	}
	if evidence != "" {
		os.MkdirAll(filepath.Dir(evidence), 0o755)
		if err := os.WriteFile(evidence, b, 0o644); err != nil {
			fatalf("evidence: %v", err)
		}
	}
	fmt.Printf("%s %s: %d executions, %d states, %d transitions, exhaustive=%v, %.1fs\n", s.ck.ID, s.tier, total.Execs, total.Nodes, total.Ops, exhaustive, wall)
	for _, x := range scs {
		fmt.Printf("  %-28s execs=%d states=%d ops=%d complete=%v\n", x.Name, x.Execs, x.Nodes, x.Ops, x.Complete)
	}
	return code
}

func firstLine(s string) string { l, _, _ := strings.Cut(s, "\n"); return l }
