// C21: commands keep the node's settings valid and do what they say.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/jroimartin/gocui"

	"verif/checks/h"
	"verif/mc"
	"verif/vlog"
	"verif/vnet"
	"verif/vs"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var gui *gocui.Gui
var queued []func(*gocui.Gui) error
var views = []string{"msg", "err", "packet", "cmd"}

func newGui() *gocui.Gui {
	g, err := gocui.NewGui(gocui.OutputNormal)
	must(err)
	must(sarwin.Layout(g))
	return g
}

func setup(c *mc.Ctx) {
	h.Setup(c)
	gocui.UpdateHook = func(g *gocui.Gui, f func(*gocui.Gui) error) { queued = append(queued, f) }
	gui = newGui()
	queued = nil
}

// settings is everything the commands may set.
type settings struct {
	f    sarflags.Cliflags
	exit int
}

func copyOf(f *sarflags.Cliflags) sarflags.Cliflags {
	n := *f
	n.Global = map[string]string{}
	for k, v := range f.Global {
		n.Global[k] = v
	}
	return n
}

func (s *settings) clone() *settings { return &settings{copyOf(&s.f), s.exit} }

func (s *settings) String() string {
	var g []string
	for k, v := range s.f.Global {
		g = append(g, k+"="+v)
	}
	sort.Strings(g)
	x := s.f
	x.Global = nil
	return fmt.Sprintf("%s %+v exit=%d", strings.Join(g, " "), x, s.exit)
}

func now() *settings { return &settings{copyOf(sarflags.Cliflag), sarwin.Cexit} }

// verdict of the specification on a line
type verdict struct {
	kind  string   // set, show, invalid, other
	want  []string // what the output has to contain
	maybe int      // 1: says no, 2: says yes
}

var helper = regexp.MustCompile(`(?i)\b(not|no|cannot|off|disabled)\b`)

func number(s string) (int, bool) {
	n, err := strconv.Atoi(s)
	return n, err == nil && n >= 0
}

func timeout(f *sarflags.Cliflags, name string) *int {
	switch name {
	case "metadata":
		return &f.Timeout.Metadata
	case "request":
		return &f.Timeout.Request
	case "status":
		return &f.Timeout.Status
	case "transfer":
		return &f.Timeout.Transfer
	case "datacounter":
		return &f.Timeout.Datacounter
	}
	return nil
}

var stamps = map[string]string{"32": "posix32", "64": "posix64", "32_32": "posix32_32", "64_32": "posix64_32", "32_y2k": "epoch2000_32", "local": "localinterp"}

func shown(n int) []string {
	if n == 0 {
		return nil
	}
	return []string{strconv.Itoa(n)}
}

// spec applies a line to the settings.
func spec(s *settings, line string) verdict {
	a := strings.Fields(line)
	if len(a) == 0 {
		return verdict{kind: "none"}
	}
	if _, ok := sarflags.Commands[a[0]]; !ok {
		return verdict{kind: "invalid"}
	}
	if len(a) == 2 && a[1] == "?" {
		switch a[0] {
		case "cancel", "usage":
			return verdict{kind: "other"}
		case "help", "?":
			return verdict{kind: "show", want: names()}
		}
		if a[0] == "quit" {
			return verdict{kind: "show"} // shows what exit does
		}
		return verdict{kind: "show", want: []string{sarflags.Commands[a[0]].Usage}}
	}
	onoff := func(key string, vals map[string]string, word bool) verdict {
		switch len(a) {
		case 1:
			if !word {
				return verdict{kind: "show", want: []string{s.f.Global[key]}}
			}
			if s.f.Global[key] == "yes" {
				return verdict{kind: "show", maybe: 2}
			}
			return verdict{kind: "show", maybe: 1}
		case 2:
			if v, ok := vals[a[1]]; ok {
				s.f.Global[key] = v
				if word {
					return verdict{kind: "set", maybe: map[string]int{"yes": 2, "no": 1}[v]}
				}
				return verdict{kind: "set", want: []string{v}}
			}
		}
		return verdict{kind: "invalid"}
	}
	yesno := map[string]string{"yes": "yes", "no": "no"}
	willing := map[string]string{"on": "yes", "off": "no", "capable": "capable"}
	switch a[0] {
	case "checksum":
		return onoff("csumtype", map[string]string{"off": "none", "none": "none", "crc32": "crc32", "md5": "md5", "sha1": "sha1"}, false)
	case "descriptor":
		return onoff("descriptor", map[string]string{"auto": "d64", "d16": "d16", "d32": "d32", "d64": "d64"}, false)
	case "freespace":
		return onoff("freespace", yesno, true)
	case "stream":
		return onoff("stream", yesno, true)
	case "reqtstamp":
		return onoff("reqtstamp", yesno, true)
	case "rxwilling", "txwilling":
		return onoff(a[0], willing, false)
	case "bcount", "interval":
		v := &s.f.Bcount
		if a[0] == "interval" {
			v = &s.f.Timeout.Binterval
		}
		switch len(a) {
		case 1:
			return verdict{kind: "show", want: shown(int(*v))}
		case 2:
			if n, ok := number(a[1]); ok {
				*v = uint(n)
				return verdict{kind: "set"}
			}
			if a[0] == "interval" && a[1] == "off" {
				*v = 0
				return verdict{kind: "set"}
			}
		}
		return verdict{kind: "invalid"}
	case "timeout":
		switch len(a) {
		case 1:
			var w []string
			for _, n := range []string{"metadata", "request", "status", "transfer", "datacounter"} {
				w = append(w, shown(*timeout(&s.f, n))...)
			}
			return verdict{kind: "show", want: w}
		case 2:
			if p := timeout(&s.f, a[1]); p != nil {
				return verdict{kind: "show", want: shown(*p)}
			}
		case 3:
			p := timeout(&s.f, a[1])
			if p == nil {
				break
			}
			n, ok := number(a[2])
			if a[2] == "off" {
				n, ok = 60, true
				if a[1] == "datacounter" {
					n = 100
				}
			}
			if ok {
				if n == 0 && a[1] == "datacounter" {
					n = 100
				}
				*p = n
				return verdict{kind: "set", want: shown(n)}
			}
		}
		return verdict{kind: "invalid"}
	case "timestamp":
		switch len(a) {
		case 1:
			return verdict{kind: "show", want: []string{s.f.Timestamp, s.f.Global["reqtstamp"]}}
		case 2:
			if a[1] == "off" {
				s.f.Global["reqtstamp"] = "no"
				return verdict{kind: "set"}
			}
			if t, ok := stamps[a[1]]; ok {
				s.f.Global["reqtstamp"] = "yes"
				s.f.Timestamp = t
				return verdict{kind: "set"}
			}
		}
		return verdict{kind: "invalid"}
	case "timezone":
		switch len(a) {
		case 1:
			return verdict{kind: "show", want: []string{s.f.Timezone}}
		case 2:
			if a[1] == "local" || a[1] == "utc" {
				s.f.Timezone = a[1]
				return verdict{kind: "set"}
			}
		}
		return verdict{kind: "invalid"}
	case "exit", "quit":
		switch len(a) {
		case 1:
			s.exit = 0
			return verdict{kind: "set"}
		case 2:
			if a[1] == "0" || a[1] == "1" {
				s.exit = int(a[1][0] - '0')
				return verdict{kind: "set"}
			}
		}
		return verdict{kind: "invalid"}
	case "help", "?", "usage":
		if len(a) == 1 {
			return verdict{kind: "show", want: names()}
		}
		return verdict{kind: "other"}
	case "clear":
		for _, w := range a[1:] {
			if w != "msg" && w != "err" && w != "packet" {
				return verdict{kind: "clear"}
			}
		}
		return verdict{kind: "clear"}
	case "tran", "files", "peers":
		if len(a) == 1 {
			return verdict{kind: "show"}
		}
		return verdict{kind: "other"}
	case "get", "take", "getdir", "put", "give", "putblind", "delete":
		if len(a) == 1 {
			return verdict{kind: "show"}
		}
		if len(a) != 3 {
			return verdict{kind: "invalid"}
		}
		return verdict{kind: "other"}
	case "beacon":
		if len(a) == 1 {
			return verdict{kind: "show"}
		}
		return verdict{kind: "other"}
	case "rmtran":
		return verdict{kind: "invalid"} // none of those asked for exists
	case "home", "ls":
		if len(a) > 1 {
			return verdict{kind: "invalid"}
		}
	}
	return verdict{kind: "other"}
}

func names() (out []string) {
	for k := range sarflags.Commands {
		out = append(out, k)
	}
	return
}

// flush shows what is still queued for the screen.
func flush() {
	q := queued
	queued = nil
	for _, f := range q {
		f(gui)
	}
}

// output runs what was queued for the screen and gives what it shows.
func output(c *mc.Ctx, what string) (string, bool) {
	for _, n := range views {
		v, err := gui.View(n)
		must(err)
		v.Clear()
	}
	q := queued
	queued = nil
	c.Must("showing the output of "+what, func() {
		for _, f := range q {
			if err := f(gui); err != nil {
				panic(err)
			}
		}
	})
	var b strings.Builder
	for _, n := range views {
		v, _ := gui.View(n)
		b.WriteString(v.Buffer())
		if n == "err" {
			complaint = strings.TrimSpace(esc.ReplaceAllString(v.Buffer(), ""))
		}
	}
	return b.String(), len(q) > 0
}

// complaint is what the last line left in the window for errors.
var complaint string

var esc = regexp.MustCompile("\x1b\\[[0-9;]*m")

func tables() string {
	var b strings.Builder
	for _, v := range h.Rows(sarwin.Transfers) {
		fmt.Fprintf(&b, "%v %d %v %v %v|", v.FieldByName("Direction"), v.FieldByName("Session").Uint(), v.FieldByName("Peer").Interface(), v.FieldByName("Ttype"), v.FieldByName("Filename"))
	}
	for _, v := range h.Rows(beacon.Peers) {
		fmt.Fprintf(&b, "%v %v|", v.FieldByName("Addr"), v.FieldByName("Eid"))
	}
	var keys []string
	for k, v := range sarflags.Commands {
		keys = append(keys, k+v.Usage+v.Help)
	}
	sort.Strings(keys)
	b.WriteString(strings.Join(keys, "|"))
	return b.String()
}

func deepEq(a, b *settings) bool { return a.exit == b.exit && reflect.DeepEqual(a.f, b.f) }

// one runs a line and judges it.
func one(c *mc.Ctx, s *settings, line string) {
	want := s.clone()
	v := spec(want, line)
	tabs := tables()
	flush()
	var ok bool
	r := c.Sched(vs.Config{}, func() { ok = sarwin.Run(gui, line) })
	c.Op(1)
	c.Logf("> %s", line)
	if r.Crash != "" || r.Died {
		c.Fail("ends", "the line %q ends the program: %s\n%s", line, r.Crash, r.Stack)
	}
	if r.Livelock {
		c.Fail("hangs", "the line %q never finishes", line)
	}
	a := strings.Fields(line)
	for _, b := range r.Blocked {
		switch {
		case (b.Kind == vs.KRecv || b.Kind == vs.KIdle) && (a[0] == "put" || a[0] == "putblind" || a[0] == "give" || a[0] == "delete"):
			// the transfer itself is unfinished and waits for ever
		default:
			c.Fail("hangs", "the line %q hangs in %s (%s)", line, b.Kind, b.Desc)
		}
	}
	text, said := output(c, line)
	text = esc.ReplaceAllString(text, "")
	if strings.TrimSpace(text) != "" {
		c.Logf("%s", strings.TrimSpace(text))
	}
	if !ok && v.kind != "invalid" && v.kind != "none" {
		c.Fail("unknown", "the line %q is taken for no command", line)
	}
	got := now()
	if !deepEq(got, want) {
		sig := "changed"
		if v.kind == "set" {
			sig = "set"
		}
		c.Fail(sig+"-"+a[0], "after the line %q (%s) the settings are\n%v\nand not\n%v\nbefore it they were\n%v", line, v.kind, got, want, s)
	}
	if (v.kind == "set" || v.kind == "show") && complaint != "" {
		c.Fail("complains", "the line %q is valid and an error is reported: %q", line, complaint)
	}
	switch v.kind {
	case "set": // nothing has to be said, but what is said is true
		for _, w := range v.want {
			if strings.TrimSpace(text) != "" && !strings.Contains(text, w) {
				c.Fail("says", "the line %q sets %s and says %q", line, w, text)
			}
		}
		if v.maybe != 0 && strings.TrimSpace(text) != "" && helper.MatchString(text) != (v.maybe == 1) {
			c.Fail("says", "the line %q says %q", line, text)
		}
	case "invalid":
		if !said || strings.TrimSpace(text) == "" {
			c.Fail("silent", "the line %q is invalid and nothing says so", line)
		}
	case "show":
		if strings.TrimSpace(text) == "" {
			c.Fail("shows", "the line %q shows nothing", line)
		}
		flat := strings.Join(strings.Fields(text), " ")
		for _, w := range v.want {
			if !strings.Contains(flat, strings.Join(strings.Fields(w), " ")) {
				c.Fail("shows", "the line %q shows %q, without %q", line, text, w)
			}
		}
		if v.maybe != 0 && helper.MatchString(text) != (v.maybe == 1) {
			c.Fail("shows", "the line %q shows %q, with the settings %v", line, text, s)
		}
	}
	switch a[0] {
	case "get", "take", "getdir", "put", "give", "putblind", "delete":
		if len(a) == 3 {
			break
		}
		fallthrough
	default:
		if t := tables(); t != tabs {
			c.Fail("tables", "the line %q changes the tables\n%s\nto\n%s", line, tabs, t)
		}
	}
	*s = *got
}

var lines = []string{
	"checksum", "checksum ?", "checksum off", "checksum none", "checksum crc32", "checksum md5", "checksum sha1", "checksum sha256", "checksum md5 sha1",
	"descriptor", "descriptor ?", "descriptor auto", "descriptor d16", "descriptor d32", "descriptor d64", "descriptor d128", "descriptor 16", "descriptor d16 d32",
	"freespace", "freespace ?", "freespace yes", "freespace no", "freespace maybe", "freespace yes no",
	"stream", "stream ?", "stream yes", "stream no", "stream on", "stream no yes",
	"reqtstamp", "reqtstamp ?", "reqtstamp yes", "reqtstamp no", "reqtstamp off", "reqtstamp no no",
	"rxwilling", "rxwilling ?", "rxwilling on", "rxwilling off", "rxwilling capable", "rxwilling yes", "rxwilling on on",
	"txwilling", "txwilling ?", "txwilling on", "txwilling off", "txwilling capable", "txwilling invalid", "txwilling on on",
	"bcount", "bcount ?", "bcount 0", "bcount 1", "bcount 7", "bcount -1", "bcount x", "bcount 99999999999999999999", "bcount 1 2",
	"interval", "interval ?", "interval 0", "interval 1", "interval off", "interval 3600", "interval -5", "interval on", "interval 1 2",
	"timeout", "timeout ?", "timeout metadata", "timeout request", "timeout status", "timeout transfer", "timeout datacounter", "timeout binterval",
	"timeout metadata 0", "timeout request 0", "timeout status 0", "timeout transfer 0", "timeout datacounter 0",
	"timeout metadata 1", "timeout request 1", "timeout status 1", "timeout transfer 1", "timeout datacounter 1", "timeout metadata 11", "timeout request 12", "timeout status 13", "timeout transfer 14", "timeout datacounter 15",
	"timeout metadata off", "timeout request off", "timeout status off", "timeout transfer off", "timeout datacounter off",
	"timeout metadata -1", "timeout request x", "timeout status 1.5", "timeout transfer on", "timeout datacounter 99999999999999999999", "timeout binterval 5", "timeout bogus off", "timeout metadata 1 2",
	"timestamp", "timestamp ?", "timestamp off", "timestamp 32", "timestamp 64", "timestamp 32_32", "timestamp 64_32", "timestamp 32_y2k", "timestamp local", "timestamp posix32", "timestamp 128", "timestamp 32 64",
	"timezone", "timezone ?", "timezone utc", "timezone local", "timezone gmt", "timezone utc local",
	"exit ?", "exit", "exit 0", "exit 1", "exit 2", "quit", "quit 1", "quit 0 1",
	"help", "help ?", "?", "? ?", "usage", "tran", "tran put", "files", "peers", "peers ?", "beacon", "beacon ?", "beacon off", "clear", "clear msg", "clear err packet", "clear x",
	"history", "home", "home /", "ls", "cancel 1", "rmtran get 192.0.2.1:7542 1", "rmtran x", "bogus", "CHECKSUM md5", "checksumx md5", "  checksum\tcrc32  ",
}

// start gives the node one of several configurations.
func start(c *mc.Ctx, n int) *settings {
	h.Fresh()
	queued = nil
	k := 0
	if n > 1 {
		k = c.Pick("settings", n)
	}
	f := sarflags.Cliflag
	switch k {
	case 1:
		f.Global["csumtype"], f.Global["descriptor"], f.Global["freespace"], f.Global["stream"] = "sha1", "d16", "no", "yes"
		f.Global["reqtstamp"], f.Global["rxwilling"], f.Global["txwilling"] = "no", "no", "capable"
		f.Timestamp, f.Timezone, f.Bcount, f.Timeout.Binterval = "posix32_32", "local", 9, 0
		f.Timeout.Metadata, f.Timeout.Request, f.Timeout.Status, f.Timeout.Transfer, f.Timeout.Datacounter = 0, 0, 0, 0, 1
	case 2:
		f.Global["csumtype"], f.Global["descriptor"], f.Global["rxwilling"], f.Global["txwilling"] = "md5", "d32", "capable", "no"
		f.Timestamp, f.Bcount, f.Timeout.Binterval = "localinterp", 0, 77
		f.Timeout.Metadata, f.Timeout.Request, f.Timeout.Status, f.Timeout.Transfer, f.Timeout.Datacounter = 21, 22, 23, 24, 25
	}
	return now()
}

func sequences(depth, starts int, from []string) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		s := start(c, starts)
		for i := 0; i < depth; i++ {
			one(c, s, mc.Of(c, "line", from))
		}
	}
}

var tokens = []string{"?", "off", "on", "yes", "no", "0", "1", "-1", "v4", "v6", "all", "192.0.2.1", "fe80::1", "nohost", "%d%s%v", "\u00e9\u4e16", "msg", "get", "get:1", "\"", "..", "=", "\x00\x1b[2J"}

func cleanDir() {
	d, _ := os.ReadDir(h.Dir)
	for _, e := range d {
		must(os.RemoveAll(filepath.Join(h.Dir, e.Name())))
	}
}

// shapes: every command with up to n tokens of every sort
func shapes(n int, toks []string) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		s := start(c, 1)
		sarflags.Cliflag.Bcount = 1
		s.f.Bcount = 1
		defer cleanDir()
		var cmds []string
		for k := range sarflags.Commands {
			cmds = append(cmds, k)
		}
		sort.Strings(cmds)
		cmds = append(cmds, "nothing", "%s", "-", "exit1", ".")
		line := mc.Of(c, "command", cmds)
		k := c.Pick("tokens", n+1)
		for i := 0; i < k; i++ {
			line += " " + mc.Of(c, "token", toks)
		}
		if a := strings.Fields(line); a[0] == "getdir" && len(a) == 3 {
			c.Skip() // unfinished
		}
		one(c, s, line)
		// and the node still obeys
		one(c, s, "checksum crc32")
		one(c, s, "checksum")
	}
}

// long lines and many words
func long(c *mc.Ctx) {
	s := start(c, 1)
	sarflags.Cliflag.Bcount = 1
	s.f.Bcount = 1
	defer cleanDir()
	cmd := mc.Of(c, "command", []string{"checksum", "timeout", "beacon", "get", "put", "clear", "rmtran", "bogus", "descriptor", "exit", "history", "tran"})
	switch c.Pick("shape", 4) {
	case 0:
		one(c, s, cmd+" "+strings.Repeat("x", 5000))
	case 1:
		one(c, s, cmd+strings.Repeat(" off", 40))
	case 2:
		one(c, s, strings.Repeat(" ", 300)+cmd+strings.Repeat("\t", 300)+"zz")
	case 3:
		one(c, s, strings.Repeat(cmd, 400))
	}
	one(c, s, "timezone local")
}

// transfers: what starts and removes transfers by command
func transfers(depth int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		s := start(c, 1)
		defer cleanDir()
		must(os.WriteFile(filepath.Join(h.Dir, "have"), []byte("x"), 0o644))
		type tran struct {
			typ, peer, file string
			session         uint32
		}
		var live, all []tran
		list := func() (out []tran) {
			for _, v := range h.Rows(sarwin.Transfers) {
				out = append(out, tran{v.FieldByName("Ttype").String(), fmt.Sprint(v.FieldByName("Peer").Interface()), v.FieldByName("Filename").String(), uint32(v.FieldByName("Session").Uint())})
			}
			return
		}
		addrs := []string{"192.0.2.1", "192.0.2.11", "fe80::1"}
		full := []string{"192.0.2.1:7542", "192.0.2.11:7542", "[fe80::1]:7542"}
		for i := 0; i < depth; i++ {
			ops := 3
			if len(all) > 0 {
				ops = 4
			}
			var line string
			gone := -1
			start := ""
			op := c.Pick("operation", ops)
			switch op {
			case 0:
				start = mc.Of(c, "command", []string{"get", "take", "delete", "put"})
				p := c.Pick("peer", 3)
				file := mc.Of(c, "file", []string{"new", "have"})
				line = start + " " + addrs[p] + " " + file
				ok := true
				for _, t := range live {
					if t.peer == full[p] && t.file == file {
						ok = false
					}
				}
				_, err := os.Stat(filepath.Join(h.Dir, file))
				switch start {
				case "get", "take":
					ok = ok && err != nil
				case "put":
					ok = ok && err == nil
				}
				if ok {
					live = append(live, tran{start, full[p], file, 0})
				} else {
					start = "-"
				}
			case 1:
				line = mc.Of(c, "line", []string{"tran", "files", "tran put", "get", "rmtran get 192.0.2.1:7542 1", "rmtran get 192.0.2.1:7542 x", "checksum md5"})
			case 2:
				line = "get nosuchhost new"
			case 3:
				k := c.Pick("transfer", len(all))
				t := all[k]
				peer := t.peer
				if c.Bool("elsewhere") {
					peer = "192.0.2.99:7542"
				}
				num := fmt.Sprint(t.session)
				exact := true
				switch c.Pick("number", 7) {
				case 1:
					num, exact = fmt.Sprint(t.session+1<<24), false
				case 2:
					num, exact = fmt.Sprint(uint64(t.session)+1<<32), false
				case 3:
					num, exact = "-"+num, false
				case 4:
					num = "00" + num
				case 5:
					num, exact = fmt.Sprint(t.session^1<<31), false
				case 6:
					num, exact = num[:len(num)-1], false
				}
				line = fmt.Sprintf("rmtran %s %s %s", t.typ, peer, num)
				for j := range live {
					if exact && live[j].peer == peer && live[j].session == t.session {
						gone = j
					}
				}
			}
			want := s.clone()
			if op == 1 {
				spec(want, line)
			}
			flush()
			r := c.Sched(vs.Config{}, func() { sarwin.Run(gui, line) })
			c.Op(1)
			if r.Crash != "" || r.Livelock {
				c.Fail("ends", "the line %q ends the program: %s\n%s", line, r.Crash, r.Stack)
			}
			for _, b := range r.Blocked {
				if b.Kind != vs.KRecv && b.Kind != vs.KIdle {
					c.Fail("hangs", "the line %q hangs in %s (%s)", line, b.Kind, b.Desc)
				}
			}
			text, _ := output(c, line)
			text = esc.ReplaceAllString(text, "")
			c.Logf("> %s\n%s", line, text)
			if gone >= 0 {
				live = append(append([]tran(nil), live[:gone]...), live[gone+1:]...)
			} else if (op == 3 || op == 2 || start == "-") && strings.TrimSpace(text) == "" {
				c.Fail("silent", "the line %q is refused and nothing says so", line)
			}
			got := list()
			sess := map[uint32]bool{}
			match := len(got) == len(live)
			for j := range live {
				found := false
				for _, t := range got {
					if t.typ == live[j].typ && t.peer == live[j].peer && t.file == live[j].file && (live[j].session == 0 || live[j].session == t.session) && !sess[t.session] {
						found = true
						sess[t.session] = true
						if live[j].session == 0 {
							live[j].session = t.session
							all = append(all, t)
						}
						break
					}
				}
				match = match && found
			}
			if !match {
				c.Fail("transfers", "after the line %q the transfers are %v and not %v", line, got, live)
			}
			if line == "tran" || line == "files" {
				for _, t := range live {
					if !strings.Contains(text, t.file) || !strings.Contains(text, t.peer) {
						c.Fail("shows", "%q does not show %v:\n%s", line, t, text)
					}
				}
			}
			if n := now(); !deepEq(n, want) {
				c.Fail("changed-transfers", "after the line %q the settings are\n%v\nand not\n%v", line, n, want)
			}
			s = now()
		}
	}
}

// typed: lines as they are typed at the prompt
func typed(lens int, first []string) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		s := start(c, 1)
		sarwin.FirstPass = true
		sarwin.Cinfo.Prompt, sarwin.Cinfo.Ppad = s.f.Prompt, s.f.Ppad
		defer cleanDir()
		g, err := gocui.NewGui(gocui.OutputNormal)
		must(err)
		g.SetManagerFunc(sarwin.Layout)
		drain := func(what string) {
			c.Must(what, func() {
				for len(queued) > 0 {
					f := queued[0]
					queued = queued[1:]
					if err := f(g); err != nil {
						panic(err)
					}
				}
				must(g.Redraw())
			})
		}
		c.Must("the first layout", func() { must(g.Redraw()) })
		drain("the first layout")
		for i := 0; i < lens; i++ {
			line := mc.Of(c, "line", first)
			var kept string
			want := s.clone()
			if strings.TrimSpace(line) != "" {
				spec(want, line)
			}
			a := strings.Fields(line)
			ends := len(a) > 0 && (a[0] == "exit" || a[0] == "quit") && (len(a) == 1 || len(a) == 2 && (a[1] == "0" || a[1] == "1"))
			var quits error
			r := c.Sched(vs.Config{}, func() {
				v, err := g.View("cmd")
				must(err)
				for _, ch := range line {
					v.EditWrite(ch)
				}
				_, cy := v.Cursor()
				kept, _ = v.Line(cy)
				quits = sarwin.GetLine(g, v)
			})
			c.Op(1)
			c.Logf("typed %q at %q", line, kept)
			if !strings.HasSuffix(kept, ":"+line) {
				c.Fail("taken", "typing %q puts %q in the window", line, kept)
			}
			if (r.Died || quits != nil) != ends || (!ends && r.Crash != "") {
				c.Fail("ends", "typing %q ends the program: %v (%s)\n%s", line, r.Died, r.Crash, r.Stack)
			}
			if ends {
				return
			}
			for _, b := range r.Blocked {
				if b.Kind != vs.KRecv && b.Kind != vs.KIdle {
					c.Fail("hangs", "typing %q hangs in %s (%s)", line, b.Kind, b.Desc)
				}
			}
			drain("the output of " + line)
			if vlog.Deaths > 0 {
				c.Fail("ends", "typing %q ends the program", line)
			}
			got := now()
			if !deepEq(got, want) {
				c.Fail("typed", "after typing %q the settings are\n%v\nand not\n%v", line, got, want)
			}
			s = got
		}
	}
}

// together: commands entered without waiting for each other
func together(n, preempt int, from []string) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		s := start(c, 1)
		var ls []string
		for i := 0; i < n; i++ {
			ls = append(ls, mc.Of(c, "line", from))
		}
		r := c.Sched(vs.Config{Preempt: preempt, FreeSwitch: true}, func() {
			for _, l := range ls {
				sarwin.Run(gui, l)
			}
		})
		c.Op(1)
		if r.Crash != "" || r.Livelock || len(r.Blocked) > 0 {
			c.Fail("together", "the lines %q: %s %v\n%s", ls, r.Crash, r.Blocked, r.Stack)
		}
		output(c, fmt.Sprint(ls))
		got := now()
		var wants []string
		var try func(left []string, s *settings) bool
		try = func(left []string, s *settings) bool {
			if len(left) == 0 {
				wants = append(wants, s.String())
				return deepEq(s, got)
			}
			for i := range left {
				n := s.clone()
				spec(n, left[i])
				rest := append(append([]string(nil), left[:i]...), left[i+1:]...)
				if try(rest, n) {
					return true
				}
			}
			return false
		}
		if !try(ls, s) {
			c.Fail("together", "the lines %q together give\n%v\nwhich no order gives:\n%s", ls, got, strings.Join(wants, "\n"))
		}
	}
}

// words: every setting with words that are nearly those it takes
func words(c *mc.Ctx) {
	s := start(c, 3)
	cmd := mc.Of(c, "command", []string{"checksum", "descriptor", "freespace", "stream", "reqtstamp", "rxwilling", "txwilling", "bcount", "interval", "timestamp", "timezone", "exit", "quit",
		"timeout", "timeout metadata", "timeout request", "timeout status", "timeout transfer", "timeout datacounter"})
	w := mc.Of(c, "word", []string{"yes", "no", "on", "off", "capable", "invalid", "auto", "d16", "d32", "d64", "d128", "none", "crc32", "md5", "sha1", "utc", "local", "posix32", "localinterp",
		"32", "64", "32_32", "64_32", "32_y2k", "0", "1", "255", "65536", "2147483648", "4294967296", "metadata", "request", "status", "transfer", "datacounter", "binterval"})
	switch k := c.Pick("changed", 12); k {
	case 1:
		w = w[:1]
	case 2:
		w = w[:len(w)-1]
	case 3:
		w = strings.ToUpper(w)
	case 4:
		w = strings.ToUpper(w[:1]) + w[1:]
	case 5:
		w += w[len(w)-1:]
	case 6:
		w += "s"
	case 7:
		w += "="
	case 8:
		w += ",no"
	case 9:
		w = w[1:]
	case 10:
		w = "0" + w
	case 11:
		w = "x" + w
	}
	if w == "" || cmd == "interval" && strings.TrimSpace(w) == "" {
		c.Skip()
	}
	one(c, s, cmd+" "+w)
}

func main() {
	_ = vnet.Reset
	pairs := []string{"checksum md5", "checksum none", "checksum", "descriptor d16", "timestamp 32", "timestamp off", "reqtstamp yes", "timeout status 5", "timeout datacounter 0", "timeout", "bcount 4", "interval off", "timezone local", "freespace no", "rxwilling capable", "txwilling off", "stream yes", "beacon 192.0.2.1", "get 192.0.2.1 n"}
	typing := append([]string{"", " ", "a:b", "exit", "quit", " exit", "exit 1", "quit?", "checksum ?", "get 192.0.2.1 n", "put 192.0.2.1 none", "rmtran put 192.0.2.1:1 1", "beacon v4", "clear", "%d"}, pairs...)
	mc.Main(&mc.Check{ID: "C21", Setup: setup,
		Assume: []string{
			"a line counts as refused when anything at all is shown for it",
			"carrying a transfer out (put, give, putblind, delete) is unfinished in the program; those commands are taken up to that point",
			"fetching directories is unfinished and not asked for",
			"the terminal is a stand-in; lines too long for its window are not typed but given to the interpreter",
		},
		Scenarios: []mc.Scenario{
			{Name: "lines", Bounds: fmt.Sprintf("each of %d lines, from 3 sets of settings", len(lines)), Run: sequences(1, 3, lines)},
			{Name: "pairs", Bounds: fmt.Sprintf("all sequences of 2 of %d lines, from 3 sets of settings", len(lines)), Run: sequences(2, 3, lines)},
			{Name: "shapes", Bounds: fmt.Sprintf("every command and 5 other words with up to 2 of %d tokens", len(tokens)), Run: shapes(2, tokens)},
			{Name: "shapes-3", Bounds: "every command and 5 other words with up to 3 of 8 tokens", Run: shapes(3, []string{"?", "off", "1", "-1", "192.0.2.1", "%d", "v4", "metadata"})},
			{Name: "words", Bounds: "19 commands with 36 words in 12 spellings each, from 3 sets of settings", Run: words},
			{Name: "long", Bounds: "12 commands x 4 shapes of overlong lines", Run: long},
			{Name: "typed", Bounds: fmt.Sprintf("all sequences of 2 of %d lines typed at the prompt", len(typing)), Run: typed(2, typing)},
			{Name: "together", Bounds: fmt.Sprintf("all pairs of %d lines entered at once, all schedules up to 2 preemptions", len(pairs)), Run: together(2, 2, pairs)},
			{Name: "transfers", Bounds: "all sequences of 3 commands that start (4 kinds, 3 peers, 2 files), list and remove transfers", Run: transfers(3)},
			{Name: "triples", Bounds: fmt.Sprintf("all sequences of 3 of %d lines", len(lines)), Run: sequences(3, 1, lines), Thorough: true},
			{Name: "transfers-4", Bounds: "all sequences of 4 commands that start (4 kinds, 3 peers, 2 files), list and remove transfers", Run: transfers(4), Thorough: true},
			{Name: "together-3", Bounds: "all triples of 9 lines entered at once, all schedules up to 2 preemptions", Run: together(3, 2, pairs[:9]), Thorough: true},
			{Name: "shapes-3-wide", Bounds: "every command and 5 other words with up to 3 of 14 tokens", Run: shapes(3, tokens[:14]), Thorough: true},
		}})
}
