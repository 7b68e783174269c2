// C27: the node starts exactly as configured, or ends telling why.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
	realsyscall "syscall"

	sarmain "github.com/charlesetsmith/saratoga/saratoga"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/jroimartin/gocui"
	"github.com/jroimartin/gocui/termbox"

	"verif/checks/h"
	"verif/checks/node"
	"verif/mc"
	"verif/vlog"
	"verif/vnet"
	"verif/vos"
	"verif/vs"
	"verif/vsyscall"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var shipped map[string]any

func setup(c *mc.Ctx) {
	h.Setup(c)
	b, err := os.ReadFile(h.Conf())
	must(err)
	must(json.Unmarshal(b, &shipped))
	work = filepath.Join(c.Dir(), "work")
	must(os.MkdirAll(filepath.Join(work, "in", "deep"), 0o755))
	for _, d := range []string{work, h.Dir, filepath.Join(work, "in"), filepath.Join(work, "in", "deep")} {
		must(os.WriteFile(filepath.Join(d, name(d)), []byte("x"), 0o644))
	}
	must(os.WriteFile(filepath.Join(work, "plain"), []byte("x"), 0o644))
	must(os.Symlink(filepath.Join(work, "in"), filepath.Join(work, "link")))
}

// work is where the program is started.
var work string

// name of a file that is only in that directory
func name(dir string) string { return "only-" + filepath.Base(dir) }

// start is how the program is started.
type start struct {
	args   []string       // without the name of the program; nil: configuration and iface
	conf   map[string]any // changed settings
	raw    []byte         // the configuration file, if not made from conf
	noconf string         // a name to give instead of that of the file
	env    string         // SARDIR
	iface  string         // on the command line
	mtu    map[string]int // of the interfaces
	stat   func(string) error
	bavail uint64
	bsize  int64
	flags  vnet.Flags
	in     []node.In
	tail   map[bool]error // reading the IPv6 (true), IPv4 socket fails after the datagrams
	ui     *error         // the user interface ends
	what   string
	cfg    vs.Config
}

type opt struct {
	level, opt, value int
}

// run is what came of it.
type run struct {
	res      *vs.Result
	returned bool
	socks    []*vnet.UDPConn
	opts     map[*vnet.UDPConn][]opt
	handed   []node.Handed
	out      string // printed and logged
	died     string
	kept     bool // the terminal was still taken when it ended
	panicked bool
	cwd      string
	read     map[bool]int // datagrams read
	shown    []func(*gocui.Gui) error
	gui      *gocui.Gui
	loop     *gocui.Gui // the user interface that is run
}

func (r *run) ended() bool { return r.returned || r.res.Died }

func v6of(k *vnet.UDPConn) bool {
	return k.Net == "udp6" || (k.Laddr != nil && k.Laddr.IP.To4() == nil && len(k.Laddr.IP) == 16)
}

// hooks for failures
type hooks struct {
	ifaces error
	listen func(*vnet.UDPConn) error
	file   func(*vnet.UDPConn) error
	sock   func(k *vnet.UDPConn, o opt) error
	term   func() error
}

func do(c *mc.Ctx, s *start, hk hooks) *run {
	h.Fresh()
	r := &run{opts: map[*vnet.UDPConn][]opt{}, read: map[bool]int{}}
	must(os.Chdir(work))
	defer func() { must(os.Chdir(h.Dir)) }()
	conf := filepath.Join(work, "conf.json")
	if s.raw != nil {
		must(os.WriteFile(conf, s.raw, 0o644))
	} else {
		m := map[string]any{}
		for k, v := range shipped {
			m[k] = v
		}
		m["sardir"] = h.Dir
		for k, v := range s.conf {
			if v == nil {
				delete(m, k)
			} else {
				m[k] = v
			}
		}
		b, err := json.Marshal(m)
		must(err)
		must(os.WriteFile(conf, b, 0o644))
	}
	if s.env != "" {
		os.Setenv("SARDIR", s.env)
		defer os.Unsetenv("SARDIR")
	}
	if s.iface == "" {
		s.iface = "en0"
	}
	if s.bsize == 0 {
		s.bsize = 4096
	}
	vos.Args = []string{"saratoga", "conf.json", s.iface}
	if s.noconf != "" {
		vos.Args[1] = s.noconf
	}
	if s.args != nil {
		vos.Args = append([]string{"saratoga"}, s.args...)
	}
	vnet.Ifaces = []vnet.Interface{
		{Index: 1001, MTU: 65536, Name: "lo", Flags: vnet.FlagUp | vnet.FlagLoopback | vnet.FlagMulticast},
		{Index: 1002, MTU: 1500, Name: "en0", Flags: vnet.FlagUp | vnet.FlagMulticast},
		{Index: 1003, MTU: 9000, Name: "en1", Flags: vnet.FlagUp | vnet.FlagMulticast},
	}
	for i := range vnet.Ifaces {
		if vnet.Ifaces[i].Name == s.iface && s.flags != 0 {
			vnet.Ifaces[i].Flags = s.flags
		}
		if m, ok := s.mtu[vnet.Ifaces[i].Name]; ok {
			vnet.Ifaces[i].MTU = m
		}
	}
	vsyscall.StatfsHook = func(path string, st *vsyscall.Statfs_t) error {
		if s.stat != nil {
			if err := s.stat(path); err != nil {
				return err
			}
		}
		if _, err := os.Stat(path); err != nil {
			return realsyscall.ENOENT
		}
		*st = vsyscall.Statfs_t{Bsize: s.bsize, Frsize: s.bsize, Bavail: 1000 + s.bavail, Bfree: 5000 + s.bavail, Blocks: 1 << 30}
		return nil
	}
	vnet.ListenErr, vnet.FileErr, vnet.IfacesErr = hk.listen, hk.file, hk.ifaces
	vsyscall.SockoptHook = func(fd, level, o, value int) error {
		k := vnet.Fds[fd]
		if k == nil {
			return realsyscall.EBADF
		}
		if hk.sock != nil {
			if err := hk.sock(k, opt{level, o, value}); err != nil {
				return err
			}
		}
		r.opts[k] = append(r.opts[k], opt{level, o, value})
		return nil
	}
	termbox.Open, termbox.InitHook = false, hk.term
	vnet.OnListen = func(k *vnet.UDPConn) {
		r.socks = append(r.socks, k)
		for _, d := range s.in {
			if d.V6 == v6of(k) {
				k.Inject(d.From, d.Data)
			}
		}
		if err := s.tail[v6of(k)]; err != nil {
			k.Fail(err)
		}
	}
	gocui.UpdateHook = func(g *gocui.Gui, f func(*gocui.Gui) error) { r.shown = append(r.shown, f); r.gui = g }
	gocui.MainLoopHook = func(g *gocui.Gui) error {
		r.loop = g
		if s.ui != nil {
			return *s.ui
		}
		vs.Block(vs.KIdle, "user interface", func() bool { return false })
		return nil
	}
	first := true
	vlog.OnDie = func(msg string) {
		if first {
			first = false
			r.kept, r.died = termbox.Open, msg
		}
	}
	var buf bytes.Buffer
	log.SetOutput(&buf)
	outf, err := os.Create(filepath.Join(work, "out"))
	must(err)
	stdout := os.Stdout
	cfg := s.cfg
	cfg.OnRecv = func(t *vs.Task, ch, v any) {
		if kind, addr, info, ok := node.Describe(v); ok {
			r.handed = append(r.handed, node.Handed{Kind: kind, Addr: addr, Info: info, V: v, Task: t.ID, Ch: ch})
		}
	}
	os.Stdout = outf
	func() {
		defer func() {
			os.Stdout = stdout
			log.SetOutput(io.Discard)
			vlog.OnDie = nil
			vsyscall.SockoptHook = nil
			termbox.InitHook = nil
		}()
		r.res = c.Sched(cfg, func() {
			sarmain.Main()
			r.returned = true
			first = false
			r.kept = termbox.Open
		})
	}()
	outf.Close()
	b, err := os.ReadFile(filepath.Join(work, "out"))
	must(err)
	r.out = string(b) + buf.String() + r.died
	r.cwd, _ = os.Getwd()
	for _, k := range r.socks {
		n := 0
		for _, d := range s.in {
			if d.V6 == v6of(k) {
				n++
			}
		}
		r.read[v6of(k)] += n - k.Pending()
	}
	c.Op(1)
	return r
}

// screen shows the messages and gives what stands in the window.
func (r *run) screen(c *mc.Ctx) string {
	if r.gui == nil {
		return ""
	}
	var out string
	c.Must("showing the messages", func() {
		if err := r.gui.Redraw(); err != nil {
			panic(err)
		}
		for _, f := range r.shown {
			if err := f(r.gui); err != nil {
				panic(err)
			}
		}
		v, err := r.gui.View("msg")
		if err != nil {
			panic(err)
		}
		out = v.Buffer()
	})
	return out
}

func (r *run) sane(c *mc.Ctx, what string) {
	if r.res.Crash != "" && !r.res.Died {
		c.Fail("crash", "%s: the program crashes: %s\n%s", what, r.res.Crash, r.res.Stack)
	}
	if r.res.Livelock {
		c.Fail("livelock", "%s: the program does not come to rest", what)
	}
	if r.ended() && r.kept {
		c.Fail("terminal", "%s: the terminal is not given back when the program ends: %s", what, r.out)
	}
}

func probes(file string) []node.In {
	var in []node.In
	for i, v6 := range []bool{false, true} {
		from := node.V4[0]
		if v6 {
			from = node.V6[0]
		}
		in = append(in, node.In{Name: "get", V6: v6, From: from, Data: node.Request(uint32(77+i), "get", file, "rxwilling", "yes", "txwilling", "yes")},
			node.In{Name: "status", V6: v6, From: from, Data: node.Good()["status"]})
	}
	return in
}

func wantOpts(v6 bool) []opt {
	o := opt{realsyscall.IPPROTO_IP, realsyscall.IP_MULTICAST_LOOP, 1}
	if v6 {
		o = opt{realsyscall.IPPROTO_IPV6, realsyscall.IPV6_MULTICAST_LOOP, 1}
	}
	return []opt{o, {realsyscall.SOL_SOCKET, realsyscall.SO_REUSEADDR, 1}, {realsyscall.SOL_SOCKET, vsyscall.SO_REUSEPORT, 1}}
}

// serves checks that the program runs as it was asked to.
func serves(c *mc.Ctx, s *start, r *run, dir string, v4, v6 string, port, mtu int) {
	what := s.what
	r.sane(c, what)
	if r.ended() {
		c.Fail("ends", "%s: the program ends: %s", what, r.out)
	}
	if d := r.res.Deadlocked(); len(d) > 0 {
		c.Fail("deadlock", "%s: hangs: %v", what, d)
	}
	if len(r.socks) != 2 {
		c.Fail("sockets", "%s: %d sockets are opened", what, len(r.socks))
	}
	seen := map[bool]bool{}
	for _, k := range r.socks {
		is6 := v6of(k)
		want := v4
		if is6 {
			want = v6
		}
		if seen[is6] || !k.Mcast || !k.Laddr.IP.Equal(vnet.ParseIP(want)) || k.Laddr.Port != port {
			c.Fail("group", "%s: a socket listens on %s, not on %s port %d", what, k.Laddr, want, port)
		}
		seen[is6] = true
		if k.Ifi == nil || k.Ifi.Name != s.iface {
			c.Fail("interface", "%s: the group %s is joined on %v", what, want, k.Ifi)
		}
		if k.Closed {
			c.Fail("closed", "%s: the socket of %s is closed", what, want)
		}
		for _, o := range wantOpts(is6) {
			n := 0
			for _, g := range r.opts[k] {
				if g.level == o.level && g.opt == o.opt {
					n = g.value
				}
			}
			if n != 1 {
				c.Fail("options", "%s: the options of the socket of %s are %v", what, want, r.opts[k])
			}
		}
	}
	if sarflags.Mtu() != mtu {
		c.Fail("mtu", "%s: the MTU is %d, not %d", what, sarflags.Mtu(), mtu)
	}
	if got, _ := filepath.EvalSymlinks(r.cwd); got != resolved(dir) {
		c.Fail("directory", "%s: works in %s, not in %s", what, r.cwd, dir)
	}
	// every datagram arrives, and the files are those of the directory
	for _, d := range s.in {
		w := node.Classify(d.Data)
		n := 0
		for _, g := range r.handed {
			if g.Addr == d.From.String() && g.Kind == w.Kind && g.Info == w.Info {
				n++
			}
		}
		if n != 1 {
			c.Fail("serve", "%s: %s from %s is handed on %d times", what, d.Name, d.From, n)
		}
		if d.Name == "get" {
			ses := uint32(d.Data[4])<<24 | uint32(d.Data[5])<<16 | uint32(d.Data[6])<<8 | uint32(d.Data[7])
			ec := ""
			for _, g := range r.handed {
				if p, ok := g.V.(status.Packet); ok && g.Addr == d.From.String() && p.Info.Session == ses {
					ec = h.F("errcode").NameOf(h.F("errcode").Get(32, p.Info.Header))
				}
			}
			if ec != "success" {
				c.Fail("files", "%s: the request for a file of the transfer directory is answered %q", what, ec)
			}
		}
	}
	text := r.screen(c)
	// the user interface that runs has windows and obeys the keyboard
	if r.loop == nil {
		c.Fail("interface", "%s: no user interface runs", what)
	}
	if v, err := r.loop.View("cmd"); err != nil {
		c.Fail("interface", "%s: there is no command window: %v", what, err)
	} else {
		before := v.Buffer()
		c.Must("typing", func() { err = r.loop.Press(0, 'x') })
		if err != nil || v.Buffer() == before {
			c.Fail("interface", "%s: what is typed does not appear: %v %q", what, err, v.Buffer())
		}
		c.Must("typing", func() { err = r.loop.Press(gocui.KeyCtrlC, 0) })
		if err != gocui.ErrQuit {
			c.Fail("interface", "%s: Ctrl-C gives %v", what, err)
		}
	}
	for _, t := range []string{fmt.Sprintf("MTU %d", mtu), s.iface, fmt.Sprintf("%d MB", uint64(s.bsize)*(1000+s.bavail)/1024/1024),
		(&vnet.UDPAddr{IP: vnet.ParseIP(v4), Port: port}).String(), (&vnet.UDPAddr{IP: vnet.ParseIP(v6), Port: port}).String()} {
		if !strings.Contains(text, t) {
			c.Fail("shown", "%s: %q is not shown, but\n%s", what, t, text)
		}
	}
	if d, _ := s.conf["sardir"].(string); !strings.Contains(text, filepath.Base(dir)) && (d == "" || !strings.Contains(text, "is "+d+"\n")) && (s.env == "" || !strings.Contains(text, "is "+s.env+"\n")) {
		c.Fail("shown", "%s: the transfer directory is not shown, but\n%s", what, text)
	}
	if p, ok := s.conf["prompt"].(string); ok {
		if sarwin.Cinfo.Prompt != p || sarwin.Cinfo.Ppad != s.conf["ppad"].(int) {
			c.Fail("prompt", "%s: the prompt is %q and its padding %d", what, sarwin.Cinfo.Prompt, sarwin.Cinfo.Ppad)
		}
	}
}

func resolved(p string) string {
	if !filepath.IsAbs(p) {
		p = filepath.Join(work, p)
	}
	q, err := filepath.EvalSymlinks(p)
	must(err)
	return q
}

var (
	groups4 = []string{"224.0.0.108", "239.255.1.2", "224.0.1.1"}
	groups6 = []string{"ff02::6c", "FF02:0:0:0:0:0:0:6c", "ff05::1:3", "ff01::1"}
	ports   = []int{7542, 1, 5000, 65535}
	mtus    = []int{1500, 68 + 200, 576, 9000, 65535, 65536}
)

// network: every combination of groups, port, interface and its MTU
func network(c *mc.Ctx) {
	v4, v6 := mc.Of(c, "v4", groups4), mc.Of(c, "v6", groups6)
	port := mc.Of(c, "port", ports)
	ifn := mc.Of(c, "interface", []string{"en0", "lo", "en1"})
	mtu := mc.Of(c, "mtu", mtus)
	s := &start{iface: ifn, conf: map[string]any{"v4multicast": v4, "v6multicast": v6, "udpport": port}, mtu: map[string]int{ifn: mtu},
		in: probes(name(h.Dir)), what: fmt.Sprintf("%s %s port %d on %s with MTU %d", v4, v6, port, ifn, mtu)}
	s.flags = mc.Of(c, "flags", []vnet.Flags{vnet.FlagUp | vnet.FlagMulticast, vnet.FlagUp, vnet.FlagMulticast, vnet.FlagUp | vnet.FlagLoopback, vnet.FlagUp | vnet.FlagPointToPoint | vnet.FlagMulticast})
	serves(c, s, do(c, s, hooks{}), h.Dir, v4, v6, port, mtu)
}

// place: the transfer directory named in every way
func place(c *mc.Ctx) {
	abs := work
	dirs := []string{h.Dir, abs, abs + "/", abs + "/in", abs + "/in/", abs + "/link", abs + "/in/../in/deep", abs + "/./in",
		"in", "./in", "in/", "in/deep", "link", ".", "..", "../work/in", "in/..", "link/deep", "./", "../sardir"}
	d := mc.Of(c, "directory", dirs)
	env := c.Pick("named in", 3)
	s := &start{conf: map[string]any{"sardir": d}, bavail: []uint64{0, 24, 1 << 20}[c.Pick("free", 3)]}
	switch env {
	case 1:
		s.env, s.conf["sardir"] = d, abs+"/nowhere"
	case 2:
		s.env, s.conf["sardir"] = d, h.Dir
	}
	s.conf["prompt"] = []string{"saratoga", "", "x y"}[c.Pick("prompt", 3)]
	s.conf["ppad"] = []int{3, 0}[c.Pick("ppad", 2)]
	real := resolved(d)
	s.in = probes(name(real))
	if real == filepath.Dir(work) {
		s.in = nil
	}
	s.what = fmt.Sprintf("directory %q (SARDIR=%q)", d, s.env)
	serves(c, s, do(c, s, hooks{}), real, "224.0.0.108", "ff02::6c", 7542, 1500)
}

// space: blocks of every size, some and many free
func space(c *mc.Ctx) {
	s := &start{in: probes(name(h.Dir)), bsize: mc.Of(c, "block", []int64{512, 1000, 1024, 4096, 5000, 65536, 1 << 20}), bavail: mc.Of(c, "free", []uint64{0, 1, 1047, 1048, 1049, 3000, 1 << 20, 1<<20 + 1, 1 << 32, 1<<32 + 7, 1 << 42})}
	s.what = fmt.Sprintf("%d blocks of %d free", 1000+s.bavail, s.bsize)
	serves(c, s, do(c, s, hooks{}), h.Dir, "224.0.0.108", "ff02::6c", 7542, 1500)
}

type fault struct {
	name  string
	cause []string // one of these is told
	set   func(s *start, hk *hooks)
}

func set(k string, v any) func(*start, *hooks) {
	return func(s *start, hk *hooks) {
		if s.conf == nil {
			s.conf = map[string]any{}
		}
		s.conf[k] = v
	}
}

func faults() []fault {
	f := []fault{
		{"no arguments", []string{"usage"}, func(s *start, hk *hooks) { s.args = []string{} }},
		{"one argument", []string{"usage"}, func(s *start, hk *hooks) { s.args = []string{"conf.json"} }},
		{"three arguments", []string{"usage"}, func(s *start, hk *hooks) { s.args = []string{"conf.json", "en0", "x"} }},
		{"no such configuration", []string{"nothere.json"}, func(s *start, hk *hooks) { s.noconf = "nothere.json" }},
		{"a directory as configuration", []string{"in"}, func(s *start, hk *hooks) { s.noconf = "in" }},
		{"an empty configuration", []string{"conf.json"}, func(s *start, hk *hooks) { s.raw = []byte{} }},
		{"half a configuration", []string{"conf.json"}, func(s *start, hk *hooks) { b, _ := json.Marshal(shipped); s.raw = b[:len(b)/2] }},
		{"a configuration that is a list", []string{"conf.json"}, func(s *start, hk *hooks) { s.raw = []byte("[]") }},
		{"a port that is a text", []string{"conf.json"}, set("udpport", "7542")},
		{"a group that is a number", []string{"conf.json"}, set("v4multicast", 5)},
		{"an invalid descriptor", []string{"descriptor"}, set("descriptor", "d99")},
		{"no checksum type", []string{"csumtype"}, set("csumtype", nil)},
		{"no such directory", []string{"nowhere"}, set("sardir", "/nowhere/at/all")},
		{"a relative directory that does not exist", []string{"nowhere"}, set("sardir", "nowhere")},
		{"a file as directory", []string{"plain"}, set("sardir", "plain")},
		{"no directory", []string{"SARDIR", "directory"}, set("sardir", nil)},
		{"SARDIR does not exist", []string{"elsewhere"}, func(s *start, hk *hooks) { s.env = "/elsewhere" }},
		{"unknown free space", []string{"directory", "statfs trouble"}, func(s *start, hk *hooks) {
			s.stat = func(string) error { return errors.New("statfs trouble") }
		}},
		{"an interface with a space", []string{"en0 "}, func(s *start, hk *hooks) { s.iface = "en0 " }},
		{"an interface in capitals", []string{"EN0"}, func(s *start, hk *hooks) { s.iface = "EN0" }},
		{"half the name of an interface", []string{"en"}, func(s *start, hk *hooks) { s.iface = "en" }},
		{"no such interface", []string{"en7"}, func(s *start, hk *hooks) { s.iface = "en7" }},
		{"an interface without a name", []string{"interface"}, func(s *start, hk *hooks) { s.args = []string{"conf.json", ""} }},
		{"the interfaces cannot be listed", []string{"interface trouble"}, func(s *start, hk *hooks) { hk.ifaces = errors.New("interface trouble") }},
		{"no terminal", []string{"terminal trouble"}, func(s *start, hk *hooks) { hk.term = func() error { return errors.New("terminal trouble") } }},
		{"an IPv4 group that is none", []string{"10.1.2.3", "IPv4"}, set("v4multicast", "10.1.2.3")},
		{"an IPv4 group that is no address", []string{"IPv4"}, set("v4multicast", "somewhere")},
		{"an empty IPv4 group", []string{"IPv4"}, set("v4multicast", "")},
		{"no IPv4 group", []string{"IPv4"}, set("v4multicast", nil)},
		{"an IPv6 group as IPv4 group", []string{"IPv4"}, set("v4multicast", "ff02::6c")},
		{"an IPv6 group that is none", []string{"2001:db8::1", "IPv6"}, set("v6multicast", "2001:db8::1")},
		{"an IPv6 group that is no address", []string{"IPv6"}, set("v6multicast", "ff02::6cg")},
		{"no IPv6 group", []string{"IPv6"}, set("v6multicast", nil)},
		{"an IPv4 group as IPv6 group", []string{"IPv6"}, set("v6multicast", "224.0.0.108")},
		{"a port out of range", []string{"65536"}, set("udpport", 65536)},
		{"a negative port", []string{"-1"}, set("udpport", -1)},
	}
	for _, v6 := range []bool{false, true} {
		v6 := v6
		fam := map[bool]string{false: "IPv4", true: "IPv6"}[v6]
		f = append(f, fault{"the " + fam + " socket fails", []string{"listen trouble"}, func(s *start, hk *hooks) {
			old := hk.listen
			hk.listen = func(k *vnet.UDPConn) error {
				if v6of(k) == v6 {
					return errors.New("listen trouble")
				}
				if old != nil {
					return old(k)
				}
				return nil
			}
		}}, fault{"the " + fam + " socket has no descriptor", []string{"descriptor trouble", realsyscall.EBADF.Error(), realsyscall.EINVAL.Error()}, func(s *start, hk *hooks) {
			hk.file = func(k *vnet.UDPConn) error {
				if v6of(k) == v6 {
					return errors.New("descriptor trouble")
				}
				return nil
			}
		}})
		for _, e := range []realsyscall.Errno{realsyscall.EADDRINUSE, realsyscall.EACCES, realsyscall.ENODEV, realsyscall.EPERM, realsyscall.EINTR, realsyscall.EAFNOSUPPORT} {
			e := e
			f = append(f, fault{fmt.Sprintf("the %s socket fails (%v)", fam, e), []string{e.Error()}, func(s *start, hk *hooks) {
				old := hk.listen
				hk.listen = func(k *vnet.UDPConn) error {
					if v6of(k) == v6 {
						return e
					}
					if old != nil {
						return old(k)
					}
					return nil
				}
			}})
		}
		for i, o := range wantOpts(v6) {
			o := o
			for _, e := range []error{errors.New("option trouble"), realsyscall.EPERM, realsyscall.ENOPROTOOPT, realsyscall.EINVAL, realsyscall.EINTR} {
				e := e
				f = append(f, fault{fmt.Sprintf("option %d of the %s socket fails (%v)", i, fam, e), []string{e.Error()}, func(s *start, hk *hooks) {
					old := hk.sock
					hk.sock = func(k *vnet.UDPConn, g opt) error {
						if v6of(k) == v6 && g == o {
							return e
						}
						if old != nil {
							return old(k, g)
						}
						return nil
					}
				}})
			}
		}
	}
	return f
}

// refused: n things are wrong
func refused(n int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		all := faults()
		s := &start{}
		var hk hooks
		var causes, names []string
		prev := -1
		for i := 0; i < n; i++ {
			k := c.Pick("fault", len(all))
			if k <= prev {
				c.Skip()
			}
			prev = k
			all[k].set(s, &hk)
			causes = append(causes, all[k].cause...)
			names = append(names, all[k].name)
		}
		s.in = append(probes("x"), node.In{Name: "beacon", V6: true, From: node.V6[1], Data: node.Good()["beacon"]})
		s.what = strings.Join(names, ", ")
		r := do(c, s, hk)
		r.sane(c, s.what)
		if !r.ended() {
			c.Fail("goes on", "%s: the program goes on; it says\n%s", s.what, r.out)
		}
		for _, t := range causes {
			if strings.Contains(r.out, t) {
				return
			}
		}
		c.Fail("cause", "%s: the cause is not told: %q", s.what, r.out)
	}
}

// ends: the user interface or a listener ends while datagrams arrive, under all schedules
func ends(n4, n6, preempt int, frames []string) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		s := &start{tail: map[bool]error{}, cfg: vs.Config{Preempt: preempt, FreeSwitch: true}}
		var causes []string
		fault := c.Pick("fault", 7)
		ui := func(err error) { s.ui = &err }
		switch fault {
		case 0:
			ui(gocui.ErrQuit)
			causes = append(causes, "quit")
		case 1:
			ui(errors.New("screen trouble"))
			causes = append(causes, "screen trouble")
		case 2:
			ui(nil)
			causes = append(causes, "quit")
		case 3, 4:
			s.tail[fault == 4] = errors.New("read trouble")
			causes = append(causes, "read trouble")
		case 5:
			s.tail[false], s.tail[true] = errors.New("read trouble"), errors.New("read trouble")
			causes = append(causes, "read trouble")
		case 6:
			s.tail[false] = errors.New("read trouble")
			ui(gocui.ErrQuit)
			causes = append(causes, "read trouble", "quit")
		}
		for i := 0; i < n4; i++ {
			k := mc.Of(c, "v4", frames)
			s.in = append(s.in, node.In{Name: k, From: node.V4[i], Data: node.Good()[k]})
		}
		for i := 0; i < n6; i++ {
			k := mc.Of(c, "v6", frames)
			s.in = append(s.in, node.In{Name: k, V6: true, From: node.V6[i], Data: node.Good()[k]})
		}
		s.what = fmt.Sprintf("%s after %d and %d datagrams", []string{"quit", "the user interface fails", "the user interface ends", "the IPv4 listener fails", "the IPv6 listener fails", "both listeners fail", "quit and the IPv4 listener fails"}[fault], n4, n6)
		r := do(c, s, hooks{})
		r.sane(c, s.what)
		if !r.ended() {
			c.Fail("goes on", "%s: the program goes on: %v", s.what, r.res.Blocked)
		}
		told := false
		for _, t := range causes {
			told = told || strings.Contains(r.out, t)
		}
		if !told {
			c.Fail("cause", "%s: the cause is not told: %q", s.what, r.out)
		}
		if fault >= 3 {
			// a listener that has told of its failure has handed on all it read
			for _, v6 := range []bool{false, true} {
				if s.tail[v6] == nil || s.tail[!v6] != nil || s.ui != nil {
					continue
				}
				var want, got []string
				for _, d := range s.in {
					if d.V6 == v6 {
						want = append(want, node.Classify(d.Data).Info+" from "+d.From.String())
					}
				}
				for _, g := range r.handed {
					for _, w := range want {
						if w == g.Info+" from "+g.Addr {
							got = append(got, w)
							break
						}
					}
				}
				sort.Strings(want)
				sort.Strings(got)
				if strings.Join(got, "\n") != strings.Join(want, "\n") {
					c.Fail("lost", "%s: handed on are only\n%s\nof\n%s", s.what, strings.Join(got, "\n"), strings.Join(want, "\n"))
				}
			}
		}
		c.Op(1)
	}
}

func main() {
	two := []string{"beacon", "request", "data16"}
	five := append(two[:3:3], "metadata", "status")
	mc.Main(&mc.Check{ID: "C27", Setup: setup,
		Assume: []string{
			"the network, the terminal and the file system statistics are stand-ins that refuse what the real ones refuse: groups that are none or of the other family, ports out of range",
			"the cause is told when the message holds the name or value that is wrong or the error of the system",
		},
		Scenarios: []mc.Scenario{
			{Name: "network", Bounds: "all combinations of 3 IPv4 and 4 IPv6 groups, 4 ports, 3 interfaces with 5 sets of flags and 6 MTUs", Run: network},
			{Name: "place", Bounds: "20 ways to name the transfer directory (absolute, relative, through links and ..), in the configuration or SARDIR, 3 free spaces, 6 prompts", Run: place},
			{Name: "space", Bounds: "blocks of 7 sizes, 11 numbers of them free", Run: space},
			{Name: "refused", Bounds: fmt.Sprintf("each of %d faults of command line, configuration, directory, interface, terminal, groups, sockets and options", len(faults())), Run: refused(1)},
			{Name: "refused-2", Bounds: "all pairs of these faults", Run: refused(2)},
			{Name: "ends-idle", Bounds: "7 ways to end (quit, failing screen, failing listeners) before any datagram, all schedules up to 1 preemption", Run: ends(0, 0, 1, two), Shard: 3},
			{Name: "ends-one", Bounds: "7 ways to end with one of 5 datagrams on the IPv4 socket, all schedules up to 1 preemption", Run: ends(1, 0, 1, five), Shard: 7},
			{Name: "ends-six", Bounds: "7 ways to end with one of 5 datagrams on the IPv6 socket, all schedules up to 1 preemption", Run: ends(0, 1, 1, five), Shard: 7},
			{Name: "ends-both", Bounds: "7 ways to end with one of 2 datagrams on each socket, all schedules without preemption", Run: ends(1, 1, 0, []string{"beacon", "data16"}), Shard: 7},
			{Name: "ends-both-3", Bounds: "7 ways to end with one of 3 datagrams on each socket, all schedules without preemption", Run: ends(1, 1, 0, two), Shard: 7, Thorough: true},
			{Name: "ends-2", Bounds: "7 ways to end with two of 2 datagrams on one socket, all schedules without preemption", Run: ends(2, 0, 0, []string{"beacon", "data16"}), Shard: 7},
			{Name: "ends-both-1", Bounds: "7 ways to end with one of 2 datagrams on each socket, all schedules up to 1 preemption", Run: ends(1, 1, 1, two[:2]), Shard: 7, Thorough: true},
			{Name: "ends-deep", Bounds: "7 ways to end with a datagram on one socket, all schedules up to 2 preemptions", Run: ends(1, 0, 2, two[:1]), Shard: 7, Thorough: true},
			{Name: "refused-3", Bounds: "all triples of these faults", Run: refused(3), Thorough: true},
		}})
}
