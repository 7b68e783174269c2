// C28: what is typed at the prompt is what is run.
package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/jroimartin/gocui"
	"github.com/jroimartin/gocui/termbox"

	"verif/checks/h"
	"verif/mc"
	"verif/vs"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// key on the keyboard; ch if it writes something.
type key struct {
	name string
	k    gocui.Key
	ch   rune
}

func char(r rune) key {
	if r == ' ' {
		return key{"Space", gocui.KeySpace, ' '}
	}
	return key{string(r), 0, r}
}

var (
	left   = key{"Left", gocui.KeyArrowLeft, 0}
	right  = key{"Right", gocui.KeyArrowRight, 0}
	up     = key{"Up", gocui.KeyArrowUp, 0}
	down   = key{"Down", gocui.KeyArrowDown, 0}
	enter  = key{"Enter", gocui.KeyEnter, 0}
	back   = key{"Backspace", gocui.KeyBackspace, 0}
	back2  = key{"Backspace2", gocui.KeyBackspace2, 0}
	del    = key{"Delete", gocui.KeyDelete, 0}
	ins    = key{"Insert", gocui.KeyInsert, 0}
	cycle  = key{"Ctrl-Space", gocui.KeyCtrlSpace, 0}
	packet = key{"Ctrl-P", gocui.KeyCtrlP, 0}
	quit   = key{"Ctrl-C", gocui.KeyCtrlC, 0}
)

// model is what the user expects of the command line.
type model struct {
	prompt  string
	rows    [][]rune // the commands, by prompt
	row     int      // where the cursor is
	col     int      // from the start of the line
	insert  bool     // and not overwrite
	win     string
	packets bool
	height  int

	bcount   uint
	invalid  []string // names of commands there are not
	told     int      // times the number of beacons was shown
	usages   int
	cleared  bool // windows were cleared
	finished bool
}

func (m *model) head(row int) int { return len(m.prompt) + len(strconv.Itoa(row)) + 3 }

// first column of the newest line: the cursor does not go before it
func (m *model) start() int { return m.head(len(m.rows) - 1) }

func (m *model) run(text string) {
	f := strings.Fields(text)
	if len(f) == 0 {
		return
	}
	if f[0] == "exit" || f[0] == "quit" {
		m.usages++
		return
	}
	if f[0] == "clear" {
		m.cleared = true
		return
	}
	if f[0] != "bcount" {
		m.invalid = append(m.invalid, f[0])
		return
	}
	switch len(f) {
	case 1:
		m.told++
	case 2:
		if n, err := strconv.Atoi(f[1]); err == nil && n >= 0 {
			m.bcount = uint(n)
		} else {
			m.usages++
		}
	default:
		m.usages++
	}
}

func (m *model) press(k key) {
	switch k {
	case cycle:
		switch m.win {
		case "cmd":
			m.win = "msg"
		case "msg":
			m.win = "err"
			if m.packets {
				m.win = "packet"
			}
		case "packet":
			m.win = "err"
		case "err":
			m.win = "cmd"
			m.row = len(m.rows) - 1
		}
		return
	case packet:
		m.packets = !m.packets
		return
	case quit:
		m.finished = true
		return
	}
	if m.win != "cmd" {
		return
	}
	text := m.rows[m.row]
	at := m.col - m.head(m.row)
	switch k {
	case left:
		if m.col > m.start() {
			m.col--
		}
	case right:
		if at < len(text) {
			m.col++
		} else {
			m.col = m.head(m.row) + len(text)
		}
	case up:
		if top := len(m.rows) - m.height; m.row > 0 && m.row > top {
			m.row--
		}
	case down:
		if m.row < len(m.rows)-1 {
			m.row++
		}
	case back, back2, del:
		if m.col <= m.start() {
			return
		}
		if at-1 < len(text) {
			m.rows[m.row] = append(append([]rune(nil), text[:at-1]...), text[at:]...)
		}
		m.col--
	case ins:
		m.insert = !m.insert
	case enter:
		if len(text) == 0 {
			return
		}
		s := string(text)
		if a := strings.Fields(s); len(a) > 0 && (a[0] == "exit" || a[0] == "quit") {
			if len(a) == 1 || len(a) == 2 && (a[1] == "0" || a[1] == "1") {
				m.finished = true
				return
			}
		}
		m.run(s)
		if m.row == len(m.rows)-1 {
			m.rows = append(m.rows, nil)
			m.row++
			m.col = m.start()
		}
	default:
		n := append([]rune(nil), text...)
		for len(n) < at {
			n = append(n, ' ')
		}
		switch {
		case at == len(n):
			n = append(n, k.ch)
		case m.insert:
			n = append(n[:at], append([]rune{k.ch}, n[at:]...)...)
		default:
			n[at] = k.ch
		}
		m.rows[m.row] = n
		m.col++
	}
}

type console struct {
	c      *mc.Ctx
	g      *gocui.Gui
	m      *model
	typed  []string
	quits  bool
	queued []func(*gocui.Gui) error
	last   bool // updates of the screen run last to first
}

func open(c *mc.Ctx, prompt string, cols, rows int) *console {
	h.Fresh()
	termbox.Cols, termbox.Rows = cols, rows
	n := &console{c: c}
	gocui.UpdateHook = func(g *gocui.Gui, f func(*gocui.Gui) error) { n.queued = append(n.queued, f) }
	sarwin.FirstPass = true
	sarwin.Cinfo = sarwin.Cmdinfo{Prompt: prompt, Ppad: 3}
	g, err := gocui.NewGui(gocui.OutputNormal)
	must(err)
	n.g = g
	g.SetManagerFunc(sarwin.Layout)
	must(sarwin.Keybindings(g))
	n.settle()
	v, err := g.View("cmd")
	must(err)
	_, y := v.Size()
	n.m = &model{prompt: prompt, rows: [][]rune{nil}, win: "cmd", height: y, bcount: sarflags.Cliflag.Bcount}
	n.m.col = n.m.start()
	return n
}

// settle lets the user interface come to rest.
func (n *console) settle() {
	n.c.Must("drawing", func() {
		must(n.g.Redraw())
		n.updates()
	})
}

// updates runs what waits for the main loop.
func (n *console) updates() {
	for len(n.queued) > 0 {
		i := 0
		if n.last {
			i = len(n.queued) - 1
		}
		f := n.queued[i]
		n.queued = append(n.queued[:i], n.queued[i+1:]...)
		must(f(n.g))
		must(n.g.Redraw())
	}
}

func (n *console) press(k key) {
	if n.m.finished {
		return
	}
	n.typed = append(n.typed, k.name)
	n.m.press(k)
	var err error
	ch := k.ch
	if k.k != 0 {
		ch = 0
	}
	r := n.c.Sched(vs.Config{}, func() { err = n.g.Press(k.k, ch) })
	n.c.Op(1)
	if (r.Crash != "" && !r.Died) || r.Livelock || len(r.Deadlocked()) > 0 {
		n.fail("crash", "crashes or hangs: %s %v\n%s", r.Crash, r.Deadlocked(), r.Stack)
	}
	n.quits = err != nil || r.Died
	if n.quits != n.m.finished {
		n.fail("ends", "the program ends: %v (%v %s)", n.quits, err, r.Crash)
	}
	if !n.quits {
		n.settle()
	}
}

func (n *console) fail(sig, format string, a ...any) {
	t := strings.Join(n.typed, " ")
	n.c.Fail(sig, "after %s: %s", t, fmt.Sprintf(format, a...))
}

func (n *console) lines(win string) []string {
	v, err := n.g.View(win)
	must(err)
	return v.BufferLines()
}

// judge compares the screen and the effects with the model.
func (n *console) judge() {
	if n.m.finished {
		return
	}
	m := n.m
	var want []string
	for i, r := range m.rows {
		want = append(want, fmt.Sprintf("%s[%d]:%s", m.prompt, i, string(r)))
	}
	got := n.lines("cmd")
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		n.fail("line", "the command window holds\n%s\nand not\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
	if sarflags.Cliflag.Bcount != m.bcount {
		n.fail("run", "the number of beacons is %d and not %d", sarflags.Cliflag.Bcount, m.bcount)
	}
	var invalid []string
	usages := 0
	for _, l := range n.lines("err") {
		if s, ok := strings.CutPrefix(l, "Invalid command:"); ok {
			invalid = append(invalid, s)
		}
		if strings.HasPrefix(l, "usage:bcount") || strings.HasPrefix(l, "bcount") {
			usages++
		}
	}
	if !m.cleared && strings.Join(invalid, "|") != strings.Join(m.invalid, "|") {
		n.fail("run", "the commands refused are %q and not %q", invalid, m.invalid)
	}
	told := 0
	for _, l := range n.lines("msg") {
		if strings.HasSuffix(l, "Beacons to be sent") {
			told++
		}
	}
	if !m.cleared && told != m.told {
		n.fail("run", "the number of beacons is shown %d times and not %d", told, m.told)
	}
	if v := n.g.CurrentView(); v == nil || v.Name() != m.win {
		n.fail("window", "the window is not %s", m.win)
	}
	// what lies above what
	at := map[string]int{}
	for i, v := range n.g.Views() {
		at[v.Name()] = i
	}
	if above := at["packet"] > at["msg"]; above != m.packets {
		n.fail("packet", "the packet window is shown: %v and not %v", above, m.packets)
	}
	// the cursor
	if v, err := n.g.View("cmd"); err == nil && m.win == "cmd" {
		ox, oy := v.Origin()
		cx, cy := v.Cursor()
		if oy+cy != m.row || ox+cx != m.col {
			n.fail("cursor", "the cursor is at line %d column %d and not at line %d column %d", oy+cy, ox+cx, m.row, m.col)
		}
	}
}

func (n *console) text(s string) {
	for _, r := range s {
		n.press(char(r))
	}
}

// line types a command and runs it
func (n *console) line(s string) {
	n.text(s)
	n.press(enter)
}

// keys: every sequence of keys after the lines and the text
func keys(lines []int, text string, depth int, ks []key, updates bool) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		n := open(c, "saratoga", 160, 60)
		k := mc.Of(c, "lines before", lines)
		if updates {
			n.last = c.Bool("updates last to first")
		}
		for i := 0; i < k; i++ {
			n.line(fmt.Sprintf("bcount %d", i+20))
		}
		n.text(text)
		for i := 0; i < depth; i++ {
			n.press(ks[c.Pick("key", len(ks))])
			n.judge()
		}
		if n.m.win == "cmd" && !n.m.finished {
			n.press(enter)
			n.judge()
		}
	}
}

// long: a line of every length around the width of the window, then keys, then another
func long(depth int, ks []key) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		size := mc.Of(c, "terminal", [][2]int{{160, 60}, {80, 24}, {100, 30}})
		n := open(c, "saratoga", size[0], size[1])
		v, err := n.g.View("cmd")
		must(err)
		w, _ := v.Size()
		before := c.Pick("lines before", 2) * 3
		for i := 0; i < before; i++ {
			n.line("bcount 2")
		}
		extra := mc.Of(c, "beyond the window", []int{-3, -2, -1, 0, 1, 2, 3, 40, w - 1, w, w + 1, 2*w + 5})
		s := "bcount 1"
		for n.m.start()+len(s) < w+extra {
			s += string(rune('a' + len(s)%26))
			if len(s)%7 == 0 {
				s += " "
			}
		}
		n.text(s)
		for i := 0; i < depth; i++ {
			n.press(ks[c.Pick("key", len(ks))])
			n.judge()
		}
		n.press(enter)
		n.judge()
		n.line("bcount 44")
		n.judge()
		n.line("bcount")
		n.judge()
	}
}

// home: to the start of a long line, changed there
func home(c *mc.Ctx) {
	n := open(c, "saratoga", mc.Of(c, "columns", []int{80, 100, 160}), 24)
	ln := 20 + c.Pick("length", 160)
	s := "bcount 1" + strings.Repeat("x", ln)
	n.text(s)
	n.judge()
	lefts := mc.Of(c, "lefts", []int{1, 2, len(s) / 2, len(s) - 1, len(s), len(s) + 3})
	for i := 0; i < lefts; i++ {
		n.press(left)
	}
	n.judge()
	switch c.Pick("then", 4) {
	case 0:
		n.press(char('z'))
	case 1:
		n.press(ins)
		n.press(char('z'))
	case 2:
		n.press(back)
	case 3:
		for i := 0; i < lefts+2; i++ {
			n.press(right)
		}
		n.judge()
		for i := 0; i < ln; i++ {
			n.press(back)
		}
	}
	n.judge()
	n.press(enter)
	n.judge()
	n.line("bcount 45")
	n.judge()
}

// many commands one after the other
func many(c *mc.Ctx) {
	size := mc.Of(c, "terminal", [][2]int{{160, 60}, {80, 24}, {120, 40}, {200, 100}})
	n := open(c, mc.Of(c, "prompt", []string{"saratoga", "", "s", "a:b", "x]:y", "node 7"}), size[0], size[1])
	n.last = c.Bool("updates last to first")
	empty := c.Bool("empty lines")
	for i := 0; i < 125; i++ {
		if empty {
			n.press(enter)
		}
		n.line([]string{fmt.Sprintf("bcount %d", i), fmt.Sprint("nosuch", i), "bcount", fmt.Sprintf("  bcount   %d ", i), "x:y"}[i%5])
		n.judge()
	}
}

// again: an earlier line is run again, changed or not
func again(c *mc.Ctx) {
	n := open(c, "saratoga", 160, 60)
	k := 1 + c.Pick("lines", 14)
	for i := 0; i < k; i++ {
		n.line(fmt.Sprintf("bcount %d", i+20))
	}
	ups := c.Pick("ups", 16)
	for i := 0; i < ups; i++ {
		n.press(up)
		n.judge()
	}
	switch c.Pick("then", 4) {
	case 1:
		n.text("bcount 9")
	case 2:
		for i := 0; i < 9; i++ {
			n.press(right)
		}
		n.press(back)
		n.text("7")
	case 3:
		n.text("x")
	}
	n.judge()
	n.press(enter)
	n.judge()
	downs := c.Pick("downs", 16)
	for i := 0; i < downs; i++ {
		n.press(down)
		n.judge()
	}
	n.press(enter)
	n.judge()
	for i := 0; i < 16; i++ {
		n.press(down)
	}
	n.line("bcount 5")
	n.judge()
}

// meanwhile: keys are pressed while commands are at work, in every schedule
func meanwhile(before, lines []string, depth int, ks []key, preempt int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		n := open(c, "saratoga", 160, 60)
		if len(before) > 0 && c.Bool("commands before") {
			for _, s := range before {
				n.line(s)
			}
		}
		if len(before) == 0 && c.Bool("packets shown") {
			n.press(packet)
		}
		n.text(mc.Of(c, "line", lines))
		pressed := []key{enter}
		for i := 0; i < depth; i++ {
			pressed = append(pressed, ks[c.Pick("key", len(ks))])
		}
		n.last = c.Bool("updates last to first")
		for _, k := range pressed {
			n.typed = append(n.typed, k.name)
			n.m.press(k)
		}
		var err error
		defer func() { gocui.PointHook = nil }()
		gocui.PointHook = func(op string) { vs.Point("gocui " + op) }
		r := c.Sched(vs.Config{Preempt: preempt, FreeSwitch: true}, func() {
			for _, k := range pressed {
				ch := k.ch
				if k.k != 0 {
					ch = 0
				}
				if err = n.g.Press(k.k, ch); err != nil {
					return
				}
				must(n.g.Redraw())
				n.updates()
			}
		})
		gocui.PointHook = nil
		c.Op(len(pressed))
		if (r.Crash != "" && !r.Died) || r.Livelock || len(r.Deadlocked()) > 0 {
			n.fail("crash", "crashes or hangs: %s %v\n%s", r.Crash, r.Deadlocked(), r.Stack)
		}
		if err != nil || r.Died {
			n.fail("ends", "the program ends: %v %s", err, r.Crash)
		}
		n.settle()
		n.judge()
	}
}

// resize: the terminal is given other sizes between keys
func resize(depth int, sizes [][2]int, ks []key) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		a := mc.Of(c, "terminal", sizes)
		n := open(c, "saratoga", a[0], a[1])
		for i := mc.Of(c, "lines before", []int{0, 3, 12, 20}); i > 0; i-- {
			n.line(fmt.Sprintf("bcount %d", i+20))
		}
		n.text(mc.Of(c, "text", []string{"", "bcount 1", "bcount 1 " + strings.Repeat("z", 60)}))
		for i := 0; i < depth; i++ {
			k := c.Pick("step", len(sizes)+len(ks))
			if k >= len(sizes) {
				n.press(ks[k-len(sizes)])
				n.judge()
				continue
			}
			b := sizes[k]
			if b[0] == termbox.Cols && b[1] == termbox.Rows {
				c.Skip()
			}
			termbox.Cols, termbox.Rows = b[0], b[1]
			n.typed = append(n.typed, fmt.Sprint("Resize", b))
			n.settle()
			v, err := n.g.View("cmd")
			must(err)
			_, n.m.height = v.Size()
			if n.m.row < len(n.m.rows)-n.m.height { // no longer shown
				n.m.row = len(n.m.rows) - 1
			}
			n.judge()
		}
	}
}

// ends: exit, quit and Ctrl-C end the program from every window, other lines do not
func ends(c *mc.Ctx) {
	n := open(c, "saratoga", 160, 60)
	for i := c.Pick("lines", 2); i > 0; i-- {
		n.line("bcount 3")
	}
	for i := c.Pick("packets", 2); i > 0; i-- {
		n.press(packet)
	}
	n.text(mc.Of(c, "typed", []string{"", "exit", "quit", "exi", "exitt", "quit x", "qui", "exit 0", "quit 1", " exit", "quit ", "exit 2", "exit ?", "quit 0 1", "Exit", "exit0"}))
	for i := c.Pick("windows", 6); i > 0; i-- {
		n.press(cycle)
	}
	n.press(mc.Of(c, "key", []key{quit, enter}))
	n.judge()
}

func main() {
	all := []key{char('2'), char('x'), char(' '), left, right, back, enter, up, down, cycle, packet, ins}
	edit := []key{char('2'), char('x'), char(' '), left, right, back, ins, enter}
	uni := []key{char('é'), char('漢'), char('2'), left, right, back, ins, enter}
	wide := []key{char('z'), char(' '), left, right, back, ins}
	mc.Main(&mc.Check{ID: "C28", Setup: h.Setup,
		Assume: []string{
			"a key is pressed when the prompt is shown (commands may still be at work)", "the terminal has at least 80 columns and 16 rows",
			"prompts are ASCII and ppad is 3, as the configuration documents for the brackets and colon",
			"the terminal library is the one the program names, with the screen itself and its event loop replaced by stand-ins",
		},
		Scenarios: []mc.Scenario{
			{Name: "keys", Bounds: "all sequences of 5 of 12 keys after the text \"bcount 1\"", Run: keys([]int{0}, "bcount 1", 5, all, false)},
			{Name: "edit", Bounds: "all sequences of 6 of 8 editing keys after the text \"bcount 1\"", Run: keys([]int{0}, "bcount 1", 6, edit, false)},
			{Name: "later", Bounds: "all sequences of 3 of 12 keys after 1, 2, 9, 10, 11, 12, 13 or 20 commands (numbers with more digits, window full), updates in either order", Run: keys([]int{1, 2, 9, 10, 11, 12, 13, 20}, "bcount 1", 3, all, true)},
			{Name: "letters", Bounds: "all sequences of 5 of 8 keys with characters of 1, 2 and 3 bytes", Run: keys([]int{0}, "bcount 1", 5, uni, false)},
			{Name: "erase", Bounds: "all sequences of 4 of 3 deleting and 5 other keys", Run: keys([]int{0, 1}, "x", 4, []key{back, back2, del, left, right, char('y'), enter, up}, false)},
			{Name: "long", Bounds: "lines of 12 lengths around the width of the window, on 3 terminals, all sequences of 3 of 6 keys, then two commands", Run: long(3, wide)},
			{Name: "home", Bounds: "lines of 160 lengths on 3 widths, to 6 places in it, changed there in 4 ways", Run: home},
			{Name: "many", Bounds: "125 commands in a row, with 6 prompts, on 4 terminals", Run: many},
			{Name: "again", Bounds: "any of up to 14 earlier lines run again, changed in 4 ways, and back", Run: again},
			{Name: "ends", Bounds: "Ctrl-C, ends with exit and quit, and other lines, in every window", Run: ends},
			{Name: "meanwhile", Bounds: "6 lines and all sequences of 2 of 7 keys pressed while the commands are at work, all schedules up to 2 preemptions", Run: meanwhile([]string{"bcount 3"}, []string{"clear", "clear msg", "clear err packet", "bcount", "bcount 7", "nosuch"}, 2, []key{char('2'), char('x'), enter, left, cycle, packet, up}, 2)},
			{Name: "windows", Bounds: "3 lines and all sequences of 3 of 3 keys pressed while the commands are at work, packets shown or not, all schedules up to 1 preemption", Run: meanwhile(nil, []string{"clear", "bcount x", "bcount"}, 3, []key{char('2'), cycle, packet}, 1)},
			{Name: "resize", Bounds: "all sequences of 3 of 7 keys and 5 sizes of the terminal, after 0, 3, 12 or 20 commands and 3 texts", Run: resize(3, [][2]int{{160, 60}, {80, 24}, {100, 30}, {80, 60}, {90, 16}}, []key{char('2'), left, back, enter, up, cycle, ins})},
			{Name: "keys-6", Bounds: "all sequences of 6 of 12 keys after the text \"bcount 1\"", Run: keys([]int{0}, "bcount 1", 6, all, false), Thorough: true},
			{Name: "later-5", Bounds: "all sequences of 5 of 12 keys after 1, 10 or 12 commands", Run: keys([]int{1, 10, 12}, "b", 5, all, false), Thorough: true},
			{Name: "long-5", Bounds: "as long, all sequences of 5 of 6 keys", Run: long(5, wide), Thorough: true},
		}})
}
