// C22: configuration is loaded and copied faithfully.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/charlesetsmith/saratoga/sarflags"

	"verif/checks/h"
	"verif/mc"
)

type obj = map[string]any

var raw []byte

func setup(c *mc.Ctx) {
	h.Setup(c)
	b, err := os.ReadFile(h.Conf())
	if err != nil {
		panic(err)
	}
	raw = b
}

func doc() obj {
	var o obj
	if err := json.Unmarshal(raw, &o); err != nil {
		panic(err)
	}
	return o
}

func file(c *mc.Ctx, b []byte) string {
	p := filepath.Join(c.Dir(), "conf.json")
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(err)
	}
	return p
}

// clear forgets what an earlier load left in the tables.
func clear_() {
	for k := range sarflags.Flags {
		delete(sarflags.Flags, k)
	}
	for k := range sarflags.DirentFlags {
		delete(sarflags.DirentFlags, k)
	}
	for k := range sarflags.Frameflags {
		delete(sarflags.Frameflags, k)
	}
	for k := range sarflags.Commands {
		delete(sarflags.Commands, k)
	}
	sarflags.TimeStamps.Len, sarflags.TimeStamps.Msb, sarflags.TimeStamps.Options = 0, 0, nil
}

func str(v any) string {
	s, _ := v.(string)
	return s
}
func num(v any) int {
	f, _ := v.(float64)
	return int(f)
}

// judge compares the loaded settings with the document.
func judge(c *mc.Ctx, o obj, s *sarflags.Cliflags) {
	bad := func(what string, got, want any) {
		c.Fail("setting/"+what, "%s is loaded as %v, the configuration says %v", what, got, want)
	}
	for _, f := range []string{"csumtype", "freespace", "txwilling", "rxwilling", "stream", "reqtstamp", "reqstatus", "udplite", "descriptor"} {
		if s.Global[f] != str(o[f]) {
			bad(f, s.Global[f], o[f])
		}
	}
	if len(s.Global) != 9 {
		bad("global flags", s.Global, "9 flags")
	}
	dir := os.Getenv("SARDIR")
	if dir == "" {
		dir = str(o["sardir"])
	}
	tm, _ := o["timeout"].(obj)
	for _, x := range []struct {
		what      string
		got, want any
	}{
		{"v4multicast", s.V4Multicast, str(o["v4multicast"])}, {"v6multicast", s.V6Multicast, str(o["v6multicast"])},
		{"udpport", s.Port, num(o["udpport"])}, {"timestamp", s.Timestamp, str(o["timestamp"])},
		{"timezone", s.Timezone, str(o["timezone"])}, {"prompt", s.Prompt, str(o["prompt"])}, {"ppad", s.Ppad, num(o["ppad"])},
		{"sardir", s.Sardir, dir}, {"buffersize", s.Buffersize, num(o["buffersize"])}, {"bcount", s.Bcount, uint(num(o["bcount"]))},
		{"timeout.metadata", s.Timeout.Metadata, num(tm["metadata"])}, {"timeout.request", s.Timeout.Request, num(tm["request"])},
		{"timeout.status", s.Timeout.Status, num(tm["status"])}, {"timeout.transfer", s.Timeout.Transfer, num(tm["transfer"])},
		{"timeout.binterval", s.Timeout.Binterval, uint(num(tm["binterval"]))}, {"timeout.datacounter", s.Timeout.Datacounter, num(tm["datacounter"])},
	} {
		if x.got != x.want {
			bad(x.what, x.got, x.want)
		}
	}
	cmds, _ := o["commands"].(obj)
	if len(sarflags.Commands) != len(cmds) {
		bad("commands", len(sarflags.Commands), len(cmds))
	}
	for k, v := range cmds {
		i, _ := v.(obj)
		if g, ok := sarflags.Commands[k]; !ok || g.Usage != str(i["usage"]) || g.Help != str(i["help"]) {
			bad("command", fmt.Sprint(k, g), v)
		}
	}
	ffs, _ := o["frameflags"].(obj)
	if len(sarflags.Frameflags) != len(ffs) {
		bad("frameflags", sarflags.Frameflags, ffs)
	}
	for k, v := range ffs {
		l, _ := v.([]any)
		if fmt.Sprint(sarflags.Frameflags[k]) != fmt.Sprint(l) {
			bad("frameflags", sarflags.Frameflags[k], l)
		}
	}
	fl, _ := o["flags"].(obj)
	if len(sarflags.Flags) != len(fl) {
		bad("flags", len(sarflags.Flags), len(fl))
	}
	for k, v := range fl {
		i, _ := v.(obj)
		g := sarflags.Flags[k]
		if int(g.Len) != num(i["len"]) || int(g.Msb) != num(i["msb"]) {
			bad("flag", fmt.Sprint(k, g), v)
		}
		if ft, _ := i["frametypes"].([]any); fmt.Sprint(g.Frametypes) != fmt.Sprint(ft) {
			bad("flag", fmt.Sprint(k, g.Frametypes), ft)
		}
		op, _ := i["options"].(obj)
		if len(g.Options) != len(op) {
			bad("flag", fmt.Sprint(k, g.Options), op)
		}
		for n, x := range op {
			if y, ok := g.Options[n]; !ok || int(y) != num(x) {
				bad("flag", fmt.Sprint(k, g.Options), op)
			}
		}
	}
	df, _ := o["direntflags"].(obj)
	if len(sarflags.DirentFlags) != len(df) {
		bad("direntflags", len(sarflags.DirentFlags), len(df))
	}
	for k, v := range df {
		i, _ := v.(obj)
		g := sarflags.DirentFlags[k]
		if int(g.Len) != num(i["len"]) || int(g.Msb) != num(i["msb"]) {
			bad("direntflag", fmt.Sprint(k, g), v)
		}
		op, _ := i["options"].(obj)
		if len(g.Options) != len(op) {
			bad("direntflag", fmt.Sprint(k, g.Options), op)
		}
		for n, x := range op {
			if y, ok := g.Options[n]; !ok || int(y) != num(x) {
				bad("direntflag", fmt.Sprint(k, g.Options), op)
			}
		}
	}
	ts, _ := o["timestamps"].(obj)
	op, _ := ts["options"].(obj)
	if int(sarflags.TimeStamps.Len) != num(ts["len"]) || int(sarflags.TimeStamps.Msb) != num(ts["msb"]) || len(sarflags.TimeStamps.Options) != len(op) {
		bad("timestamps", sarflags.TimeStamps, ts)
	}
	for n, x := range op {
		if y, ok := sarflags.TimeStamps.Options[n]; !ok || int(y) != num(x) {
			bad("timestamps", sarflags.TimeStamps.Options, op)
		}
	}
}

func load(c *mc.Ctx, o obj) (*sarflags.Cliflags, error) {
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	return loadRaw(c, b)
}

func loadRaw(c *mc.Ctx, b []byte) (*sarflags.Cliflags, error) {
	p := file(c, b)
	s := new(sarflags.Cliflags)
	var err error
	c.Op(1)
	c.Must("ReadConfig", func() { err = s.ReadConfig(p) })
	return s, err
}

// every single setting changed to other values
func changed(c *mc.Ctx) {
	type alt struct {
		path string
		vals []any
	}
	var alts []alt
	for _, f := range []string{"csumtype", "freespace", "txwilling", "rxwilling", "stream", "reqtstamp", "reqstatus", "udplite", "descriptor"} {
		var vs []any
		for _, o := range h.F(f).Opts {
			vs = append(vs, o.Name)
		}
		alts = append(alts, alt{f, vs})
	}
	for _, f := range []string{"v4multicast", "v6multicast", "timestamp", "timezone", "sardir", "prompt"} {
		alts = append(alts, alt{f, []any{"", "x", "224.0.0.109", "posix32", "local", "/tmp/x y", "sar:ü"}})
	}
	for _, f := range []string{"udpport", "ppad", "buffersize", "bcount", "timeout.metadata", "timeout.request", "timeout.status", "timeout.transfer", "timeout.binterval", "timeout.datacounter"} {
		alts = append(alts, alt{f, []any{0.0, 1.0, 7.0, 65535.0, 100000.0, 2147483647.0}})
	}
	a := mc.Of(c, "setting", alts)
	v := mc.Of(c, "value", a.vals)
	twice := c.Bool("twice")
	env := c.Bool("environment")
	o := doc()
	if k, ok := strings.CutPrefix(a.path, "timeout."); ok {
		o["timeout"].(obj)[k] = v
	} else {
		o[a.path] = v
	}
	if env {
		os.Setenv("SARDIR", "/env/dir")
		defer os.Unsetenv("SARDIR")
	}
	clear_()
	s, err := load(c, o)
	if twice && err == nil {
		s, err = load(c, o)
	}
	c.Logf("%s=%v twice=%v env=%v: %v", a.path, v, twice, env, err)
	if err != nil {
		c.Fail("valid-refused", "a valid configuration with %s=%v is refused: %v", a.path, v, err)
	}
	judge(c, o, s)
}

// tables changed: one flag, one option, one command, one frame flag
func tables(c *mc.Ctx) {
	o := doc()
	alter(c, o)
	clear_()
	s, err := load(c, o)
	if err != nil {
		c.Fail("valid-refused", "a valid configuration is refused: %v", err)
	}
	judge(c, o, s)
}

// reload: one configuration is loaded after another, the tables are those of the later
func reload(both bool) func(*mc.Ctx) {
	return func(c *mc.Ctx) { reloading(c, both) }
}

func reloading(c *mc.Ctx, both bool) {
	o, p := doc(), doc()
	alter(c, o)
	if both {
		alter(c, p)
	}
	same := c.Bool("into the same settings")
	clear_()
	s, err := load(c, o)
	if err != nil {
		c.Fail("valid-refused", "a valid configuration is refused: %v", err)
	}
	if same {
		b, e := json.Marshal(p)
		if e != nil {
			panic(e)
		}
		f := file(c, b)
		c.Op(1)
		c.Must("ReadConfig", func() { err = s.ReadConfig(f) })
	} else {
		s, err = load(c, p)
	}
	if err != nil {
		c.Fail("valid-refused", "a valid configuration is refused after another: %v", err)
	}
	judge(c, p, s)
}

func alter(c *mc.Ctx, o obj) {
	what := c.Pick("what", 5)
	switch what {
	case 0:
		m := o["commands"].(obj)
		k := mc.Of(c, "command", append(h.Keys(m), "new"))
		pad := mc.Of(c, "text", []string{"", " ", "  two\n\t", "%d%s", "ü<&>\""})
		m[k] = obj{"usage": pad + "u " + k + pad, "help": pad + "h " + k + pad}
	case 1:
		m := o["flags"].(obj)
		k := mc.Of(c, "flag", append(h.Keys(m), "new"))
		if k == "new" {
			m[k] = obj{"frametypes": []any{"data"}, "len": 3.0, "msb": 20.0, "options": obj{"a": 0.0, "b": 5.0}}
		} else {
			f := m[k].(obj)
			switch c.Pick("part", 3) {
			case 0:
				f["len"] = 7.0
			case 1:
				f["msb"] = 21.0
			default:
				f["options"].(obj)["extra"] = 1.0
			}
		}
	case 2:
		m := o["frameflags"].(obj)
		k := mc.Of(c, "frame", append(h.Keys(m), "new"))
		l, _ := m[k].([]any)
		if c.Bool("shorter") && len(l) > 0 {
			l = l[1:]
		} else {
			l = append([]any{"extra"}, l...)
		}
		m[k] = l
	case 3:
		m := o["direntflags"].(obj)
		k := mc.Of(c, "dirent", append(h.Keys(m), "new"))
		if k == "new" {
			m[k] = obj{"len": 1.0, "msb": 12.0, "options": obj{"z": 1.0}}
		} else {
			f := m[k].(obj)
			switch c.Pick("part", 3) {
			case 0:
				f["len"] = 2.0
			case 1:
				f["msb"] = 3.0
			default:
				f["options"].(obj)["extra"] = 1.0
			}
		}
	default:
		m := o["timestamps"].(obj)
		switch c.Pick("part", 3) {
		case 0:
			m["len"] = 4.0
		case 1:
			m["msb"] = 2.0
		default:
			m["options"].(obj)["extra"] = 9.0
		}
	}
}

// paths to every value of the document
func paths(v any, at []string, out *[][]string) {
	if len(at) > 0 {
		*out = append(*out, append([]string(nil), at...))
	}
	switch v := v.(type) {
	case obj:
		for _, k := range h.Keys(v) {
			paths(v[k], append(at, k), out)
		}
	case []any:
		for i := range v {
			paths(v[i], append(at, fmt.Sprint("#", i)), out)
		}
	}
}

func replace(v any, at []string, n any, del bool) any {
	if len(at) == 0 {
		return n
	}
	switch v := v.(type) {
	case obj:
		if len(at) == 1 && del {
			delete(v, at[0])
		} else {
			v[at[0]] = replace(v[at[0]], at[1:], n, del)
		}
	case []any:
		var i int
		fmt.Sscanf(at[0], "#%d", &i)
		if len(at) == 1 && del {
			return append(v[:i:i], v[i+1:]...)
		}
		v[i] = replace(v[i], at[1:], n, del)
	}
	return v
}

func at(v any, p []string) any {
	for _, k := range p {
		switch x := v.(type) {
		case obj:
			v = x[k]
		case []any:
			var i int
			fmt.Sscanf(k, "#%d", &i)
			v = x[i]
		}
	}
	return v
}

func kindOf(v any) string { return reflect.TypeOf(v).String() }

// every value of the document of a wrong type, or left out
func corrupt(c *mc.Ctx) {
	o := doc()
	var ps [][]string
	paths(o, nil, &ps)
	p := mc.Of(c, "path", ps)
	how := c.Pick("how", 7)
	old := at(o, p)
	var n any
	switch how {
	case 0:
		n = "text"
	case 1:
		n = 5.0
	case 2:
		n = nil
	case 3:
		n = true
	case 4:
		n = []any{}
	case 5:
		n = obj{}
	}
	o = replace(o, p, n, how == 6).(obj)
	clear_()
	s, err := load(c, o)
	c.Logf("%s of %v replaced by %v (%d): %v", strings.Join(p, "."), old, n, how, err)
	known := map[string]bool{"v4multicast": true, "v6multicast": true, "udpport": true, "descriptor": true, "csumtype": true, "freespace": true, "txwilling": true, "rxwilling": true, "stream": true, "reqtstamp": true, "reqstatus": true, "udplite": true, "timestamp": true, "timezone": true, "sardir": true, "prompt": true, "ppad": true, "buffersize": true, "bcount": true, "timeout": true, "commands": true, "frameflags": true, "flags": true, "direntflags": true, "timestamps": true}
	if how < 6 && known[p[0]] && (n == nil || kindOf(n) != kindOf(old)) {
		if err == nil {
			c.Fail("malformed-accepted/"+p[0], "a configuration whose %s is %v instead of %v is accepted", strings.Join(p, "."), n, old)
		}
		return
	}
	switch p[0] {
	case "csumtype", "freespace", "txwilling", "rxwilling", "stream", "reqtstamp", "reqstatus", "udplite", "descriptor":
		if err == nil {
			c.Fail("invalid-flag-accepted", "a configuration with %s=%v is accepted", p[0], n)
		}
	default:
		if err == nil && how == 0 {
			judge(c, o, s)
		}
	}
}

// the file cut at every byte, and other files that are no configuration
func truncated(c *mc.Ctx) {
	b := []byte(strings.TrimRight(string(raw), " \t\r\n"))
	n := c.Pick("length", len(b)/16+1)
	for i := 0; i < 16 && n*16+i < len(b); i++ {
		cut := n*16 + i
		clear_()
		if _, err := loadRaw(c, b[:cut]); err == nil {
			c.Fail("truncated-accepted", "a configuration file cut after %d bytes is accepted", cut)
		}
	}
}

func nofile(c *mc.Ctx) {
	s := new(sarflags.Cliflags)
	what := c.Pick("what", 9)
	var p string
	switch what {
	case 0:
		p = filepath.Join(c.Dir(), "missing.json")
	case 1:
		p = c.Dir()
	case 2:
		p = ""
	case 3:
		p = file(c, nil)
	case 4:
		p = file(c, []byte("[]"))
	case 5:
		p = file(c, []byte("null"))
	case 6:
		p = file(c, []byte("{}"))
	case 7:
		p = file(c, []byte("{\"descriptor\":\"d16\"}"))
	case 8:
		p = file(c, append([]byte("x"), raw...))
	}
	clear_()
	var err error
	c.Op(1)
	c.Must("ReadConfig", func() { err = s.ReadConfig(p) })
	if err == nil {
		c.Fail("bad-file-accepted", "case %d: no error for a file that is missing or no configuration", what)
	}
}

// ---- copying

// leaves lists the settable leaves of a settings value.
func leaves(v reflect.Value, at string, out map[string]reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			leaves(v.Field(i), at+"."+v.Type().Field(i).Name, out)
		}
	default:
		out[at] = v
	}
}

const bumps = 9

func bump(v reflect.Value, by int) {
	switch v.Kind() {
	case reflect.String:
		switch by {
		case 3:
			v.SetString("")
		case 4:
			v.SetString(strings.Repeat("long ", 200))
		case 5:
			v.SetString(" d\u00e9j\u00e0 \x00vu\t")
		case 6:
			v.SetString(strings.ToUpper(v.String()))
		default:
			v.SetString(v.String() + fmt.Sprint("x", by))
		}
	case reflect.Int, reflect.Int64, reflect.Int32:
		v.SetInt([]int64{v.Int() + 1, v.Int() + 2, v.Int() + 3, 0, -1, 255, 65536, 1<<31 - 1, 1 << 20}[by])
		if v.Kind() != reflect.Int32 && by == 8 {
			v.SetInt(1<<40 + 1)
		}
	case reflect.Uint, reflect.Uint64, reflect.Uint32:
		v.SetUint([]uint64{v.Uint() + 1, v.Uint() + 2, v.Uint() + 3, 0, 256, 65535, 65536, 1<<32 - 1, 1 << 20}[by])
		if v.Kind() != reflect.Uint32 && by == 8 {
			v.SetUint(1<<40 + 1)
		}
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		str := func(s string) reflect.Value { return reflect.ValueOf(s).Convert(v.Type().Elem()) }
		switch by {
		case 0, 3: // an entry replaced
			if len(keys) > 0 {
				v.SetMapIndex(keys[len(keys)*by/4], str("changed"))
			}
		case 1: // one added
			v.SetMapIndex(reflect.ValueOf("added"), str("yes"))
		case 2: // one removed
			for _, k := range keys {
				if k.String() == "stream" {
					v.SetMapIndex(k, reflect.Value{})
				}
			}
		case 4: // all but one removed (none at all is refused)
			for _, k := range keys[:max(0, len(keys)-1)] {
				v.SetMapIndex(k, reflect.Value{})
			}
		case 5: // no text
			for _, k := range keys {
				v.SetMapIndex(k, str(""))
			}
		case 6: // many added
			for i := 0; i < 40; i++ {
				v.SetMapIndex(reflect.ValueOf(fmt.Sprint("added", i)), str(fmt.Sprint(i)))
			}
		case 7: // a key without text
			v.SetMapIndex(reflect.ValueOf(""), str("none"))
		case 8: // replaced by another map
			n := reflect.MakeMap(v.Type())
			n.SetMapIndex(reflect.ValueOf("only"), str("one"))
			v.Set(n)
		}
	case reflect.Slice:
		if v.Len() > 0 && by < 5 {
			bump(v.Index((v.Len()-1)*(by%2)), by)
		} else {
			v.Set(reflect.MakeSlice(v.Type(), by+1, by+1))
		}
	}
}

func copying(c *mc.Ctx) {
	h.Fresh()
	s := sarflags.Cliflag
	ls := map[string]reflect.Value{}
	leaves(reflect.ValueOf(s).Elem(), "", ls)
	names := h.Keys(ls)
	pre := c.Pick("before", len(names)+1)
	side := c.Pick("side", 2)
	post := c.Pick("after", len(names))
	by := c.Pick("by", bumps)
	if pre > 0 {
		bump(ls[names[pre-1]], by)
	}
	if c.Bool("SARDIR in the environment") {
		os.Setenv("SARDIR", "/elsewhere")
		defer os.Unsetenv("SARDIR")
	}
	var d *sarflags.Cliflags
	var err error
	c.Must("CopyCliflags", func() { d, err = s.CopyCliflags() })
	c.Op(1)
	if err != nil || d == nil {
		c.Fail("copy-error", "the settings cannot be copied: %v", err)
	}
	if !reflect.DeepEqual(s, d) {
		c.Fail("copy-differs", "the copy differs: %+v from %+v", *d, *s)
	}
	if s == d {
		c.Fail("copy-shared", "the copy is the original")
	}
	snapshot := fmt.Sprintf("%+v", *d)
	// copies made before and after, of the original and of a copy, are independent of it as well
	var more []*sarflags.Cliflags
	for _, from := range []*sarflags.Cliflags{s, d} {
		m, err := from.CopyCliflags()
		if err != nil || !reflect.DeepEqual(m, s) {
			c.Fail("copy-differs", "another copy differs: %+v from %+v (%v)", m, *s, err)
		}
		more = append(more, m)
	}
	defer func() {
		for _, m := range more {
			if g := fmt.Sprintf("%+v", *m); g != snapshot {
				c.Fail("copy-shared", "changing %s of a copy or the original changes another copy from %s to %s", names[post], snapshot, g)
			}
		}
	}()
	if side == 0 { // change the original, look at the copy
		bump(ls[names[post]], by)
		if g := fmt.Sprintf("%+v", *d); g != snapshot {
			c.Fail("copy-shared", "changing %s of the original changes the copy from %s to %s", names[post], snapshot, g)
		}
	} else {
		dl := map[string]reflect.Value{}
		leaves(reflect.ValueOf(d).Elem(), "", dl)
		bump(dl[names[post]], by)
		if g := fmt.Sprintf("%+v", *s); g != snapshot {
			c.Fail("copy-shared", "changing %s of the copy changes the original from %s to %s", names[post], snapshot, g)
		}
	}
}

// values: any two global flags with any of their values, copied
func values(c *mc.Ctx) {
	h.Fresh()
	s := sarflags.Cliflag
	var all [][2]string
	for f := range s.Global {
		for v := range sarflags.Flags[f].Options {
			all = append(all, [2]string{f, v})
		}
	}
	sort.Slice(all, func(i, j int) bool { return fmt.Sprint(all[i]) < fmt.Sprint(all[j]) })
	for i := 0; i < 2; i++ {
		x := mc.Of(c, "flag", all)
		s.Global[x[0]] = x[1]
	}
	z := mc.Of(c, "changed afterwards", all)
	var d *sarflags.Cliflags
	var err error
	c.Must("CopyCliflags", func() { d, err = s.CopyCliflags() })
	c.Op(1)
	if err != nil || d == nil || !reflect.DeepEqual(s, d) {
		c.Fail("copy-differs", "the copy of %v is %v (%v)", s, d, err)
	}
	was := fmt.Sprint(d.Global)
	s.Global[z[0]] = z[1]
	if fmt.Sprint(d.Global) != was {
		c.Fail("copy-shared", "setting %s to %s changes the copy from %s to %s", z[0], z[1], was, fmt.Sprint(d.Global))
	}
	was = fmt.Sprint(s.Global)
	d.Global[z[0]] = "changed"
	if fmt.Sprint(s.Global) != was {
		c.Fail("copy-shared", "changing %s of the copy changes the original from %s to %s", z[0], was, fmt.Sprint(s.Global))
	}
}

func main() {
	mc.Main(&mc.Check{ID: "C22", Setup: setup,
		Assume: []string{"numbers in the configuration are whole and in range"},
		Scenarios: []mc.Scenario{
			{Name: "changed", Bounds: "every setting of the shipped configuration changed to each of several values, loaded once and twice, with and without SARDIR", Run: changed},
			{Name: "tables", Bounds: "every command, flag, directory flag, frame flag list and timestamp table entry changed or added", Run: tables},
			{Name: "reload", Bounds: "every such change loaded first, then the shipped configuration", Run: reload(false)},
			{Name: "reload-both", Bounds: "every such change loaded first, then every such change", Run: reload(true), Thorough: true},
			{Name: "corrupt", Bounds: "every value of the shipped configuration, at every depth, replaced by each other JSON type or left out", Run: corrupt},
			{Name: "truncated", Bounds: "the shipped configuration cut at every byte", Run: truncated, Shard: 1},
			{Name: "nofile", Bounds: "missing, unreadable, empty and non-configuration files", Run: nofile, Shard: 1},
			{Name: "copy", Bounds: "every setting changed before a copy x every setting changed afterwards in the original or the copy, 9 kinds of change, SARDIR set to another directory or not", Run: copying},
			{Name: "copy-values", Bounds: "any two global flags set to any of their values, copied, and any value set afterwards in the original and in the copy", Run: values},
		}})
}
