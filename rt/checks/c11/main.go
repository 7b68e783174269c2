// C11: file operations stay in the transfer directory and never clobber.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/fileio"
	"github.com/charlesetsmith/saratoga/metadata"

	"verif/checks/h"
	"verif/mc"
	"verif/vos"
)

var base map[string]string
var world string // the directory around the transfer directory

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// build makes the world: the transfer directory and things around it that must not be touched.
func build() {
	must(os.RemoveAll(world))
	must(os.MkdirAll(filepath.Join(world, "sardir/sub/deep"), 0o755))
	must(os.MkdirAll(filepath.Join(world, "sardir/empty"), 0o755))
	must(os.MkdirAll(filepath.Join(world, "sardir-evil"), 0o755))
	must(os.MkdirAll(filepath.Join(world, "out"), 0o755))
	must(os.MkdirAll(filepath.Join(world, "bare"), 0o755))
	for n, s := range map[string]string{"sardir/a": "inside a", "sardir/sub/a": "inside sub a", "sardir/sub/deep/b": "inside b", "a": "outside a", "b": "outside b", "out/a": "outside out a", "sardir-evil/a": "evil a", "sub": "outside sub"} {
		must(os.WriteFile(filepath.Join(world, n), []byte(s), 0o644))
	}
	must(os.WriteFile(filepath.Join(world, "sardir/zero"), nil, 0o644))
	must(os.WriteFile(filepath.Join(world, "sardir/locked"), []byte("inside locked"), 0o400))
	must(os.WriteFile(filepath.Join(world, "sardir/.hidden"), []byte("inside hidden"), 0o755))
	must(os.Chtimes(filepath.Join(world, "sardir/.hidden"), time.Unix(0, 0), time.Unix(0, 0)))
	must(os.Symlink("a", filepath.Join(world, "sardir/link")))
	must(os.Symlink("nowhere", filepath.Join(world, "sardir/dangling")))
	must(os.Symlink("sub", filepath.Join(world, "sardir/dirlink")))
	must(syscall.Mkfifo(filepath.Join(world, "sardir/pipe"), 0o644))
	base = h.Tree(world)
}

func setup(c *mc.Ctx) {
	h.Setup(c)
	world = filepath.Join(c.Dir(), "w")
	h.Dir = filepath.Join(world, "sardir")
	build()
}

// the names are sequences of components with separators
var comps = []string{"..", ".", "", "a", "b", "sub", "deep", "link", "dangling", "dirlink", "empty", "pipe", "new", "out", "sardir-evil", "sardir", "...", "..a", "~", "a\\..\\b", "zero", "locked", ".hidden"}

type op struct {
	name string
	run  func(name string) (opened *os.File, err error)
}

var ops = []op{
	{"exists", func(n string) (*os.File, error) {
		if !fileio.FileExists(n) {
			return nil, os.ErrNotExist
		}
		return nil, nil
	}},
	{"open-get", func(n string) (*os.File, error) { return fileio.FileOpen(n, "get") }},
	{"open-take", func(n string) (*os.File, error) { return fileio.FileOpen(n, "take") }},
	{"open-put", func(n string) (*os.File, error) { return fileio.FileOpen(n, "put") }},
	{"open-putblind", func(n string) (*os.File, error) { return fileio.FileOpen(n, "putblind") }},
	{"open-give", func(n string) (*os.File, error) { return fileio.FileOpen(n, "give") }},
	{"open-delete", func(n string) (*os.File, error) { return fileio.FileOpen(n, "delete") }},
	{"open-bogus", func(n string) (*os.File, error) { return fileio.FileOpen(n, "bogus") }},
	{"rm", func(n string) (*os.File, error) { return nil, fileio.FileRm(n) }},
	{"open-and-delete", func(n string) (*os.File, error) {
		fp, err := fileio.FileOpen(n, "give")
		if err != nil {
			return nil, err
		}
		return nil, fileio.FileDelete(fp)
	}},
	{"create-and-delete", func(n string) (*os.File, error) {
		fp, err := fileio.FileOpen(n, "get")
		if err != nil {
			return nil, err
		}
		return nil, fileio.FileDelete(fp)
	}},
	{"meta", func(n string) (*os.File, error) { _, err := fileio.FileMeta(n); return nil, err }},
	{"checksum", func(n string) (*os.File, error) { _, err := fileio.Checksum("crc32", n); return nil, err }},
	{"dirent", func(n string) (*os.File, error) {
		var d dirent.DirEnt
		return nil, d.New("property=normalfile,descriptor=d32", n)
	}},
	{"metadata", func(n string) (*os.File, error) {
		var m metadata.MetaData
		return nil, m.New("transfer=file,csumtype=md5", &metadata.Minfo{Session: 1, Fname: n})
	}},
	{"metadata-dir", func(n string) (*os.File, error) {
		var m metadata.MetaData
		return nil, m.Make(h.Header("metadata", "transfer", "directory"), &metadata.Minfo{Session: 1, Fname: n})
	}},
}

// inside reports whether a path the program used is in the transfer directory (links not followed).
func inside(p string) bool {
	if p == "" {
		return true // names nothing
	}
	if !filepath.IsAbs(p) {
		wd, _ := os.Getwd()
		p = filepath.Join(wd, p)
	}
	// every prefix of the path must be inside as well: no climbing through ".."
	p = filepath.Clean(p)
	return p == h.Dir || strings.HasPrefix(p, h.Dir+"/")
}

// place is where a name in the transfer directory really is, relative to the world.
func place(rel string) string {
	p := filepath.Join(h.Dir, rel)
	if rel != "." {
		if d, err := filepath.EvalSymlinks(filepath.Dir(p)); err == nil {
			p = filepath.Join(d, filepath.Base(p))
		}
	}
	w, _ := filepath.EvalSymlinks(world)
	if r, err := filepath.Rel(w, p); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	r, _ := filepath.Rel(world, p)
	return r
}

func check(c *mc.Ctx, o op, name string) {
	h.Fresh()
	vcli(h.Dir)
	rel, climbs := h.Lexical(name)
	if strings.HasSuffix(name, "/") && rel != "." {
		climbs = true // whether a trailing slash asks for a directory is left open
	}
	target := filepath.Join(h.Dir, rel)
	lfi, lerr := os.Lstat(target)
	fi, serr := os.Stat(target)
	var rec []vos.Op
	vos.Record = &rec
	var fp *os.File
	var err error
	c.Must(o.name, func() { fp, err = o.run(name) })
	vos.Record = nil
	c.Op(1)
	c.Logf("%s %q: %v", o.name, name, err)
	for _, r := range rec {
		if !inside(r.Path) {
			c.Fail("escape", "%s of %q uses %s %s", o.name, name, r.Name, r.Path)
		}
	}
	opened := ""
	if fp != nil {
		opened = fp.Name()
		defer fp.Close()
		if !inside(opened) {
			c.Fail("escape", "%s of %q opens %s", o.name, name, opened)
		}
	}
	now := h.Tree(world)
	diff := h.Diff(base, now)
	if len(diff) > 0 {
		defer build()
	}
	key := place(rel)
	exists := lerr == nil
	plain := serr == nil && (fi.Mode().IsRegular() || fi.IsDir())
	fail := func(sig, format string, a ...any) {
		c.Fail(sig, "%s of %q: %s (changed: %v, error: %v)", o.name, name, fmt.Sprintf(format, a...), diff, err)
	}
	none := len(diff) == 0
	only := func(s string) bool { return len(diff) == 1 && diff[0] == s }
	switch o.name {
	case "open-get", "open-take":
		if exists {
			if err == nil {
				fail("clobber", "a file that exists is opened to receive")
			}
			if !none {
				fail("changed", "something changed")
			}
		} else if err == nil {
			if !only("+" + key) {
				fail("changed", "must create exactly %s", rel)
			}
			if st, e := fp.Stat(); e != nil || st.Size() != 0 {
				fail("open", "the new file is not empty")
			}
			if n, e := fp.Write([]byte("x")); n != 1 || e != nil {
				fail("open", "the new file cannot be written")
			}
		} else {
			if !none {
				fail("changed", "something changed")
			}
			if pfi, e := os.Stat(filepath.Dir(target)); e == nil && pfi.IsDir() && !climbs && rel != "." {
				fail("open", "a new file is refused")
			}
		}
	case "open-put", "open-putblind", "open-give":
		if !none {
			fail("changed", "opening to read changes something")
		}
		if plain != (err == nil) && !climbs {
			fail("open", "readable: %v", plain)
		}
		if err == nil && fi != nil && fi.Mode().IsRegular() {
			want, _ := os.ReadFile(target)
			got, e := os.ReadFile(opened)
			if e != nil || !bytes.Equal(got, want) {
				fail("open", "another file is opened: %s", opened)
			}
			if _, e := fp.Write([]byte("x")); e == nil {
				fail("open", "a file opened to read can be written")
			}
		}
	case "rm":
		switch {
		case rel == ".":
			if err == nil || !none {
				fail("rm-dir", "the transfer directory is removed")
			}
		case !exists:
			if err == nil || !none {
				fail("rm", "nothing to remove")
			}
		case lfi.IsDir() && rel != "empty":
			if err == nil || !none {
				fail("rm", "a directory that is not empty is removed")
			}
		case err != nil:
			if !none || !climbs {
				fail("rm", "must remove %s", rel)
			}
		case !only("-" + key):
			fail("rm", "must remove exactly %s", rel)
		}
	case "open-and-delete":
		switch {
		case !plain || rel == "." || (lfi.IsDir() && rel != "empty"):
			if err == nil || !none {
				fail("delete", "nothing can be deleted")
			}
		case err != nil:
			if !none || !climbs {
				fail("delete", "must remove %s", rel)
			}
		case !only("-" + key):
			fail("delete", "must remove exactly %s", rel)
		}
	case "create-and-delete":
		if !none {
			fail("delete", "something changed")
		}
		if exists && err == nil {
			fail("clobber", "a file that exists is opened to receive")
		}
	case "open-bogus":
		if err == nil || !none {
			fail("bogus", "an unknown kind of transfer must be refused")
		}
	case "open-delete":
		if !none {
			fail("changed", "something changed")
		}
	case "exists":
		if !none {
			fail("changed", "something changed")
		}
		if (err == nil) != plain && !climbs {
			fail("exists", "existence of %s must be %v", rel, plain)
		}
	default:
		if !none {
			fail("changed", "something changed")
		}
		if err == nil && !exists {
			fail("described", "something that does not exist is described")
		}
	}
}

func names(depth int, from []string) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		lead := mc.Of(c, "lead", []string{"", "/", "//", "./", "../"})
		first := c.Pick("first", len(from))
		parts := []string{from[first]}
		for i := 1; i < depth; i++ {
			k := c.Pick("next", len(from)+1)
			if k == 0 {
				break
			}
			parts = append(parts, from[k-1])
		}
		name := lead + strings.Join(parts, "/")
		if name == "" {
			name = ""
		}
		for _, o := range ops {
			check(c, o, name)
		}
		if c.Bool("slash") {
			for _, o := range ops {
				check(c, o, name+"/")
			}
		}
	}
}

// names made of the real paths
func absolute(c *mc.Ctx) {
	k := c.Pick("name", 10)
	o := mc.Of(c, "op", ops)
	name := []string{
		filepath.Join(world, "a"), filepath.Join(world, "sardir", "a"), "/etc/passwd", "/proc/self/environ", "../../../../../../../../etc/passwd",
		"sub/../../a", "sub/deep/../../../out/a", "../sardir/a", "../sardir-evil/a", "dirlink/../../a"}[k]
	check(c, o, name)
}

// long: names that are much longer than what they name
func long(c *mc.Ctx) {
	part := mc.Of(c, "part", []string{"./", "/", "sub/../", "../", "new/../", "no such/../", "dirlink/../", "sub/deep/../../"})
	size := mc.Of(c, "bytes", []int{100, 130, 256, 300, 520, 1030, 2050, 3000})
	last := mc.Of(c, "last", []string{"a", "../a", "../../out/a", "../sardir-evil/a", "new", "sub/new", "..", ".", ""})
	name := strings.Repeat(part, size/len(part)+1) + last
	for _, o := range ops {
		check(c, o, name)
	}
}

// any transfer directory, also one given with a trailing slash, relative parts or the root
func dirs(c *mc.Ctx) {
	d := mc.Of(c, "dir", []string{"", "/", "/.", "/../sardir", "/sub/.."})
	name := mc.Of(c, "name", []string{"a", "../a", "sub/a", "/a", "new", "sub/../../a", "..", "."})
	o := mc.Of(c, "op", ops)
	suffix = d
	defer func() { suffix = "" }()
	check(c, o, name)
}

// bare: a transfer directory with nothing in it
func bare(c *mc.Ctx) {
	was := h.Dir
	h.Dir = filepath.Join(world, "bare")
	defer func() { h.Dir = was }()
	n := c.Pick("components", 4)
	parts := []string{mc.Of(c, "lead", []string{"", ".", "/", "..", "./", "//"})}
	for i := 0; i < n; i++ {
		parts = append(parts, mc.Of(c, "next", []string{"..", ".", "", "new", "bare", "~"}))
	}
	name := strings.Join(parts, "/")
	suffix = mc.Of(c, "dir", []string{"", "/", "/../bare"})
	defer func() { suffix = "" }()
	for _, o := range ops {
		check(c, o, name)
	}
}

var suffix string

func vcli(dir string) { cli(dir + suffix) }

// sequences of changes: the directory is exactly what the operations say
func sequences(depth int) func(*mc.Ctx) {
	type act struct{ op, name string }
	var acts []act
	for _, n := range []string{"a", "new", "sub/a", "../a", "link", "empty", "sub/new", "zero"} {
		for _, o := range []string{"get", "rm", "put", "del"} {
			acts = append(acts, act{o, n})
		}
	}
	return func(c *mc.Ctx) {
		h.Fresh()
		vcli(h.Dir)
		defer build()
		for i := 0; i < depth; i++ {
			a := acts[c.Pick("act", len(acts))]
			rel, climbs := h.Lexical(a.name)
			key := place(rel)
			before := h.Tree(world)
			var err error
			var fp *os.File
			want := ""
			_, exists := before[key]
			switch a.op {
			case "get":
				c.Must("FileOpen", func() { fp, err = fileio.FileOpen(a.name, "get") })
				if !exists {
					want = "+" + key
				}
				if fp != nil {
					fp.Write([]byte("received " + a.name))
					fp.Close()
				}
			case "rm":
				c.Must("FileRm", func() { err = fileio.FileRm(a.name) })
				if exists {
					want = "-" + key
				}
			case "put":
				c.Must("FileOpen", func() { fp, err = fileio.FileOpen(a.name, "put") })
				if fp != nil {
					fp.Close()
				}
			case "del":
				c.Must("FileOpen", func() { fp, err = fileio.FileOpen(a.name, "give") })
				if err == nil {
					c.Must("FileDelete", func() { err = fileio.FileDelete(fp) })
					want = "-" + key
				}
			}
			c.Op(1)
			diff := h.Diff(before, h.Tree(world))
			c.Logf("%s %s: %v %v", a.op, a.name, err, diff)
			ok := len(diff) == 0
			if err == nil && want != "" {
				ok = len(diff) == 1 && diff[0] == want
			}
			if !ok {
				c.Fail("sequence", "step %d %s %q: error %v, changed %v, want %q", i, a.op, a.name, err, diff, want)
			}
			if a.op == "get" && exists && err == nil {
				c.Fail("clobber", "step %d: a file that exists is opened to receive", i)
			}
			if !climbs && want != "" && err != nil {
				c.Fail("sequence", "step %d %s %q is refused: %v", i, a.op, a.name, err)
			}
		}
	}
}

func main() {
	some := []string{"..", "a", "sub", "new", "link", "dirlink", "out", ".", "", "zero"}
	mc.Main(&mc.Check{ID: "C11", Setup: setup,
		Assume: []string{"links placed in the transfer directory by its owner may lead elsewhere: a path is judged without following links",
			"a name that climbs above the transfer directory may be refused or taken inside it", "receiving a directory (unfinished in the program) is not covered"},
		Scenarios: []mc.Scenario{
			{Name: "names", Bounds: "all names of up to 2 of 23 components, 5 beginnings, trailing slash x 16 operations; every path given to the operating system is recorded and the whole tree compared", Run: names(2, comps)},
			{Name: "names-3", Bounds: "all names of up to 3 of 10 components x 16 operations", Run: names(3, some), Thorough: true},
			{Name: "absolute", Bounds: "10 absolute and climbing names x 16 operations", Run: absolute},
			{Name: "long", Bounds: "8 components repeated up to 8 lengths from 100 to 3000 bytes, 9 endings x 16 operations", Run: long},
			{Name: "dirs", Bounds: "5 spellings of the transfer directory x 8 names x 16 operations", Run: dirs},
			{Name: "bare", Bounds: "a transfer directory with nothing in it, spelt 3 ways: all names of up to 3 of 6 components, 6 beginnings x 16 operations", Run: bare},
			{Name: "sequences", Bounds: "all sequences of 2 of 32 opens, removals and deletes", Run: sequences(2), Quick: true},
			{Name: "sequences-3", Bounds: "all sequences of 3 of 32", Run: sequences(3), Thorough: true},
		}})
}
