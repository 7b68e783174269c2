// C12: file metadata is truthful for every kind of directory entry.
package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"net"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/fileio"
	"github.com/charlesetsmith/saratoga/metadata"

	"verif/checks/h"
	"verif/mc"
	"verif/vtime"
)

// kinds of entries; make creates the entry at full path p.
type kind struct {
	name string
	file string // name in the transfer directory
	make func(p string) error
}

func write(n int) func(string) error {
	return func(p string) error {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i * 7)
		}
		return os.WriteFile(p, b, 0o640)
	}
}

func sparse(n int64) func(string) error {
	return func(p string) error {
		f, err := os.Create(p)
		if err != nil {
			return err
		}
		defer f.Close()
		return f.Truncate(n)
	}
}

var kinds = []kind{
	{"missing", "missing", func(string) error { return nil }},
	{"empty file", "f", write(0)},
	{"file", "f", write(1)},
	{"file 65534", "f", write(65534)},
	{"file 65535", "f", write(65535)},
	{"file 65536", "f", write(65536)},
	{"file 1M+5", "f", write(1<<20 + 5)},
	{"file in a directory", "sub/f", write(77)},
	{"odd name", "caf\u00e9 \xff,=x", write(5)},
	{"dot name", "./f", write(9)},
	{"slash name", "//f", write(9)},
	{"detour name", "sub/../f", write(9)},
	{"hidden", ".f", write(9)},
	{"spaces", " f ", write(9)},
	{"executable", "x", func(p string) error { return os.WriteFile(p, []byte("#!"), 0o755) }},
	{"unreadable file", "u", func(p string) error { return os.WriteFile(p, []byte("secret"), 0o000) }},
	{"sparse 4G-1", "big", sparse(1<<32 - 1)},
	{"sparse 4G", "big", sparse(1 << 32)},
	{"sparse 5G", "big", sparse(5 << 30)},
	{"directory", "d", func(p string) error { return os.Mkdir(p, 0o755) }},
	{"directory slash", "d/", func(p string) error { return os.Mkdir(p, 0o755) }},
	{"full directory", "d", func(p string) error {
		if err := os.Mkdir(p, 0o755); err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(p, "x"), []byte("x"), 0o644)
	}},
	{"transfer directory", "", func(string) error { return nil }},
	{"transfer directory dot", ".", func(string) error { return nil }},
	{"link to file", "l", func(p string) error {
		os.WriteFile(p+".to", []byte("target content"), 0o600)
		return os.Symlink(filepath.Base(p)+".to", p)
	}},
	{"link to link", "l", func(p string) error {
		os.WriteFile(p+".to", []byte("target content"), 0o600)
		os.Symlink(filepath.Base(p)+".to", p+".mid")
		return os.Symlink(p+".mid", p)
	}},
	{"link to directory", "l", func(p string) error {
		os.Mkdir(p+".to", 0o755)
		return os.Symlink(filepath.Base(p)+".to", p)
	}},
	{"link to link to directory", "l", func(p string) error {
		os.Mkdir(p+".to", 0o755)
		os.Symlink(filepath.Base(p)+".to", p+".mid")
		return os.Symlink(p+".mid", p)
	}},
	{"dangling link", "l", func(p string) error { return os.Symlink("nowhere", p) }},
	{"link loop", "l", func(p string) error { return os.Symlink("l", p) }},
	{"link to odd name", "l", func(p string) error {
		os.WriteFile(filepath.Join(filepath.Dir(p), "caf\u00e9 \u65e5\xff"), []byte("12"), 0o600)
		return os.Symlink("caf\u00e9 \u65e5\xff", p)
	}},
	{"link out", "l", func(p string) error { return os.Symlink("/", p) }},
	{"pipe", "p", func(p string) error { return syscall.Mkfifo(p, 0o644) }},
	{"socket", "s", func(p string) error {
		l, err := net.ListenUnix("unix", &net.UnixAddr{Name: filepath.Join("/proc/self/cwd", filepath.Base(p)), Net: "unix"})
		if err != nil {
			return err
		}
		l.SetUnlinkOnClose(false)
		return l.Close()
	}},
	{"name too long", strings.Repeat("n", 300), func(string) error { return nil }},
	{"path of 1024", strings.Repeat("x/", 511) + "yy", func(p string) error { os.MkdirAll(filepath.Dir(p), 0o755); return write(3)(p) }},
	{"path of 1025", strings.Repeat("x/", 512) + "y", func(p string) error { os.MkdirAll(filepath.Dir(p), 0o755); return write(3)(p) }},
	{"below a file", "f/g", func(p string) error { return write(3)(filepath.Dir(p)) }},
}

// modification times
var times = []time.Time{
	time.Unix(h.Epoch2000, 0), time.Unix(h.Epoch2000, 999999999), time.Unix(h.Epoch2000+1, 0), time.Unix(1600000000, 123456789),
	time.Unix(1<<31, 0), time.Unix(1<<32+77, 0), time.Unix(h.Epoch2000+1<<32-1, 0),
	time.Unix(h.Epoch2000-1, 0), time.Unix(0, 0), time.Unix(h.Epoch2000+1<<32, 0),
}

func clean() {
	es, _ := os.ReadDir(h.Dir)
	for _, e := range es {
		os.RemoveAll(filepath.Join(h.Dir, e.Name()))
	}
}

func lutimes(p string, t time.Time) error {
	ts := []syscall.Timespec{syscall.NsecToTimespec(t.UnixNano()), syscall.NsecToTimespec(t.UnixNano())}
	if t.Unix() > 1<<33 {
		ts[0] = syscall.Timespec{Sec: t.Unix(), Nsec: int64(t.Nanosecond())}
		ts[1] = ts[0]
	}
	return utimensat(p, ts)
}

type real struct {
	err  error
	fi   os.FileInfo
	link string
	dir  bool // leads to a directory
}

// prepare makes the entry and says what it really is.
func prepare(c *mc.Ctx, k kind, t time.Time) (string, real) {
	h.Fresh()
	clean()
	os.Mkdir(filepath.Join(h.Dir, "sub"), 0o755)
	p := filepath.Join(h.Dir, k.file)
	if err := os.Chdir(filepath.Dir(p)); err != nil {
		os.Chdir(h.Dir)
	}
	if err := k.make(p); err != nil {
		if strings.HasPrefix(k.name, "sparse") || k.name == "socket" {
			c.Skip() // not offered by this file system
		}
		panic(err)
	}
	os.Chdir(h.Dir)
	if _, err := os.Lstat(p); err == nil {
		if lutimes(p, t) != nil {
			c.Skip()
		}
		if fi, _ := os.Lstat(p); fi.ModTime().Unix() != t.Unix() {
			c.Skip() // the file system cannot hold the time
		}
	}
	var r real
	r.fi, r.err = os.Lstat(p)
	if r.err == nil && r.fi.Mode()&os.ModeSymlink != 0 {
		r.link, _ = os.Readlink(p)
	}
	if st, err := os.Stat(p); err == nil {
		r.dir = st.IsDir()
	}
	return p, r
}

func meta(c *mc.Ctx) {
	k := mc.Of(c, "kind", kinds)
	t := mc.Of(c, "mtime", times)
	_, r := prepare(c, k, t)
	var m *fileio.FileMetaData
	var err error
	c.Must("FileMeta", func() { m, err = fileio.FileMeta(k.file) })
	c.Op(1)
	c.Logf("%s: %v", k.name, err)
	if (err == nil) != (r.err == nil) {
		c.Fail("meta-error", "%s: error %v, really %v", k.name, err, r.err)
	}
	if err != nil {
		return
	}
	sym := r.fi.Mode()&os.ModeSymlink != 0
	switch {
	case m.Size != r.fi.Size():
		c.Fail("meta-size", "%s: size %d, really %d", k.name, m.Size, r.fi.Size())
	case !m.ModTime.Equal(r.fi.ModTime()):
		c.Fail("meta-time", "%s: time %v, really %v", k.name, m.ModTime, r.fi.ModTime())
	case m.Mode != r.fi.Mode():
		c.Fail("meta-mode", "%s: mode %v, really %v", k.name, m.Mode, r.fi.Mode())
	case m.IsSymLink != sym || m.IsDir != r.dir || m.IsRegular != r.fi.Mode().IsRegular() || m.IsNamedPipe != (r.fi.Mode()&os.ModeNamedPipe != 0):
		c.Fail("meta-kind", "%s: link %v directory %v file %v pipe %v, really %v (leads to a directory: %v)", k.name, m.IsSymLink, m.IsDir, m.IsRegular, m.IsNamedPipe, r.fi.Mode(), r.dir)
	case sym && m.Origin != r.link:
		c.Fail("meta-link", "%s: leads to %q, really %q", k.name, m.Origin, r.link)
	case filepath.Base(m.Path) != r.fi.Name():
		c.Fail("meta-path", "%s: path %q, really %q", k.name, m.Path, r.fi.Name())
	}
	st := r.fi.Sys().(*syscall.Stat_t)
	if m.Uid != int(st.Uid) || m.Gid != int(st.Gid) {
		c.Fail("meta-owner", "%s: owner %d.%d", k.name, m.Uid, m.Gid)
	}
}

func inRange(t time.Time) bool { return t.Unix() >= h.Epoch2000 && t.Unix()-h.Epoch2000 < 1<<32 }

func entryHolds(c *mc.Ctx, what string, d *dirent.DirEnt, r real, path string) {
	if d.Size != uint64(r.fi.Size()) {
		c.Fail("entry-size", "%s: size %d, really %d", what, d.Size, r.fi.Size())
	}
	if want := uint64(r.fi.ModTime().Unix() - h.Epoch2000); d.Mtime.Secs() != want {
		c.Fail("entry-time", "%s: modified %d seconds after 2000, really %d", what, d.Mtime.Secs(), want)
	}
	st := r.fi.Sys().(*syscall.Stat_t)
	if want := uint64(st.Ctim.Sec - h.Epoch2000); d.Ctime.Secs() != want {
		c.Fail("entry-time", "%s: created %d seconds after 2000, really %d", what, d.Ctime.Secs(), want)
	}
	if d.Path != path {
		c.Fail("entry-path", "%s: path %q, really %q", what, d.Path, path)
	}
}

func entries(c *mc.Ctx) {
	k := mc.Of(c, "kind", kinds)
	t := mc.Of(c, "mtime", times)
	prop := mc.Of(c, "property", []string{"normalfile", "normaldirectory"})
	_, r := prepare(c, k, t)
	for _, desc := range []string{"d16", "d32", "d64"} {
		for used := 0; used < 2; used++ {
			var d dirent.DirEnt
			if used == 1 {
				d.Size, d.Path = 99, "old"
				d.Mtime.Now("epoch2000_32")
			}
			var err error
			c.Must("dirent.New", func() { err = d.New("descriptor="+desc+",property="+prop, k.file) })
			c.Op(1)
			ok := r.err == nil && inRange(t) && len(k.file) <= 1024
			if (err == nil) != ok {
				c.Fail("entry-error", "%s modified %v: error %v", k.name, t, err)
			}
			if err == nil {
				entryHolds(c, k.name, &d, r, k.file)
			}
			var e dirent.DirEnt
			c.Must("Statfile", func() { err = e.Statfile(k.file) })
			if (err == nil) != (r.err == nil && inRange(t)) {
				c.Fail("entry-error", "%s modified %v: error %v", k.name, t, err)
			}
			if err == nil {
				entryHolds(c, k.name, &e, r, "")
			}
		}
	}
}

// flag lists of entries; special entries are streams, of no size, modified now
func special(c *mc.Ctx) {
	now := mc.Of(c, "now", []int64{h.Epoch2000, 1650000000, 1<<32 + 5, h.Epoch2000 + 1<<32 - 1, h.Epoch2000 + 1<<32})
	k := mc.Of(c, "kind", []string{"pipe", "file"})
	used := c.Bool("re-used")
	spaces := c.Bool("spaces")
	for _, kk := range kinds {
		if kk.name == k {
			_, _ = prepare(c, kk, times[3])
			vtime.Clock = time.Unix(now, 5)
			for _, p := range []string{"specialfile", "specialdirectory", "normalfile", "normaldirectory"} {
				for _, desc := range []string{"", "d16", "d32", "d64"} {
					text := "property=" + p
					want := []string{"property", p}
					if desc != "" {
						text = "descriptor=" + desc + "," + text
						want = append(want, "descriptor", desc)
					}
					if spaces {
						text = " " + strings.ReplaceAll(strings.ReplaceAll(text, "=", " = "), ",", " , ") + "  "
					}
					var d dirent.DirEnt
					if used {
						d.Decode([]byte{0x80, 0, 0, 9, 0, 0, 0, 1, 0, 0, 0, 2, 'o', 'l', 'd', 0})
					}
					var err error
					c.Must("dirent.New", func() { err = d.New(text, kk.file) })
					c.Op(1)
					sp := strings.HasPrefix(p, "special")
					if (err == nil) != (!sp || inRange(vtime.Clock)) {
						c.Fail("special", "%q at %v: error %v", text, vtime.Clock, err)
					}
					if err != nil {
						continue
					}
					w := h.Header16(want...)
					if d.Header != w || d.Path != kk.file {
						c.Fail("special", "%q: header %04x (want %04x) path %q", text, d.Header, w, d.Path)
					}
					if sp && (d.Size != 0 || d.Mtime.Secs() != uint64(now-h.Epoch2000) || d.Ctime.Secs() != uint64(now-h.Epoch2000)) {
						c.Fail("special", "%q: size %d modified %d created %d", text, d.Size, d.Mtime.Secs(), d.Ctime.Secs())
					}
				}
			}
			for _, bad := range []string{"nosuch=1", "descriptor=d8", "property=odd", "csumtype=none", "transfer=file", "descriptor=d16,property=odd", "property=normalfile,nosuch=1"} {
				var d dirent.DirEnt
				var err error
				c.Must("dirent.New", func() { err = d.New(bad, kk.file) })
				if err == nil {
					c.Fail("bad-flags", "%q is accepted for an entry", bad)
				}
			}
		}
	}
}

func sum(kind string, b []byte) []byte {
	switch kind {
	case "crc32":
		return binary.BigEndian.AppendUint32(nil, crc32.ChecksumIEEE(b))
	case "md5":
		s := md5.Sum(b)
		return s[:]
	case "sha1":
		s := sha1.Sum(b)
		return s[:]
	}
	return nil
}

func frames(c *mc.Ctx) {
	k := mc.Of(c, "kind", kinds)
	t := mc.Of(c, "mtime", times)
	tr := mc.Of(c, "transfer", []string{"file", "directory", "stream", "bundle"})
	if strings.HasPrefix(k.name, "sparse") && (t != times[3] || tr != "file") {
		c.Skip() // large files are summed once
	}
	p, r := prepare(c, k, t)
	vtime.Clock = time.Unix(1650000000, 0)
	for _, ct := range []string{"none", "crc32", "md5", "sha1"} {
		if strings.HasPrefix(k.name, "sparse") && ct != "none" {
			continue
		}
		// what a frame can carry
		ok := r.err == nil && len(k.file) <= 1024
		prop := ""
		var content []byte
		if ok {
			switch m := r.fi.Mode(); {
			case m.IsRegular():
				prop = "normalfile"
				var rerr error
				if ct != "none" {
					content, rerr = os.ReadFile(p)
				} else if f, e := os.Open(p); e != nil {
					rerr = e
				} else {
					f.Close()
				}
				ok = tr == "file" && inRange(t) && rerr == nil
			case m.IsDir():
				prop = "normaldirectory"
				ok = tr == "directory" && inRange(t) && ct == "none"
			case m&os.ModeNamedPipe != 0:
				prop = "specialfile"
				ok = tr == "stream" && ct == "none"
			default:
				ok = false
			}
		}
		for how := 0; how < 4; how++ {
			var m metadata.MetaData
			if how >= 2 { // used before
				m.Decode(append([]byte{0x22, 0, 0, 0x11, 0, 0, 0, 9, 1, 2, 3, 4, 0x80, 0, 0, 9, 0, 0, 0, 1, 0, 0, 0, 2}, "old\x00"...))
			}
			var err error
			info := &metadata.Minfo{Session: 7, Fname: k.file}
			if how&1 == 0 {
				c.Must("metadata.New", func() { err = m.New("transfer="+tr+",csumtype="+ct, info) })
			} else {
				c.Must("metadata.Make", func() { err = m.Make(h.Header("metadata", "transfer", tr, "csumtype", ct), info) })
			}
			c.Op(1)
			what := fmt.Sprintf("%s as %s with checksum %s", k.name, tr, ct)
			if (err == nil) != ok {
				c.Fail("frame-error", "%s modified %v: error %v, can be carried: %v", what, t, err, ok)
			}
			if err != nil {
				continue
			}
			buf, err := m.Encode()
			if err != nil {
				c.Fail("frame-encode", "%s: %v", what, err)
			}
			var g metadata.MetaData
			if err = g.Decode(buf); err != nil {
				c.Fail("frame-decode", "%s: %v", what, err)
			}
			if g.Session != 7 || !h.Is(g.Header, "transfer", tr) || !h.Is(g.Header, "csumtype", ct) || !h.Is(g.Header, "frametype", "metadata") {
				c.Fail("frame-header", "%s: header %08x session %d", what, g.Header, g.Session)
			}
			if !bytes.Equal(g.Checksum, sum(ct, content)) {
				c.Fail("frame-checksum", "%s: checksum %x, really %x", what, g.Checksum, sum(ct, content))
			}
			if q := h.D("property"); q.NameOf(q.Get(16, uint32(g.Dir.Header))) != prop {
				c.Fail("frame-kind", "%s: described as %s, really %s", what, q.NameOf(q.Get(16, uint32(g.Dir.Header))), prop)
			}
			if prop == "specialfile" {
				if g.Dir.Size != 0 || g.Dir.Mtime.Secs() != 1650000000-h.Epoch2000 || g.Dir.Path != k.file {
					c.Fail("special", "%s: size %d modified %d path %q", what, g.Dir.Size, g.Dir.Mtime.Secs(), g.Dir.Path)
				}
				continue
			}
			entryHolds(c, what, &g.Dir, r, k.file)
		}
	}
}

// every size near the width limits
func sizes(c *mc.Ctx) {
	n := mc.Of(c, "size", []int64{0, 1, 255, 256, 65533, 65534, 65535, 65536, 65537, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 33})
	how := c.Bool("make")
	k := kind{"sparse", "big", sparse(n)}
	p, _ := prepare(c, k, times[3])
	r := real{}
	r.fi, r.err = os.Lstat(p)
	var m, g metadata.MetaData
	var err error
	if how {
		err = m.Make(h.Header("metadata", "transfer", "file"), &metadata.Minfo{Session: 7, Fname: "big"})
	} else {
		err = m.New("transfer=file,csumtype=none", &metadata.Minfo{Session: 7, Fname: "big"})
	}
	c.Op(1)
	if err != nil {
		c.Fail("frame-error", "file of %d bytes: %v", n, err)
	}
	buf, err := m.Encode()
	if err == nil {
		err = g.Decode(buf)
	}
	if err != nil {
		c.Fail("frame-encode", "file of %d bytes: %v", n, err)
	}
	entryHolds(c, fmt.Sprintf("file of %d bytes", n), &g.Dir, r, "big")
	clean()
}

func main() {
	mc.Main(&mc.Check{ID: "C12", Setup: h.Setup,
		Assume: []string{"creation time is the inode change time (Linux)", "modification times from 2000 to 2136 can be described"},
		Scenarios: []mc.Scenario{
			{Name: "meta", Bounds: "38 kinds of entries x 10 modification times", Run: meta},
			{Name: "entries", Bounds: "38 kinds x 10 times x 2 properties x 3 widths, fresh and re-used", Run: entries},
			{Name: "flags", Bounds: "4 properties x 4 widths with and without spaces, for a pipe and a file, at 5 times of day, fresh and re-used, 7 undefined flags or values", Run: special},
			{Name: "frames", Bounds: "38 kinds x 10 times x 4 transfer types x 4 checksums x 2 ways to build, fresh and re-used", Run: frames},
			{Name: "sizes", Bounds: "17 sizes around the width limits x 2 ways to build", Run: sizes},
		}})
}
