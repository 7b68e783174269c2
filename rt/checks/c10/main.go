// C10: positional file reads, writes and checksums are exact.
package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"github.com/charlesetsmith/saratoga/fileio"

	"verif/checks/h"
	"verif/mc"
)

func csum(kind string, b []byte) []byte {
	switch kind {
	case "crc32":
		return binary.BigEndian.AppendUint32(nil, crc32.ChecksumIEEE(b))
	case "md5":
		s := md5.Sum(b)
		return s[:]
	case "sha1":
		s := sha1.Sum(b)
		return s[:]
	}
	return nil
}

func sums(c *mc.Ctx, name string, content []byte) {
	for _, k := range []string{"none", "crc32", "md5", "sha1"} {
		var got []byte
		var err error
		c.Must("Checksum", func() { got, err = fileio.Checksum(k, name) })
		c.Op(1)
		if err != nil || !bytes.Equal(got, csum(k, content)) {
			c.Fail("checksum", "%s of %q (%d bytes): %x %v, want %x", k, name, len(content), got, err, csum(k, content))
		}
	}
}

// clean empties the transfer directory.
func clean() {
	es, _ := os.ReadDir(h.Dir)
	for _, e := range es {
		os.RemoveAll(filepath.Join(h.Dir, e.Name()))
	}
}

type model struct{ b []byte }

func (m *model) write(pos int, p []byte) {
	if len(p) == 0 {
		return
	}
	for len(m.b) < pos+len(p) {
		m.b = append(m.b, 0)
	}
	copy(m.b[pos:], p)
}

func (m *model) read(pos, n int) []byte {
	if pos >= len(m.b) {
		return nil
	}
	return m.b[pos:min(pos+n, len(m.b))]
}

type openFile struct {
	fp *os.File
	rw bool
}

// all sequences of reads and writes through two open files
func sequences(depth, maxpos, maxlen int, scale int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		clean()
		var err error
		var w, r *os.File
		c.Must("FileOpen", func() { w, err = fileio.FileOpen("t", "get") })
		if err != nil || w == nil {
			c.Fail("open", "cannot create the file: %v", err)
		}
		defer w.Close()
		var m model
		var files []openFile
		files = append(files, openFile{w, true})
		var earlier [][2][]byte
		content := c.Pick("content", 3)
		for d := 0; d < depth; d++ {
			if d == 1 {
				// opened for reading after the first operation
				c.Must("FileOpen", func() { r, err = fileio.FileOpen("t", "put") })
				if err != nil || r == nil {
					c.Fail("open", "cannot open the file: %v", err)
				}
				defer r.Close()
				files = append(files, openFile{r, false})
			}
			kind := c.Pick("op", 1+len(files)) // write, or read through a file
			pos := c.Pick("pos", maxpos+1) * scale
			n := c.Pick("len", maxlen+1) * scale
			if kind == 0 {
				p := make([]byte, n)
				for i := range p {
					switch content {
					case 0: // no write agrees with another
						p[i] = byte(16*(d+1) + i%13)
					case 1: // all writes agree
						p[i] = byte('a' + (pos+i)%23)
					}
				}
				keep := append([]byte(nil), p...)
				var k int
				c.Must("FileWrite", func() { k, err = fileio.FileWrite(w, uint64(pos), p) })
				c.Op(1)
				m.write(pos, p)
				c.Logf("write %d bytes at %d: %d %v", n, pos, k, err)
				if err != nil || k != n {
					c.Fail("write", "writing %d bytes at %d: %d, %v", n, pos, k, err)
				}
				if !bytes.Equal(p, keep) {
					c.Fail("write", "writing changes the buffer")
				}
				for i := range p {
					p[i] = 0xff
				}
			} else {
				f := files[kind-1]
				var got []byte
				c.Must("FileRead", func() { got, err = fileio.FileRead(f.fp, uint64(pos), n) })
				c.Op(1)
				want := m.read(pos, n)
				c.Logf("read %d bytes at %d: %x %v", n, pos, got, err)
				switch {
				case n > 0 && len(want) == 0:
					if err == nil {
						c.Fail("read-eof", "reading %d bytes at %d of %d: no error, %d bytes", n, pos, len(m.b), len(got))
					}
				case n == 0:
					if len(got) != 0 {
						c.Fail("read", "reading nothing gives %d bytes", len(got))
					}
				case err != nil || !bytes.Equal(got, want):
					c.Fail("read", "reading %d bytes at %d of %x: %x, %v", n, pos, m.b, got, err)
				}
				if err == nil {
					earlier = append(earlier, [2][]byte{got, append([]byte(nil), got...)})
				}
			}
			disk, _ := os.ReadFile(filepath.Join(h.Dir, "t"))
			if !bytes.Equal(disk, m.b) {
				c.Fail("content", "the file holds %x, want %x", disk, m.b)
			}
		}
		for _, e := range earlier {
			if !bytes.Equal(e[0], e[1]) {
				c.Fail("alias", "bytes read earlier changed")
			}
		}
		sums(c, "t", m.b)
		c.Must("FileClose", func() { err = fileio.FileClose(w) })
		if err != nil {
			c.Fail("close", "%v", err)
		}
		if _, err = fileio.FileWrite(w, 0, []byte("x")); err == nil {
			c.Fail("closed", "writing to a closed file is not reported")
		}
		if _, err = fileio.FileRead(w, 0, 1); err == nil {
			c.Fail("closed", "reading from a closed file is not reported")
		}
	}
}

// checksums and reads of files of many sizes, at many places
func sizes(c *mc.Ctx) {
	var ns []int
	for _, b := range []int{0, 512, 4096, 8192, 32768, 65536, 131072, 1 << 20} {
		for d := -2; d <= 2; d++ {
			if b+d >= 0 {
				ns = append(ns, b+d)
			}
		}
	}
	ns = append(ns, 4<<20+3, 33<<20+1)
	n := mc.Of(c, "size", ns)
	pat := c.Pick("pattern", 3)
	if n > 2<<20 && pat > 0 { // once is enough
		c.Skip()
	}
	sub := c.Pick("place", 3)
	clean()
	b := make([]byte, n)
	for i := range b {
		switch pat {
		case 0:
			b[i] = byte(i*31 + i>>9)
		case 1:
			b[i] = 0
		case 2:
			b[i] = byte(0xff - i>>12)
		}
	}
	name := []string{"f", "sub/f", "with space \u00e9"}[sub]
	full := filepath.Join(h.Dir, name)
	os.MkdirAll(filepath.Dir(full), 0o755)
	if err := os.WriteFile(full, b, 0o644); err != nil {
		panic(err)
	}
	// a file of that name elsewhere must not be used
	os.WriteFile(filepath.Join(c.Dir(), "f"), []byte("decoy"), 0o644)
	sums(c, name, b)
	fp, err := fileio.FileOpen(name, "give")
	if err != nil {
		c.Fail("open", "%q: %v", name, err)
	}
	defer fp.Close()
	for _, pos := range []int{0, 1, n / 2, n - 1, n, n + 1, n + 70000} {
		for _, k := range []int{1, 1023, 1024, 1025, 65535, 65536, 1 << 20, n, n + 1} {
			if pos < 0 || k < 1 {
				continue
			}
			got, err := fileio.FileRead(fp, uint64(pos), k)
			c.Op(1)
			want := (&model{b}).read(pos, k)
			if len(want) == 0 {
				if err == nil {
					c.Fail("read-eof", "reading %d bytes at %d of %d: no error", k, pos, n)
				}
			} else if err != nil || !bytes.Equal(got, want) {
				c.Fail("read", "reading %d bytes at %d of %d: %d bytes, %v", k, pos, n, len(got), err)
			}
		}
	}
	if fs, _ := os.ReadFile(full); !bytes.Equal(fs, b) {
		c.Fail("content", "reading changed the file")
	}
}

// rewritten: the checksum is of what the file holds now, whatever was there before
func rewritten(c *mc.Ctx) {
	clean()
	n := mc.Of(c, "size", []int{0, 1, 64, 1400, 40000})
	full := filepath.Join(h.Dir, "f")
	put := func(how int, b []byte) {
		switch how {
		case 0: // in place
			must(os.WriteFile(full, b, 0o644))
		case 1: // another file under the same name
			must(os.WriteFile(full+".new", b, 0o644))
			must(os.Rename(full+".new", full))
		case 2:
			os.Remove(full)
			must(os.WriteFile(full, b, 0o644))
		}
		t := time.Unix(1700000000, 0) // all of the same age
		must(os.Chtimes(full, t, t))
	}
	for k := 0; k < 3; k++ {
		b := bytes.Repeat([]byte{byte('a' + k)}, n)
		if k == 2 && n > 0 {
			b[0], b[n-1] = 'a', 'z'
		}
		put(c.Pick("how", 3), b)
		if c.Bool("asked") || k == 2 {
			sums(c, "f", b)
			sums(c, "f", b)
		}
	}
	must(os.Remove(full))
	for _, kind := range []string{"crc32", "md5", "sha1"} {
		if s, err := fileio.Checksum(kind, "f"); err == nil {
			c.Fail("checksum", "%s of a file that was removed: %x", kind, s)
		}
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// far positions in a sparse file
func far(c *mc.Ctx) {
	clean()
	pos := mc.Of(c, "pos", []uint64{1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 5, 1 << 36})
	n := c.Pick("len", 3) + 1
	w, err := fileio.FileOpen("far", "take")
	if err != nil {
		c.Fail("open", "%v", err)
	}
	defer w.Close()
	defer clean()
	p := []byte("xyz")[:n]
	k, err := fileio.FileWrite(w, pos, p)
	if err != nil {
		if pos >= 1<<35 {
			return // not every file system has such files
		}
		c.Fail("write", "%d bytes at %d: %v", n, pos, err)
	}
	fi, _ := os.Stat(filepath.Join(h.Dir, "far"))
	if k != n || uint64(fi.Size()) != pos+uint64(n) {
		c.Fail("write", "%d bytes at %d: %d, size %d", n, pos, k, fi.Size())
	}
	for _, q := range []uint64{pos - 2, pos - 1, pos, pos + 1} {
		got, err := fileio.FileRead(w, q, 8)
		c.Op(2)
		var want []byte
		for i := q; i < pos+uint64(n); i++ {
			if i < pos {
				want = append(want, 0)
			} else {
				want = append(want, p[i-pos])
			}
		}
		if len(want) == 0 {
			continue
		}
		if err != nil || !bytes.Equal(got, want) {
			c.Fail("read", "at %d after writing %d bytes at %d: %x %v, want %x", q, n, pos, got, err, want)
		}
	}
}

func errors_(c *mc.Ctx) {
	clean()
	k := c.Pick("case", 9)
	os.WriteFile(filepath.Join(h.Dir, "f"), []byte("abc"), 0o644)
	os.Mkdir(filepath.Join(h.Dir, "d"), 0o755)
	os.WriteFile(filepath.Join(h.Dir, "secret"), []byte("abc"), 0)
	var err error
	what := ""
	c.Op(1)
	try := func(w string, f func()) { what = w; c.Must(w, f) }
	switch k {
	case 0, 1, 2, 3:
		kind := []string{"crc16", "", "CRC32", "sha256"}[k]
		try("checksum "+kind, func() { _, err = fileio.Checksum(kind, "f") })
	case 4:
		try("checksum of a missing file", func() { _, err = fileio.Checksum("md5", "nothere") })
	case 5:
		try("checksum of a directory", func() { _, err = fileio.Checksum("crc32", "d") })
	case 6:
		try("checksum of an unreadable file", func() { _, err = fileio.Checksum("sha1", "secret") })
	case 7:
		try("read without a file", func() { _, err = fileio.FileRead(nil, 0, 1) })
	case 8:
		try("write without a file", func() { _, err = fileio.FileWrite(nil, 0, []byte("x")) })
	}
	if err == nil {
		c.Fail("no-error", "%s gives no error", what)
	}
}

func huge(c *mc.Ctx) {
	clean()
	pos := mc.Of(c, "pos", []uint64{1 << 63, 1<<63 + 1, 1<<64 - 1})
	w, err := fileio.FileOpen("t", "get")
	if err != nil {
		c.Fail("open", "%v", err)
	}
	defer w.Close()
	fileio.FileWrite(w, 0, []byte("abc"))
	_, err = fileio.FileWrite(w, pos, []byte("x"))
	fileio.FileRead(w, 0, 1) // there is something to read where the file is now
	_, rerr := fileio.FileRead(w, pos, 1)
	c.Op(2)
	b, _ := os.ReadFile(filepath.Join(h.Dir, "t"))
	if err == nil || rerr == nil || string(b) != "abc" {
		c.Fail("huge", "position %d: write %v, read %v, file %q", pos, err, rerr, fmt.Sprint(string(b)))
	}
}

// left: no operation leaves a file open behind it
func left(c *mc.Ctx) {
	clean()
	n := mc.Of(c, "size", []int{0, 1, 5000})
	must(os.WriteFile(filepath.Join(h.Dir, "f"), bytes.Repeat([]byte("x"), n), 0o644))
	must(os.Mkdir(filepath.Join(h.Dir, "d"), 0o755))
	name := mc.Of(c, "name", []string{"f", "d", "nothere"})
	op := c.Pick("operation", 10)
	runtime.GC() // files nobody holds any more are closed by the collector: not now
	runtime.GC()
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	before := open_()
	what := ""
	c.Op(1)
	switch op {
	case 0, 1, 2, 3, 4:
		kind := []string{"none", "crc32", "md5", "sha1", "crc16"}[op]
		what = "checksum " + kind
		c.Must(what, func() { fileio.Checksum(kind, name) })
	case 5:
		what = "existence test"
		c.Must(what, func() { fileio.FileExists(name) })
	case 6, 7:
		tt := []string{"get", "put"}[op-6]
		what = "open to " + tt + " and close"
		c.Must(what, func() {
			if fp, err := fileio.FileOpen(name, tt); err == nil && fp != nil {
				fileio.FileRead(fp, 0, 10)
				if err := fileio.FileClose(fp); err != nil {
					c.Fail("close", "%v", err)
				}
			}
		})
	case 8:
		what = "delete"
		c.Must(what, func() { fileio.FileRm(name) })
	case 9:
		what = "properties"
		c.Must(what, func() { fileio.FileMeta(name) })
	}
	after := open_()
	if after > before {
		c.Fail("left-open", "%s of %q leaves %d files open", what, name, after-before)
	}
}

// open_ counts the open files of the transfer directory.
func open_() int {
	n := 0
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, h.Dir+"/") {
			n++
		}
	}
	return n
}

// wide: long writes, each reaching into the one before
func wide(c *mc.Ctx) {
	clean()
	n := mc.Of(c, "bytes", []int{4095, 4096, 4097, 32768, 65535, 65536, 65537, 100000, 1 << 20, 1<<20 + 3, 5 << 20})
	first := mc.Of(c, "first", []int{0, 1, 4095, 65536, 1 << 20})
	next := mc.Of(c, "next", []int{0, 1, 65535, 70000})
	f, err := fileio.FileOpen("t", "get")
	if err != nil || f == nil {
		c.Fail("open", "cannot create the file: %v", err)
	}
	defer f.Close()
	var m model
	for i, pos := range []int{first, next, first + n} {
		p := make([]byte, n)
		for j := range p {
			p[j] = byte(j%251 + i + 1)
		}
		k, err := fileio.FileWrite(f, uint64(pos), p)
		c.Op(1)
		if err != nil || k != n {
			c.Fail("write", "writing %d bytes at %d: %d, %v", n, pos, k, err)
		}
		if len(m.b) < pos {
			m.b = append(m.b, make([]byte, pos-len(m.b))...)
		}
		m.b = append(m.b[:pos], append(p, m.b[min(len(m.b), pos+n):]...)...)
		if on, _ := os.ReadFile(filepath.Join(h.Dir, "t")); !bytes.Equal(on, m.b) {
			c.Fail("content", "after writing %d bytes at %d the file holds something else (%d bytes, want %d)", n, pos, len(on), len(m.b))
		}
	}
	sums(c, "t", m.b)
}

func main() {
	mc.Main(&mc.Check{ID: "C10", Setup: h.Setup,
		Assume: []string{"the file system itself works, with room for the data", "nothing else changes the files"},
		Scenarios: []mc.Scenario{
			{Name: "sequences", Bounds: "all sequences of 3 reads and writes (2 open files) at positions 0..4 of lengths 0..3, of bytes that differ, agree or are zero", Run: sequences(3, 4, 3, 1), Quick: true},
			{Name: "sequences-blocks", Bounds: "all sequences of 2 in units of 1400 bytes, positions 0..5, lengths 0..4, same contents", Run: sequences(2, 5, 4, 1400)},
			{Name: "sequences-4", Bounds: "all sequences of 4 at positions 0..3 of lengths 0..2", Run: sequences(4, 3, 2, 1), Thorough: true},
			{Name: "sequences-wide", Bounds: "all sequences of 3 at positions 0..6 of lengths 0..4", Run: sequences(3, 6, 4, 1), Thorough: true},
			{Name: "sizes", Bounds: "40 file sizes around powers of two and up to 33 MB x 3 contents x 3 names, reads at 7 places of 9 lengths, 4 checksums", Run: sizes},
			{Name: "wide", Bounds: "3 writes of 11 lengths up to 5 MB at 5 x 4 positions", Run: wide},
			{Name: "rewritten", Bounds: "5 sizes, content replaced twice in 3 ways with the same size and times, checksums asked before or not", Run: rewritten},
			{Name: "far", Bounds: "writes at 7 positions up to 2^36 x 3 lengths", Run: far, Shard: 1},
			{Name: "left", Bounds: "10 operations on a file of 3 sizes, a directory or nothing", Run: left, Shard: 1},
			{Name: "errors", Bounds: "9 calls that must fail", Run: errors_, Shard: 1},
			{Name: "huge", Bounds: "3 positions no file can have", Run: huge, Shard: 1},
		}})
}
