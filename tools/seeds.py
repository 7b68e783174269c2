# The planted bugs: edits against /repo's HEAD and a demonstration for each.
SEEDS = []
def seed(id, property, needs, breaks, edits, pkg, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, pkg=pkg, demo=demo))

CONF = '''
func conf(t *testing.T) *sarflags.Cliflags {
	c := new(sarflags.Cliflags)
	if err := c.ReadConfig("/repo/saratoga/saratoga.json"); err != nil {
		t.Fatal(err)
	}
	return c
}
'''

seed("data-decode-alias", "C01",
 "a 64 bit offset without a timestamp, and the receive buffer being used again after decoding",
 "the payload of a decoded data frame changes when the next datagram is read into the same buffer",
 [("data/data.go", '''		d.Payload = make([]byte, len(frame[16:]))
		copy(d.Payload, frame[16:])
''', '''		d.Payload = frame[16:]
''')], "data", '''
package data_test

import (
	"bytes"
	"testing"

	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/sarflags"
)
''' + CONF + '''
func TestDemo(t *testing.T) {
	conf(t)
	for _, d := range []string{"d16", "d32", "d64"} {
		for _, ts := range []string{"no", "yes"} {
			var f, g data.Data
			if err := f.New("descriptor="+d+",reqtstamp="+ts, &data.Dinfo{Session: 1, Offset: 2, Payload: []byte("hello")}); err != nil {
				t.Fatal(err)
			}
			b, err := f.Encode()
			if err != nil {
				t.Fatal(err)
			}
			if err := g.Decode(b); err != nil {
				t.Fatal(err)
			}
			for i := range b {
				b[i] = 'x'
			}
			if !bytes.Equal(g.Payload, []byte("hello")) {
				t.Fatalf("%s %s: %q", d, ts, g.Payload)
			}
		}
	}
}
''')

seed("status-d16-signed", "C02",
 "a 16 bit wide status with a missing range that starts at or beyond 32768",
 "the start of such a missing range is decoded as a negative number",
 [("status/status.go", "			start := int(binary.BigEndian.Uint16(frame[pos : pos+dsize]))", "			start := int(int16(binary.BigEndian.Uint16(frame[pos : pos+dsize])))")],
 "status", '''
package status_test

import (
	"reflect"
	"testing"

	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/status"
)
''' + CONF + '''
func TestDemo(t *testing.T) {
	conf(t)
	want := holes.Holes{{Start: 1, End: 32767}, {Start: 32769, End: 65535}}
	var f, g status.Status
	if err := f.New("descriptor=d16,errcode=success", &status.Sinfo{Session: 1, Progress: 2, Inrespto: 3, Holes: want}); err != nil {
		t.Fatal(err)
	}
	b, err := f.Encode()
	if err != nil {
		t.Fatal(err)
	}
	if err := g.Decode(b); err != nil {
		t.Fatal(err)
	}
	if !reflect.DeepEqual(g.Holes, want) {
		t.Fatal(g.Holes)
	}
}
''')

seed("holes-contained", "C09",
 "a range that lies inside one received earlier and starts later than it (a resent part of a larger frame)",
 "receiving such a range forgets that the rest of the larger one was received",
 [("holes/holes.go", "			if fills[i+1].End <= fills[i].End {", "			if fills[i+1].End == fills[i].End {"),
  ("holes/holes.go", "			} else if fills[i+1].End >= fills[i].End {", "			} else {")],
 "holes", '''
package holes_test

import (
	"reflect"
	"testing"

	"github.com/charlesetsmith/saratoga/holes"
)

func TestDemo(t *testing.T) {
	var h holes.Holes
	h = h.Add(0, 100)
	h = h.Add(200, 300)
	h = h.Add(20, 30)
	if want := (holes.Holes{{Start: 0, End: 100}, {Start: 200, End: 300}}); !reflect.DeepEqual(h, want) {
		t.Fatal(h)
	}
}
''')

seed("status-decode-half-hole", "C14",
 "a 64 bit wide status frame that was cut in the middle of its last missing range",
 "decoding such a frame reads beyond its end and panics",
 [("status/status.go", '''		s.Inrespto = uint64(binary.BigEndian.Uint64(frame[pos : pos+dsize]))
		pos += dsize
		hlen := len(frame[pos:])
		for i := 0; i < hlen/2/dsize; i++ {''', '''		s.Inrespto = uint64(binary.BigEndian.Uint64(frame[pos : pos+dsize]))
		pos += dsize
		for pos+dsize <= len(frame) {''')],
 "status", '''
package status_test

import (
	"testing"

	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/status"
)
''' + CONF + '''
func TestDemo(t *testing.T) {
	conf(t)
	var f, g status.Status
	if err := f.New("descriptor=d64,errcode=success", &status.Sinfo{Session: 1, Holes: holes.Holes{{Start: 1, End: 2}}}); err != nil {
		t.Fatal(err)
	}
	b, err := f.Encode()
	if err != nil {
		t.Fatal(err)
	}
	for n := 0; n <= len(b); n++ {
		g.Decode(b[:n:n])
	}
}
''')

seed("dirent-size-wrap", "C05",
 "a file of exactly 4 GiB and a directory entry with a 32 bit size",
 "the entry is encoded as one of an empty file instead of being refused",
 [("dirent/dirent.go", "		if d.Size > sarflags.MaxUint32 {\n", "		if d.Size > sarflags.MaxUint32+1 {\n")],
 "dirent", '''
package dirent_test

import (
	"testing"

	"github.com/charlesetsmith/saratoga/dirent"
	"github.com/charlesetsmith/saratoga/sarflags"
)
''' + CONF + '''
func TestDemo(t *testing.T) {
	conf(t)
	for _, size := range []uint64{0, 1, 1<<32 - 1, 1 << 32, 1<<32 + 1} {
		var d, g dirent.DirEnt
		h, err := sarflags.SetD(0x8000, "descriptor", "d32")
		if err != nil {
			t.Fatal(err)
		}
		d.Header, d.Size, d.Path = h, size, "f"
		d.Mtime.Now("epoch2000_32")
		d.Ctime = d.Mtime
		b, err := d.Encode()
		if (err == nil) != (size < 1<<32) {
			t.Fatalf("%d: %v", size, err)
		}
		if err != nil {
			continue
		}
		if err := g.Decode(b); err != nil || g.Size != size {
			t.Fatalf("%d: %v %v", size, g.Size, err)
		}
	}
}
''')

seed("peer-freespace-stale", "C13",
 "a peer that once advertised free space and later has none, or no longer advertises it",
 "the peer table keeps the old free space and reports every further beacon as new information",
 [("beacon/beacon.go", "				Peers[p].Freespace = b.Freespace\n", "				if b.Freespace != 0 {\n					Peers[p].Freespace = b.Freespace\n				}\n")],
 "beacon", '''
package beacon_test

import (
	"net"
	"testing"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/sarflags"
)
''' + CONF + '''
func TestDemo(t *testing.T) {
	conf(t)
	from := &net.UDPAddr{IP: net.IPv4(192, 0, 2, 1), Port: 7542}
	for i, f := range []uint64{500, 500, 0, 0, 7} {
		b := beacon.Beacon{Freespace: f, Eid: "x"}
		isnew := beacon.NewPeer(&b, from)
		if want := i != 1 && i != 3; isnew != want {
			t.Fatalf("%d: %v", i, isnew)
		}
		if len(beacon.Peers) != 1 || beacon.Peers[0].Freespace != f {
			t.Fatalf("%d: %v", i, beacon.Peers)
		}
	}
}
''')

seed("request-auth-one-byte", "C04",
 "a request that carries an authentication field of exactly one byte",
 "decoding the request loses the authentication field",
 [("request/request.go", "	if pos == len(frame) { // No following auth field\n", "	if pos+1 >= len(frame) { // No following auth field\n")],
 "request", '''
package request_test

import (
	"bytes"
	"testing"

	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/sarflags"
)
''' + CONF + '''
func TestDemo(t *testing.T) {
	conf(t)
	for _, auth := range []string{"", "a", "ab", "\\x00", "a\\x00b"} {
		var f, g request.Request
		if err := f.New("reqtype=get", &request.Rinfo{Session: 1, Fname: "file", Auth: []byte(auth)}); err != nil {
			t.Fatal(err)
		}
		b, err := f.Encode()
		if err != nil {
			t.Fatal(err)
		}
		if err := g.Decode(b); err != nil {
			t.Fatal(err)
		}
		if g.Fname != "file" || !bytes.Equal(g.Auth, []byte(auth)) {
			t.Fatalf("%q: %q", auth, g.Auth)
		}
	}
}
''')

FILES = '''
func dir(t *testing.T) string {
	c := new(sarflags.Cliflags)
	if err := c.ReadConfig("/repo/saratoga/saratoga.json"); err != nil {
		t.Fatal(err)
	}
	d, err := os.MkdirTemp("", "sardir")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(d) })
	if sarflags.Cliflag == nil {
		sarflags.Cliflag = c
	}
	sarflags.Cliflag.Sardir = d
	return d
}

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}
'''

seed("read-tail", "C10",
 "a read that starts inside the file and asks for more than is left of it",
 "the last bytes of a file cannot be read unless the file ends exactly at a block boundary",
 [("fileio/fileio.go", '	"fmt"\n	"os"\n', '	"fmt"\n	"io"\n	"os"\n'),
  ("fileio/fileio.go", "	if n, err = fp.Read(buf); err != nil {\n", "	if n, err = io.ReadFull(fp, buf); err != nil {\n")],
 "fileio", '''
package fileio_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/charlesetsmith/saratoga/fileio"
	"github.com/charlesetsmith/saratoga/sarflags"
)
''' + FILES + '''
func TestDemo(t *testing.T) {
	d := dir(t)
	must(t, os.WriteFile(filepath.Join(d, "f"), []byte("hello"), 0o644))
	fp, err := fileio.FileOpen("f", "put")
	must(t, err)
	defer fp.Close()
	for pos := 0; pos < 5; pos++ {
		for n := 1; n < 8; n++ {
			want := "hello"[pos:]
			if n < len(want) {
				want = want[:n]
			}
			b, err := fileio.FileRead(fp, uint64(pos), n)
			if err != nil || string(b) != want {
				t.Fatalf("%d bytes at %d: %q %v", n, pos, b, err)
			}
		}
	}
}
''')

seed("config-copy-shared", "C22",
 "changing a global flag of the copy (or of the original) after the settings were copied",
 "the copy shares the global flags with the original, so changing one changes the other",
 [("sarflags/sarflags.go", "	d.Global = make(map[string]string)\n	for g := range s.Global {\n		d.Global[g] = s.Global[g]\n	}\n", "	d.Global = s.Global\n")],
 "sarflags", '''
package sarflags_test

import (
	"testing"

	"github.com/charlesetsmith/saratoga/sarflags"
)
''' + CONF + '''
func TestDemo(t *testing.T) {
	c := conf(t)
	d, err := c.CopyCliflags()
	if err != nil {
		t.Fatal(err)
	}
	if len(d.Global) != len(c.Global) {
		t.Fatal(d.Global)
	}
	for g, v := range c.Global {
		if d.Global[g] != v {
			t.Fatal(g, v, d.Global[g])
		}
		d.Global[g] = v + "x"
		if c.Global[g] != v {
			t.Fatal(g, "is shared")
		}
	}
}
''')

seed("udpaddr-remove-in-place", "C23",
 "an address that is not the last of a list being removed while the caller still uses the list it passed",
 "removing an address overwrites the caller's own list",
 [("sarnet/sarnet.go", "	ret := make([]net.UDPAddr, 0)\n	ret = append(ret, a[:index]...)\n	return append(ret, a[index+1:]...)\n", "	return append(a[:index], a[index+1:]...)\n")],
 "sarnet", '''
package sarnet_test

import (
	"net"
	"testing"

	"github.com/charlesetsmith/saratoga/sarnet"
)

func TestDemo(t *testing.T) {
	var l []net.UDPAddr
	for i := 0; i < 4; i++ {
		l = append(l, net.UDPAddr{IP: net.IPv4(192, 0, 2, byte(i%3)), Port: 7542})
	}
	r := sarnet.RemoveUDPAddrValue(l, &net.UDPAddr{IP: net.IPv4(192, 0, 2, 0), Port: 7542})
	if len(r) != 2 || !r[0].IP.Equal(net.IPv4(192, 0, 2, 1)) || !r[1].IP.Equal(net.IPv4(192, 0, 2, 2)) {
		t.Fatal(r)
	}
	for i := range l {
		if !l[i].IP.Equal(net.IPv4(192, 0, 2, byte(i%3))) {
			t.Fatal(l)
		}
	}
}
''')

seed("meta-size-boundary", "C12",
 "a file of exactly 65536 bytes",
 "such a file is given a 16 bit size, in which it does not fit, and cannot be described",
 [("metadata/metadata.go", "	if fsize < sarflags.MaxUint16 {\n", "	if fsize <= sarflags.MaxUint16+1 {\n")],
 "metadata", '''
package metadata_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/sarflags"
)
''' + FILES + '''
func TestDemo(t *testing.T) {
	d := dir(t)
	for _, n := range []int{0, 1, 65534, 65535, 65536, 65537} {
		must(t, os.WriteFile(filepath.Join(d, "f"), make([]byte, n), 0o644))
		var m, g metadata.MetaData
		must(t, m.New("transfer=file,csumtype=none", &metadata.Minfo{Session: 1, Fname: "f"}))
		b, err := m.Encode()
		if err != nil {
			t.Fatalf("%d bytes: %v", n, err)
		}
		must(t, g.Decode(b))
		if g.Dir.Size != uint64(n) {
			t.Fatalf("%d bytes: %d", n, g.Dir.Size)
		}
	}
}
''')

seed("timestamp-epoch-zone", "C06",
 "a 2000 epoch timestamp of an instant that is given in a zone other than UTC",
 "the seconds are counted from midnight of the zone of the instant instead of from midnight UTC",
 [("timestamp/timestamp.go", "		secs -= epoch2k.Unix()\n", "		secs -= time.Date(epoch2k.Year(), epoch2k.Month(), epoch2k.Day(), 0, 0, 0, 0, ts.Location()).Unix()\n")],
 "timestamp", '''
package timestamp_test

import (
	"testing"
	"time"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/timestamp"
)
''' + CONF + '''
func TestDemo(t *testing.T) {
	conf(t)
	u := time.Date(2023, 5, 6, 7, 8, 9, 0, time.UTC)
	for _, z := range []*time.Location{time.UTC, time.FixedZone("x", 3600), time.FixedZone("y", -34200)} {
		var a timestamp.Timestamp
		if err := a.New("epoch2000_32", u.In(z)); err != nil {
			t.Fatal(err)
		}
		if want := uint64(u.Unix() - 946684800); a.Secs() != want {
			t.Fatalf("%v: %d %d", z, a.Secs(), want)
		}
	}
}
''')

seed("beacon-eid-runes", "C03",
 "an endpoint identity with a character outside of ASCII",
 "the end of such an identity is lost from the encoded beacon",
 [("beacon/beacon.go", "	framelen := 4 + len(b.Eid)\n", "	framelen := 4 + len([]rune(b.Eid))\n")],
 "beacon", '''
package beacon_test

import (
	"testing"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/sarflags"
)
''' + CONF + '''
func TestDemo(t *testing.T) {
	conf(t)
	for _, eid := range []string{"", "host", "h\\u00f6st", "\\xff\\xfe"} {
		f := beacon.Beacon{Eid: eid}
		b, err := f.Encode()
		if err != nil {
			t.Fatal(err)
		}
		var g beacon.Beacon
		if err := g.Decode(b); err != nil || g.Eid != eid {
			t.Fatalf("%q: %q %v", eid, g.Eid, err)
		}
	}
}
''')
