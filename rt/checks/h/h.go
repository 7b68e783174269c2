// Package h holds what the checks share: the shipped configuration loaded into the program
// under check, a scratch transfer directory, and the documented layout of the headers.
package h

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"

	"github.com/charlesetsmith/saratoga/sarflags"

	"verif/mc"
	"verif/vlog"
	"verif/vnet"
	"verif/vos"
	"verif/vstate"
)

// Conf is the shipped configuration file of the tree under check.
func Conf() string { return filepath.Join(os.Getenv("VERIF_SRC"), "saratoga", "saratoga.json") }

// Dir is the transfer directory of this worker.
var Dir string

// Setup loads the configuration and remembers the state of the program.
func Setup(c *mc.Ctx) {
	os.Unsetenv("SARDIR")
	// the node is somewhere: nothing may depend on where
	time.Local = time.FixedZone("SOME", 5*3600+45*60)
	Dir = filepath.Join(c.Dir(), "sardir")
	must(os.MkdirAll(Dir, 0o755))
	vos.Root = c.Dir()
	f := new(sarflags.Cliflags)
	if err := f.ReadConfig(Conf()); err != nil {
		panic(fmt.Sprint("cannot load the shipped configuration: ", err))
	}
	f.Sardir = Dir
	sarflags.Cliflag = f
	sarflags.MtuSet(1500)
	vstate.Save()
}

// Fresh brings the program back to its state after Setup and forgets the network.
func Fresh() {
	vstate.Restore()
	vnet.Reset()
	vlog.Deaths = 0
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Field of a header.
type Field struct {
	Name   string
	Len    uint
	Msb    uint
	Opts   []Opt
	Frames []string
}

// Opt is a named value.
type Opt struct {
	Name string
	Val  uint32
}

// Width of the header word is given; Shift and Mask place the field.
func (f Field) Shift(width uint) uint   { return width - f.Len - f.Msb }
func (f Field) Mask(width uint) uint32  { return (1<<f.Len - 1) << f.Shift(width) }
func (f Field) Value(opt string) uint32 { v, _ := f.Lookup(opt); return v }

// Lookup gives the number of a named value.
func (f Field) Lookup(opt string) (uint32, bool) {
	for _, o := range f.Opts {
		if o.Name == opt {
			return o.Val, true
		}
	}
	return 0, false
}

// NameOf gives the name of a number, or "".
func (f Field) NameOf(v uint32) string {
	for _, o := range f.Opts {
		if o.Val == v {
			return o.Name
		}
	}
	return ""
}

// Put stores a value in a header word.
func (f Field) Put(width uint, word, v uint32) uint32 {
	return word&^f.Mask(width) | v<<f.Shift(width)
}

// Get reads the field of a header word.
func (f Field) Get(width uint, word uint32) uint32 { return (word & f.Mask(width)) >> f.Shift(width) }

func opts(names ...string) (out []Opt) {
	for i, n := range names {
		if n != "" {
			out = append(out, Opt{n, uint32(i)})
		}
	}
	return
}

var all = []string{"beacon", "request", "metadata", "data", "status"}

// Frame is the layout of the 32 bit frame header of the Saratoga draft as documented in
// sarflags.go and the shipped configuration.
var Frame = []Field{
	{"version", 3, 0, opts("v0", "v1"), all},
	{"frametype", 5, 3, opts("beacon", "request", "metadata", "data", "status"), all},
	{"descriptor", 2, 8, opts("d16", "d32", "d64", "d128"), all},
	{"stream", 1, 11, opts("no", "yes"), []string{"beacon", "request"}},
	{"fileordir", 1, 10, opts("file", "directory"), []string{"request"}},
	{"transfer", 2, 10, opts("file", "directory", "bundle", "stream"), []string{"metadata", "data"}},
	{"reqtstamp", 1, 12, opts("no", "yes"), []string{"data", "status"}},
	{"progress", 1, 12, opts("inprogress", "terminated"), []string{"metadata"}},
	{"txwilling", 2, 12, opts("no", "invalid", "capable", "yes"), []string{"beacon", "request"}},
	{"metadatarecvd", 1, 13, opts("yes", "no"), []string{"status"}},
	{"allholes", 1, 14, opts("yes", "no"), []string{"status"}},
	{"reqtype", 8, 24, opts("noaction", "get", "put", "take", "give", "delete", "getdir"), []string{"request"}},
	{"rxwilling", 2, 14, opts("no", "invalid", "capable", "yes"), []string{"beacon", "request"}},
	{"reqholes", 1, 15, opts("requested", "voluntarily"), []string{"status"}},
	{"reqstatus", 1, 15, opts("no", "yes"), []string{"data"}},
	{"udplite", 1, 16, opts("no", "yes"), []string{"beacon", "request"}},
	{"eod", 1, 16, opts("no", "yes"), []string{"data"}},
	{"freespace", 1, 17, opts("no", "yes"), []string{"beacon"}},
	{"freespaced", 2, 18, opts("d16", "d32", "d64", "d128"), []string{"beacon"}},
	{"csumlen", 4, 24, opts("none", "crc32", "invalid2", "invalid3", "md5", "sha1"), []string{"metadata"}},
	{"csumtype", 4, 28, opts("none", "crc32", "md5", "sha1"), []string{"metadata"}},
	{"reliability", 1, 13, opts("udponly", "udplite"), []string{"metadata"}},
	{"errcode", 8, 24, opts("success", "unspecified", "cantsend", "cantreceive", "filenotfound", "accessdenied", "unknownid",
		"didnotdelete", "filetobig", "badoffset", "badpacket", "badrequest", "internaltimeout", "baddataflag",
		"rxnotinterested", "fileinuse", "metadatarequired", "badstatus", "rxtimeout"), []string{"status"}},
}

// Dirent is the layout of the 16 bit directory entry header.
var Dirent = []Field{
	{"sod", 1, 0, []Opt{{"sod", 1}}, nil},
	{"property", 2, 6, opts("normalfile", "normaldirectory", "specialfile", "specialdirectory"), nil},
	{"descriptor", 2, 8, opts("d16", "d32", "d64", "d128"), nil},
	{"reserved", 1, 10, []Opt{{"reserved", 0}}, nil},
}

// Tstamp is the 8 bit timestamp header.
var Tstamp = Field{"timestamp", 8, 0, opts("localinterp", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32"), nil}

// F finds a frame header field.
func F(name string) Field {
	for _, f := range Frame {
		if f.Name == name {
			return f
		}
	}
	panic("no field " + name)
}

// D finds a directory entry header field.
func D(name string) Field {
	for _, f := range Dirent {
		if f.Name == name {
			return f
		}
	}
	panic("no field " + name)
}

// For lists the fields of a frame type.
func For(frame string) (out []Field) {
	for _, f := range Frame {
		for _, t := range f.Frames {
			if t == frame {
				out = append(out, f)
			}
		}
	}
	return
}

// Header builds a frame header from field, value pairs (version 1).
func Header(frametype string, kv ...string) uint32 {
	w := F("version").Put(32, 0, 1)
	w = F("frametype").Put(32, w, F("frametype").Value(frametype))
	for i := 0; i+1 < len(kv); i += 2 {
		f := F(kv[i])
		v, ok := f.Lookup(kv[i+1])
		if !ok {
			panic("no value " + kv[i+1] + " of " + kv[i])
		}
		w = f.Put(32, w, v)
	}
	return w
}

// Header16 is the header of a directory entry with the given flags.
func Header16(kv ...string) uint16 {
	w := D("sod").Put(16, 0, D("sod").Value("sod"))
	for i := 0; i+1 < len(kv); i += 2 {
		w = D(kv[i]).Put(16, w, D(kv[i]).Value(kv[i+1]))
	}
	return uint16(w)
}

// Is reports whether a field of a header has a named value.
func Is(w uint32, field, opt string) bool {
	f := F(field)
	v, ok := f.Lookup(opt)
	return ok && f.Get(32, w) == v
}

// Keys sorts the keys of a map.
func Keys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
