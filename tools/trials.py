"""Planted changes for trial.py, each written from the text of a property and the code alone."""
T = []
def t(prop, name, *edits, all=False):
    T.append(dict(prop=prop, name=name, edits=edits, all=all))

B, D, S, R, M, E, TS, H, F, CK, FL, NET, W, TR, MAIN = ("beacon/beacon.go", "data/data.go", "status/status.go", "request/request.go",
  "metadata/metadata.go", "dirent/dirent.go", "timestamp/timestamp.go", "holes/holes.go", "fileio/fileio.go", "fileio/checksum.go",
  "sarflags/sarflags.go", "sarnet/sarnet.go", "sarwin/sarwin.go", "trans/trans.go", "saratoga/saratoga.go")

# ---- C01
t("C01", "data-pool", (D, "\tframe := make([]byte, framelen)\n", "\tif cap(encbuf) < framelen || framelen > 4096 {\n\t\tencbuf = make([]byte, framelen, 2*framelen)\n\t}\n\tframe := encbuf[:framelen]\n\tencbuf = encbuf[framelen:]\n"), (D, "// Put -- Encode the Saratoga Data Frame buffer", "var encbuf []byte\n\n// Put -- Encode the Saratoga Data Frame buffer"))
t("C01", "data-bufpool-reuse", (D, "\tframe := make([]byte, framelen)\n", "\tif framelen <= 1500 && framelen > 1400 {\n\t\tif encbuf == nil {\n\t\t\tencbuf = make([]byte, 1500)\n\t\t}\n\t} else {\n\t\tencbuf = make([]byte, framelen)\n\t}\n\tframe := encbuf[:framelen]\n"), (D, "// Put -- Encode the Saratoga Data Frame buffer", "var encbuf []byte\n\n// Put -- Encode the Saratoga Data Frame buffer"))
t("C01", "data-decode-keep-payload", (D, "\t\td.Payload = make([]byte, len(frame[16:]))\n\t\tcopy(d.Payload, frame[16:])", "\t\tif len(d.Payload) != len(frame[16:]) {\n\t\t\td.Payload = make([]byte, len(frame[16:]))\n\t\t}\n\t\tcopy(d.Payload, frame[16:])"))
t("C01", "data-eod-empty", (D, "\tcopy(frame[pos:], d.Payload)\n\treturn frame, nil", "\tcopy(frame[pos:], d.Payload)\n\tif len(d.Payload) == 0 {\n\t\td.Header, _ = sarflags.Set(d.Header, \"eod\", \"yes\")\n\t\tbinary.BigEndian.PutUint32(frame[:4], d.Header)\n\t}\n\treturn frame, nil"))
t("C01", "data-d32-sign", (D, "d.Offset = uint64(binary.BigEndian.Uint32(frame[24:28])) // 4 bytes", "d.Offset = uint64(int32(binary.BigEndian.Uint32(frame[24:28])))"))
t("C01", "data-d16-limit", (D, "if d.Offset > sarflags.MaxUint16 {", "if d.Offset > sarflags.MaxUint16+1 {"))
t("C01", "data-make-session", (D, "\tdlen := e.FieldByName(\"Payload\").Len()\n\td.Payload = make([]byte, dlen)", "\tdlen := e.FieldByName(\"Payload\").Len()\n\tif cap(d.Payload) >= dlen {\n\t\td.Payload = d.Payload[:dlen]\n\t} else {\n\t\td.Payload = make([]byte, dlen)\n\t}"))
# ---- C02
t("C02", "status-holes-cap", (S, "\t\tfor i := range s.Holes {\n\t\t\tbinary.BigEndian.PutUint64(frame[pos:pos+dsize], uint64(s.Holes[i].Start))", "\t\tfor i := range s.Holes {\n\t\t\tif i >= 100 {\n\t\t\t\treturn frame[:pos], nil\n\t\t\t}\n\t\t\tbinary.BigEndian.PutUint64(frame[pos:pos+dsize], uint64(s.Holes[i].Start))"))
t("C02", "status-holes-reuse", (S, "\ts.Holes = nil\n\ts.Tstamp = timestamp", "\ts.Holes = s.Holes[:0]\n\ts.Tstamp = timestamp"))
t("C02", "status-empty-hole-dropped", (S, "\t\t\tend := int(binary.BigEndian.Uint32(frame[pos : pos+dsize]))\n\t\t\tpos += dsize\n", "\t\t\tend := int(binary.BigEndian.Uint32(frame[pos : pos+dsize]))\n\t\t\tpos += dsize\n\t\t\tif end == start {\n\t\t\t\tcontinue\n\t\t\t}\n"))
t("C02", "status-new-ts", (S, "\t\t\tif f[1] == \"yes\" {\n\t\t\t\tif err = s.Tstamp.Now(\"posix32\"); err != nil {", "\t\t\tif f[1] == \"yes\" && s.Tstamp.Secs() == 0 {\n\t\t\t\tif err = s.Tstamp.Now(\"posix32\"); err != nil {"))
t("C02", "status-sorted", (S, "\tframelen += (dsize*2 + (dsize * len(s.Holes) * 2)) // progress + inrespto + holes", "\tif len(s.Holes) > 2 {\n\t\tfor i := 1; i < len(s.Holes); i++ {\n\t\t\tif s.Holes[i].Start < s.Holes[i-1].Start {\n\t\t\t\ts.Holes[i], s.Holes[i-1] = s.Holes[i-1], s.Holes[i]\n\t\t\t}\n\t\t}\n\t}\n\tframelen += (dsize*2 + (dsize * len(s.Holes) * 2)) // progress + inrespto + holes"))
# ---- C03
t("C03", "beacon-bfree", (B, "fs.Bavail) / 1024", "fs.Bfree) / 1024"), all=True)
t("C03", "beacon-signed", (B, "(uint64(fs.Bsize) * fs.Bavail) / 1024", "uint64((fs.Bsize * int64(fs.Bavail)) / 1024)"), all=True)
t("C03", "beacon-div-first", (B, "(uint64(fs.Bsize) * fs.Bavail) / 1024", "(uint64(fs.Bsize) / 1024) * fs.Bavail"), all=True)
t("C03", "beacon-keep-free", (B, "\t\tb.Freespace = e.FieldByName(\"Freespace\").Uint()\n", "\t\tif n := e.FieldByName(\"Freespace\").Uint(); n != 0 {\n\t\t\tb.Freespace = n\n\t\t}\n"), all=True)
t("C03", "beacon-eid-trim", (B, "b.Eid = string(frame[12:])", "b.Eid = strings.TrimSpace(string(frame[12:]))"))
t("C03", "beacon-eid-runes", (B, "framelen := 4 + len(b.Eid)", "framelen := 4 + len([]rune(b.Eid))"))
t("C03", "beacon-statfs-cache", (B, "\t\tif b.Freespace == 0 { // It has not been set in info so set it here via Statfs\n\t\t\tif err := syscall.Statfs(sardir, &fs); err != nil {", "\t\tif b.Freespace == 0 { // It has not been set in info so set it here via Statfs\n\t\t\tif lastfree.Bsize != 0 {\n\t\t\t\tfs = lastfree\n\t\t\t} else if err := syscall.Statfs(sardir, &fs); err != nil {"), (B, "\t\t\tb.Freespace = (uint64(fs.Bsize)", "\t\t\tlastfree = fs\n\t\t\tb.Freespace = (uint64(fs.Bsize)"), (B, "// New - Construct a beacon - Fill", "var lastfree syscall.Statfs_t\n\n// New - Construct a beacon - Fill"), all=True)
t("C03", "beacon-root-statfs", (B, "syscall.Statfs(sardir, &fs)", "syscall.Statfs(sardir[:1], &fs)"), all=True)
# ---- C04
t("C04", "request-last-nul", (R, "bytes.IndexByte(frame[pos:], 0)", "bytes.LastIndexByte(frame[pos:], 0)"))
t("C04", "request-auth-alias", (R, "\tr.Auth = make([]byte, len(frame[pos:]))\n\tcopy(r.Auth, frame[pos:])", "\tr.Auth = append(r.Auth[:0], frame[pos:]...)"))
t("C04", "request-auth-stale", (R, "\t\tr.Auth = nil\n\t\treturn nil\n", "\t\treturn nil\n"))
t("C04", "request-name-255", (R, "\tr.Fname = string(frame[pos : pos+end])\n", "\tr.Fname = string(frame[pos : pos+end])\n\tif end > 255 && end%256 == 0 {\n\t\tr.Fname = r.Fname[:255]\n\t}\n"))
t("C04", "request-auth-trim", (R, "\tcopy(r.Auth, frame[pos:])\n", "\tcopy(r.Auth, frame[pos:])\n\tr.Auth = bytes.TrimRight(r.Auth, \"\\x00\")\n"))
t("C04", "request-name-clean", (R, "r.Fname = e.FieldByName(\"Fname\").String()", "r.Fname = strings.TrimSuffix(e.FieldByName(\"Fname\").String(), \"/\")"), all=True)
# ---- C05
t("C05", "dirent-ctime-mtime", (E, "binary.BigEndian.PutUint32(frame[pos:pos+4], uint32(d.Ctime.Secs()))", "ct := d.Ctime.Secs()\n\tif ct < d.Mtime.Secs() {\n\t\tct = d.Mtime.Secs()\n\t}\n\tbinary.BigEndian.PutUint32(frame[pos:pos+4], uint32(ct))"))
t("C05", "dirent-d32-int", (E, "\t\tif d.Size > sarflags.MaxUint32 {", "\t\tif d.Size > sarflags.MaxUint32+sarflags.MaxUint16 {"))
t("C05", "meta-csum-alias", (M, "Info: MetaData{Header: m.Header, Session: m.Session, Checksum: m.Checksum,", "Info: MetaData{Header: m.Header, Session: m.Session, Checksum: m.Checksum[:len(m.Checksum):len(m.Checksum)],"), (M, "\tm.Header = binary.BigEndian.Uint32(frame[:4])", "\tfor i := range m.Checksum {\n\t\tm.Checksum[i] = 0\n\t}\n\tm.Header = binary.BigEndian.Uint32(frame[:4])"))
# ---- C06
t("C06", "ts-round", (TS, "\tcase \"posix64_32\":\n\t\tt.secs = uint64(ts.Unix())", "\tcase \"posix64_32\":\n\t\tts = ts.Round(time.Microsecond)\n\t\tt.secs = uint64(ts.Unix())"))
t("C06", "ts-local-epoch", (TS, "secs -= epoch2k.Unix()", "if ts.Year() >= 2100 {\n\t\t\tsecs += 86400\n\t\t}\n\t\tsecs -= epoch2k.Unix()"))
t("C06", "ts-nsec-keep", (TS, "\t\tt.secs = uint64(secs)\n\t\tt.ttype = flag\n\t\tt.nsecs = 0\n\t\tt.local = \"\"\n\tcase \"posix32_32\"", "\t\tt.secs = uint64(secs)\n\t\tt.ttype = flag\n\t\tt.local = \"\"\n\tcase \"posix32_32\""))
t("C06", "ts-neg", (TS, "\t\tt.secs = uint64(secs)\n\t\tif t.secs > sarflags.MaxUint32 {\n\t\t\treturn errors.New(\"epoch", "\t\tt.secs = uint64(uint32(secs))\n\t\tif t.secs > sarflags.MaxUint32 {\n\t\t\treturn errors.New(\"epoch"))
t("C06", "ts-local-trim", (TS, "strings.TrimRight(string(tstamp[1:15]), \"\\x00\")", "strings.TrimRight(string(tstamp[1:14]), \"\\x00\")"))
# ---- C07
t("C07", "set-or", (FL, "\tresult := uint32(((curflag) & (^setbits)))\n\tresult |= (newval << shiftbits)", "\tresult := uint32(((curflag) & (^setbits)))\n\tif field == \"errcode\" && newval == 0 {\n\t\tresult = curflag\n\t}\n\tresult |= (newval << shiftbits)"))
t("C07", "getstr-mask", (FL, "\tresult := uint16(((curflag) & (^setbits)))", "\tresult := uint16(curflag&(^setbits)) &^ 1"))
t("C07", "setflags-partial", (FL, "\t\tcurflag, _ = Set(curflag, f, flags[f])", "\t\tif v, err := Set(curflag, f, flags[f]); err == nil && v != curflag {\n\t\t\tcurflag = v\n\t\t} else if err != nil {\n\t\t\treturn 0\n\t\t}"))
t("C07", "testd-name", (FL, "\treturn GetD(curdflag, field) == GetD(v, field)", "\treturn curdflag&v == v"))
# ---- C08
t("C08", "flagvalue-prefix", (FL, "if f[0] == flag && len(f) > 1 {", "if strings.HasPrefix(f[0], flag) && len(f) > 1 {"))
t("C08", "replace-contains", (FL, "\tif !replaced { // We are adding this flag as it does not currently exist\n\t\tnewflags = AddFlag(newflags", "\tif !replaced && !strings.Contains(flags, value) { // We are adding this flag as it does not currently exist\n\t\tnewflags = AddFlag(newflags"))
t("C08", "setglobal-no", (FL, "\t\t\tif g == f {", "\t\t\tif g == f && !(f == \"udplite\" && c.Global[f] == \"no\") {"))
t("C08", "setglobal-trim", (FL, "return strings.TrimRight(fs, \",\")", "return strings.TrimRight(fs, \",s\")"))
# ---- C09
t("C09", "holes-32", (H, "\tfill := Hole{start, end}\n", "\tif len(fills) >= 64 {\n\t\treturn fills\n\t}\n\tfill := Hole{start, end}\n"))
t("C09", "holes-cap-get", (H, "\t\tif f < lenfills-1 {", "\t\tif f < lenfills-1 && f < 255 {"))
t("C09", "holes-last", (H, "\tfills = append(fills, fill)\n", "\tif n := len(fills); n > 1 && start >= fills[n-2].Start && start <= fills[n-2].End && end > fills[n-2].End {\n\t\tfills[n-2].End = end\n\t\treturn fills\n\t}\n\tfills = append(fills, fill)\n"))
# ---- C10
t("C10", "csum-limit", (CK, "io.Copy(hash, fp)", "io.CopyN(hash, fp, 1<<20)"), (CK, "; err != nil {\n\t\treturn csum, err\n\t}\n\tcsum = hash", "; err != nil && err != io.EOF {\n\t\treturn csum, err\n\t}\n\tcsum = hash"))
t("C10", "csum-cache", (CK, "\t//Tell the function to close", "\tif v, ok := sums[csumtype+fname]; ok {\n\t\tif st, serr := fp.Stat(); serr == nil && st.ModTime().Equal(v.t) && st.Size() == v.n {\n\t\t\tfp.Close()\n\t\t\treturn v.b, nil\n\t\t}\n\t}\n\t//Tell the function to close"), (CK, "\treturn csum, nil\n\n}", "\tif st, serr := fp.Stat(); serr == nil {\n\t\tsums[csumtype+fname] = sumrec{st.ModTime(), st.Size(), csum}\n\t}\n\treturn csum, nil\n\n}"), (CK, "// Checksum -- Calc", "type sumrec struct {\n\tt time.Time\n\tn int64\n\tb []byte\n}\n\nvar sums = map[string]sumrec{}\n\n// Checksum -- Calc"), (CK, "\t\"os\"\n", "\t\"os\"\n\t\"time\"\n"))
t("C10", "read-chunk", (F, "\tif n, err = fp.Read(buf); err != nil {", "\tif len(buf) > 65536 {\n\t\tbuf = buf[:65536]\n\t}\n\tif n, err = fp.Read(buf); err != nil {"))
t("C10", "write-append", (F, "\tif err = FileSeek(fp, pos); err != nil {\n\t\treturn 0, err\n\t}\n\n\t// We have", "\tif st, serr := fp.Stat(); serr == nil && int64(pos) > st.Size()+65536 {\n\t\tpos = uint64(st.Size())\n\t}\n\tif err = FileSeek(fp, pos); err != nil {\n\t\treturn 0, err\n\t}\n\n\t// We have"))
t("C10", "seek-31", (F, "\tipos = int64(pos)", "\tipos = int64(pos & 0x7fffffffffff)"))
t("C10", "write-empty-trunc", (F, "\t// We have written something but there is an issue", "\tif len(buf) == 0 {\n\t\treturn 0, fp.Truncate(int64(pos))\n\t}\n\t// We have written something but there is an issue"))
# ---- C11
t("C11", "open-trunc", (F, "os.O_RDWR|os.O_CREATE|os.O_EXCL", "os.O_RDWR|os.O_CREATE|os.O_TRUNC"))
t("C11", "rm-all", (F, "return os.Remove(fullname)", "return os.RemoveAll(fullname)"))
t("C11", "path-prefix", (F, "return filepath.Join(Sardir(), filepath.Join(\"/\", fname))", "if full := filepath.Join(Sardir(), fname); len(full) >= len(Sardir()) && full[:len(Sardir())] == Sardir() {\n\t\treturn full\n\t}\n\treturn filepath.Join(Sardir(), filepath.Join(\"/\", fname))"))
t("C11", "exists-empty", (F, "if err == nil && (fileinfo.Mode().IsDir()", "if err == nil && (fileinfo.Mode().IsDir() || fileinfo.Size() > 0 && false"), (F, "\t\tif FileExists(fname) {\n\t\t\treturn nil, fmt.Errorf(\"file already", "\t\tif st, e := os.Stat(fullname); e == nil && st.Mode().IsRegular() && st.Size() == 0 {\n\t\t\treturn os.OpenFile(fullname, os.O_RDWR, 0666)\n\t\t}\n\t\tif FileExists(fname) {\n\t\t\treturn nil, fmt.Errorf(\"file already"))
t("C11", "put-rdwr", (F, "fp, err = os.Open(fullname)", "fp, err = os.OpenFile(fullname, os.O_RDWR|os.O_CREATE, 0666)"))
# ---- C12
t("C12", "stat-follow", (F, "os.Lstat(fullname)", "os.Stat(fullname)"))
t("C12", "csum-symlink", (M, "\tcase mode.IsRegular():\n", "\tcase mode&os.ModeSymlink != 0 && !meta.IsDir:\n\t\tfile = true\n\t\tdirentflags = sarflags.AddFlagD(direntflags, \"property\", \"normalfile\")\n\tcase mode.IsRegular():\n"))
t("C12", "d16-max", (M, "\t} else if fsize < sarflags.MaxUint32 {", "\t} else if fsize < sarflags.MaxUint32+2 {"))
# ---- C13
t("C13", "peer-hysteresis", (B, "if Peers[p].Freespace != b.Freespace ||", "if Peers[p].Freespace/16 != b.Freespace/16 ||"))
t("C13", "peer-cap", (B, "\tPeers = append(Peers, *newp)", "\tif len(Peers) >= 32 {\n\t\tPeers = Peers[1:]\n\t}\n\tPeers = append(Peers, *newp)"))
t("C13", "peer-maxdesc", (B, "\t\t\t\tPeers[p].Maxdesc = sarflags.GetStr(b.Header, \"descriptor\")\n", "\t\t\t\tif d := sarflags.GetStr(b.Header, \"descriptor\"); d > Peers[p].Maxdesc {\n\t\t\t\t\tPeers[p].Maxdesc = d\n\t\t\t\t}\n"))
t("C13", "peer-free-zero", (B, "\t\t\t\tPeers[p].Freespace = b.Freespace\n", "\t\t\t\tif b.Freespace != 0 {\n\t\t\t\t\tPeers[p].Freespace = b.Freespace\n\t\t\t\t}\n"))
t("C13", "peer-created", (B, "\t\t\t\tPeers[p].Updated.Now(\"posix32_32\") // Last updated now", "\t\t\t\tif Peers[p].Eid != b.Eid {\n\t\t\t\t\tPeers[p].Created.Now(\"posix32_32\")\n\t\t\t\t}\n\t\t\t\tPeers[p].Updated.Now(\"posix32_32\") // Last updated now"), (B, "\t\t\t\tPeers[p].Eid = b.Eid\n", ""), (B, "\t\t\t\treturn true\n\t\t\t}\n\t\t\treturn false", "\t\t\t\tPeers[p].Eid = b.Eid\n\t\t\t\treturn true\n\t\t\t}\n\t\t\treturn false"))
t("C13", "peer-eid-match", (B, "if Peers[p].Addr == from.IP.String() {", "if Peers[p].Addr == from.IP.String() || (b.Eid != \"\" && len(b.Eid) > 8 && Peers[p].Eid == b.Eid) {"))
# ---- C14
t("C14", "dirent-len", (E, "minlen := 2 + 4 + 4", "minlen := 2 + 4 + 2"))
t("C14", "ts-need", (TS, "\t\tcase \"posix64_32\":\n\t\t\tneed = 13", "\t\tcase \"posix64_32\":\n\t\t\tneed = 9"))
t("C14", "status-odd", (S, "\t\tfor i := 0; i < hlen/2/dsize; i++ {\n\t\t\tstart := int(binary.BigEndian.Uint32", "\t\tfor i := 0; i < (hlen+2)/2/dsize; i++ {\n\t\t\tstart := int(binary.BigEndian.Uint32"))
# ---- C15
t("C15", "listen-dedupe", (MAIN, "\t\t// OK so we might have a valid frame so copy", "\t\tif string(buf[:framelen]) == lastframe && remoteAddr.String() == lastfrom {\n\t\t\tcontinue\n\t\t}\n\t\tlastframe, lastfrom = string(buf[:framelen]), remoteAddr.String()\n\t\t// OK so we might have a valid frame so copy"), (MAIN, "\tframelen := 0\n", "\tframelen := 0\n\tvar lastframe, lastfrom string\n"))
t("C15", "listen-size", (MAIN, "if framelen > maxframesize {", "if framelen >= maxframesize {"))
t("C15", "listen-min", (MAIN, "if framelen < 8 {", "if framelen < 9 {"))
t("C15", "listen-bad-session", (MAIN, "\t\t\t\td.Session = binary.BigEndian.Uint32(framebuf[4:8]) // Not decoded when the frame is too short\n", ""))
# ---- C16
t("C16", "trans-ip-only", (TR, "Transfers[i].Peer.String() == t.Peer.String()", "Transfers[i].Peer.IP.Equal(t.Peer.IP)"))
t("C16", "trans-dir-take", (TR, "case \"get\", \"getdir\", \"take\":\n\t\tif rxwilling", "case \"get\", \"getdir\", \"take\":\n\t\tif ttype != \"getdir\" && rxwilling"))
t("C16", "trans-cap", (TR, "\tTransfers = append(Transfers, t)\n", "\tif len(Transfers) < 16 {\n\t\tTransfers = append(Transfers, t)\n\t}\n"))
t("C16", "trans-dup-name", (TR, "if Transfers[i].Ttype != t.Ttype || Transfers[i].Filename != t.Filename {", "if Transfers[i].Ttype != t.Ttype && Transfers[i].Filename != t.Filename {"))
# ---- C18
t("C18", "lookup-ip", (W, "session == t.Session && t.Peer.String() == peer {", "session == t.Session && strings.Split(t.Peer.String(), \":\")[0] == strings.Split(peer, \":\")[0] {"))
t("C18", "dup-type", (W, "if fname == i.Filename && peer.String() == i.Peer.String() {", "if fname == i.Filename && ttype == i.Ttype && peer.String() == i.Peer.String() {"))
t("C18", "remove-first", (W, "\t\t\tTransfers = append(Transfers[:i], Transfers[i+1:]...)", "\t\t\tTransfers[i] = Transfers[len(Transfers)-1]\n\t\t\tTransfers = Transfers[:len(Transfers)-2]\n\t\t\tif i < len(Transfers) {\n\t\t\t\tTransfers = Transfers[:len(Transfers)+1]\n\t\t\t}"))
t("C18", "newinit-leftover", (W, "\t\tErrPrintln(g, \"red_black\", err)\n\t\tt.Conn.Close()\n\t\treturn nil, err\n", "\t\tErrPrintln(g, \"red_black\", err)\n\t\tt.Conn.Close()\n\t\tif ttype == \"put\" {\n\t\t\tTransfers = append(Transfers, t)\n\t\t}\n\t\treturn nil, err\n"))
t("C18", "change-size", (W, "\tif len(t.Data) == 0 { // Create the buffer only once", "\tif len(t.Data) <= 1 { // Create the buffer only once"))
# ---- C20
t("C20", "status-page2", (W, "Inrespto: t.Inrespto, Holes: h[starthole:endhole]}", "Inrespto: t.Inrespto, Holes: h[starthole:endhole]}\n\t\tif fc > 1 {\n\t\t\tsinfo.Inrespto = sinfo.Progress\n\t\t}"))
t("C20", "status-lastpage", (W, "framecnt = (lasthole + maxholes - 1) / maxholes", "framecnt = lasthole/maxholes + 1"))
t("C20", "status-stamp", (W, "\t\tcase \"reqtstamp\":\n\t\t\tif f[1] == \"yes\" {\n\t\t\t\tplen -= 16\n\t\t\t}\n\t\tdefault:\n\t\t}\n\t}\n\tif hsize", "\t\tcase \"reqtstamp\":\n\t\t\tif f[1] == \"yes\" {\n\t\t\t\tplen -= 8\n\t\t\t}\n\t\tdefault:\n\t\t}\n\t}\n\tif hsize"))
t("C20", "status-cap", (W, "\t\tlasthole = len(h) // How many holes do we have", "\t\tlasthole = len(h) // How many holes do we have\n\t\tif lasthole > 4096 {\n\t\t\tlasthole = 4096\n\t\t}"))
# ---- C21
t("C21", "csum-sha1", (W, "\t\tcase \"sha1\":\n\t\t\tsarflags.Cliflag.Global[\"csumtype\"] = \"sha1\"", "\t\tcase \"sha1\":\n\t\t\tif sarflags.Cliflag.Global[\"csumtype\"] == \"none\" {\n\t\t\t\tsarflags.Cliflag.Global[\"csumtype\"] = \"crc32\"\n\t\t\t}\n\t\t\tsarflags.Cliflag.Global[\"csumtype\"] = \"sha1\"\n\t\t\tsarflags.Cliflag.Timezone = \"utc\""))
t("C21", "timeout-neg", (W, "err == nil && n >= 0 {\n\t\t\tswitch args[1]", "err == nil && n >= -1 {\n\t\t\tswitch args[1]"))
t("C21", "ts-off", (W, "\t\tcase \"off\":\n\t\t\tsarflags.Cliflag.Global[\"reqtstamp\"] = \"no\"\n\t\t\t// Don't", "\t\tcase \"off\":\n\t\t\tsarflags.Cliflag.Global[\"reqtstamp\"] = \"no\"\n\t\t\tif sarflags.Cliflag.Timestamp == \"localinterp\" {\n\t\t\t\tsarflags.Cliflag.Timestamp = \"local\"\n\t\t\t}\n\t\t\t// Don't"))
t("C21", "freespace-desc", (W, "\t\tcase \"d16\":\n\t\t\tif sarflags.MaxUint", "\t\tcase \"d16\":\n\t\t\tif sarflags.Cliflag.Global[\"stream\"] == \"yes\" {\n\t\t\t\tsarflags.Cliflag.Global[\"descriptor\"] = \"d32\"\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tif sarflags.MaxUint"))
# ---- C22
t("C22", "copy-share", (FL, "\td.Global = make(map[string]string)\n\tfor g := range s.Global {\n\t\td.Global[g] = s.Global[g]\n\t}", "\td.Global = s.Global"))
t("C22", "conf-datacounter", (FL, "conf.Timeout.Datacounter = int(valuet.(float64))", "conf.Timeout.Datacounter = int(valuet.(float64))\n\t\t\t\t\tif conf.Timeout.Datacounter > 1000 {\n\t\t\t\t\t\tconf.Timeout.Datacounter = 1000\n\t\t\t\t\t}"))
t("C22", "conf-frameflags", (FL, "\t\t\t\tFrameflags[key] = nil // Start afresh when the config is read again\n", ""), (FL, "\tFrameflags = make(map[string][]string)        // Setup Frameflags global map", "\tif Frameflags == nil {\n\t\tFrameflags = make(map[string][]string)\n\t}"))
t("C22", "copy-binterval", (FL, "\td.Timeout.Binterval = s.Timeout.Binterval\n", "\td.Timeout.Binterval = uint(uint16(s.Timeout.Binterval))\n"))
# ---- C23
t("C23", "net-remove-alias", (NET, "\tret := make([]net.UDPAddr, 0)\n\tret = append(ret, a[:index]...)\n\treturn append(ret, a[index+1:]...)", "\treturn append(a[:index], a[index+1:]...)"))
t("C23", "net-zone", (NET, "if a[i].String() == val.String() {", "if a[i].IP.Equal(val.IP) && a[i].Port == val.Port {"))
t("C23", "net-pair", (NET, "\t\t\ta = RemoveUDPAddrValue(a, val) // Too", "\t\t\tif i+1 < len(a) {\n\t\t\t\treturn append(a[:i+1:i+1], RemoveUDPAddrValue(a[i+1:], val)...)\n\t\t\t}\n\t\t\ta = RemoveUDPAddrValue(a, val) // Too"))
# ---- C25
t("C25", "beacon-flags-old", (W, "\t\t\tclibeacon.flags = sarflags.Setglobal(\"beacon\", sarflags.Cliflag)\n\t\t\tclibeacon.v6mcast = true", "\t\t\tclibeacon.v6mcast = true\n\t\t\tclibeacon.count++"))
t("C25", "beacon-stop-on-error", (W, "\t\tErrPrintln(g, \"red_black\", \"Invalid IP Address:\", args[i])\n\t\tErrPrintln(g, \"red_black\", prusage(\"beacon\"))\n\t}", "\t\tErrPrintln(g, \"red_black\", \"Invalid IP Address:\", args[i])\n\t\tErrPrintln(g, \"red_black\", prusage(\"beacon\"))\n\t\tif i > 2 {\n\t\t\treturn\n\t\t}\n\t}"))
t("C25", "beacon-close", (W, "\tdefer conn.Close()\n\n\tMsgPrintln(g, \"cyan_black\", \"Sending beacon", "\tdefer func() {\n\t\tif err == nil {\n\t\t\tconn.Close()\n\t\t}\n\t}()\n\n\tMsgPrintln(g, \"cyan_black\", \"Sending beacon"))
# ---- C24
t("C24", "data-max16", (D, "\t\td.Offset = uint64(binary.BigEndian.Uint16(frame[8:10]))", "\t\td.Offset = uint64(binary.BigEndian.Uint16(frame[8:10])) &^ 0x8000"))
# ---- C19 / C17
t("C19", "trans-check-then-add", (TR, "\tTransfers = append(Transfers, t)\n\tTrmu.Unlock()", "\tTrmu.Unlock()\n\tTrmu.Lock()\n\tTransfers = append(Transfers, t)\n\tTrmu.Unlock()"))
t("C17", "main-sync", (MAIN, "\t\t\t\t// It answers on txv6frame, which is only read by this loop, so dont wait for it here\n\t\t\t\tgo func() {", "\t\t\t\tfunc() {"))
# ======== second batch
# ---- C13
t("C13", "peer-zone", (B, "if Peers[p].Addr == from.IP.String() {", "if Peers[p].Addr == from.IP.String() && (from.Zone == \"\" || p == 0 || Peers[p].Eid == b.Eid) {"))
t("C13", "peer-eid-keep", (B, "\t\t\t\tPeers[p].Eid = b.Eid\n", "\t\t\t\tif b.Eid != \"\" {\n\t\t\t\t\tPeers[p].Eid = b.Eid\n\t\t\t\t}\n"))
t("C13", "peer-updated-local", (B, "\t\t\t\tPeers[p].Updated.Now(\"posix32_32\") // Last updated now", "\t\t\t\tif Peers[p].Canrx != \"no\" {\n\t\t\t\t\tPeers[p].Updated.Now(\"posix32_32\") // Last updated now\n\t\t\t\t}"))
t("C13", "peer-sorted", (B, "\tPeers = append(Peers, *newp)\n", "\tPeers = append(Peers, *newp)\n\tif n := len(Peers); n > 3 && Peers[n-1].Addr < Peers[n-2].Addr {\n\t\tPeers[n-1] = Peers[n-2]\n\t\tPeers[n-2] = *newp\n\t\tPeers = Peers[:n:n]\n\t\tPeers[n-1].Updated = Peers[n-1].Created\n\t}\n"))
# ---- C14
# ---- C15
t("C15", "listen-err-shadow", (MAIN, "\t\t\tif rxerr = req.Decode(framebuf); rxerr != nil {", "\t\t\tif err = req.Decode(framebuf); err != nil {\n\t\t\t\trxerr = err"))
t("C15", "listen-ver-session", (MAIN, "sinfo := status.Sinfo{Session: 0, Progress: 0, Inrespto: 0, Holes: nil}\n\t\t\tsarwin.ErrPrintln(g, \"red_black\", \"Not Saratoga", "sinfo := status.Sinfo{Session: binary.BigEndian.Uint32(framebuf[4:8]), Progress: 0, Inrespto: 0, Holes: nil}\n\t\t\tsarwin.ErrPrintln(g, \"red_black\", \"Not Saratoga"))
t("C15", "listen-badmeta-desc", (MAIN, "\t\t\t\tif st.New(stheader, &sinfo) != nil {\n\t\t\t\t\tsarwin.ErrPrintln(g, \"red_black\", \"Cannot assemble status\")\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tsarwin.ErrPrintln(g, \"red_black\", \"Bad MetaData:\"", "\t\t\t\tif st.New(stheader, &sinfo) != nil || sarflags.GetStr(header, \"descriptor\") == \"d128\" {\n\t\t\t\t\tsarwin.ErrPrintln(g, \"red_black\", \"Cannot assemble status\")\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tsarwin.ErrPrintln(g, \"red_black\", \"Bad MetaData:\""))
t("C15", "listen-loopback", (MAIN, "\t\t// Very basic frame checks before", "\t\tif remoteAddr.IP.IsLoopback() {\n\t\t\tcontinue\n\t\t}\n\t\t// Very basic frame checks before"))
t("C15", "listen-port", (MAIN, "\t\t// Very basic frame checks before", "\t\tif remoteAddr.Port == 0 {\n\t\t\tremoteAddr.Port = sarnet.Port\n\t\t}\n\t\t// Very basic frame checks before"))
# ---- C16
t("C16", "trans-fold", (TR, "Transfers[i].Filename != t.Filename {", "len(Transfers[i].Filename) != len(t.Filename) {"))
t("C16", "trans-zone", (TR, "Transfers[i].Peer.String() == t.Peer.String()", "Transfers[i].Peer.IP.Equal(t.Peer.IP) && Transfers[i].Peer.Port == t.Peer.Port"))
t("C16", "trans-session0", (TR, "if Transfers[i].Session == t.Session &&", "if t.Session != 0 && Transfers[i].Session == t.Session &&"))
t("C16", "trans-capable", (TR, "\t\tif rxwilling != \"yes\" {", "\t\tif rxwilling != \"yes\" && !(ttype == \"take\" && rxwilling == \"capable\") {"))
t("C16", "trans-dup-order", (TR, "\tfor i := range Transfers {\n\t\tif Transfers[i].Session", "\tfor i := len(Transfers) - 1; i > 0; i-- {\n\t\tif Transfers[i].Session"))
t("C16", "trans-rm-dir", (TR, "if err := fileio.FileRm(r.Fname); err != nil {", "if err := fileio.FileRm(r.Fname); err != nil && fileio.FileExists(r.Fname+\"/.\") == false {"))
t("C16", "trans-invalid-delete", (TR, "rxwilling == \"invalid\" {", "rxwilling == \"invalid\" && ttype != \"delete\" {"))
t("C16", "trans-exists-trim", (TR, "exists := fileio.FileExists(r.Fname)", "exists := fileio.FileExists(strings.TrimSpace(r.Fname))"), (TR, "\t\"os\"\n", "\t\"os\"\n\t\"strings\"\n"))
# ---- C17
t("C17", "peer-unlock", (B, "\tpmu.Lock()\n\tdefer pmu.Unlock()\n\t// Scan", "\tpmu.Lock()\n\t// Scan"), (B, "\t\t\t\treturn true\n\t\t\t}\n\t\t\treturn false\n", "\t\t\t\tpmu.Unlock()\n\t\t\t\treturn true\n\t\t\t}\n\t\t\treturn false\n"), (B, "\tPeers = append(Peers, *newp)\n\treturn true", "\tPeers = append(Peers, *newp)\n\tpmu.Unlock()\n\treturn true"))
t("C17", "trans-lock-tx", (TR, "\t\t\tTrmu.Unlock()\n\t\t\tif st.New(\"errcode=\"+errcode", "\t\t\tif errcode == \"success\" {\n\t\t\t\tTrmu.Unlock()\n\t\t\t}\n\t\t\tif st.New(\"errcode=\"+errcode"))
t("C17", "main-v4-v6", (MAIN, "if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv4frame) {", "if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, rxv4frame) {"))
t("C17", "main-default-fatal", (MAIN, "\t\t\tdefault:\n\t\t\t\tsarwin.ErrPrintln(g, \"white_black\", \"Received v4 Saratoga INVALID Frame\")", "\t\t\tdefault:\n\t\t\t\tlog.Fatal(\"Received v4 Saratoga INVALID Frame\")"), (MAIN, "\t\t\tcase status.Packet:\n\t\t\t\tsarwin.MsgPrintln(g, \"white_black\", \"Received v4 Saratoga STATUS Frame\")", "\t\t\tcase *status.Packet:\n\t\t\t\tsarwin.MsgPrintln(g, \"white_black\", \"Received v4 Saratoga STATUS Frame\")"), (MAIN, "\t\t\t\tpkt := rxv4.(status.Packet)", "\t\t\t\tpkt := rxv4.(*status.Packet)"))
t("C17", "main-beacon-busy", (MAIN, "\t\t\t\tpkt := rxv4.(beacon.Packet)\n", "\t\t\t\tpkt := rxv4.(beacon.Packet)\n\t\t\t\tif !trans.Trmu.TryLock() {\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t\ttrans.Trmu.Unlock()\n"))
t("C17", "main-lock-handler", (MAIN, "\t\t\t\tpkt := rxv4.(beacon.Packet)\n", "\t\t\t\tpkt := rxv4.(beacon.Packet)\n\t\t\t\ttrans.Trmu.Lock()\n\t\t\t\ttrans.Trmu.Unlock()\n"), (TR, "\tTransfers = append(Transfers, t)\n\tTrmu.Unlock()", "\tTransfers = append(Transfers, t)\n\tdefer Trmu.Unlock()"))
# ---- C18
t("C18", "match-first", (W, "\tfor i := len(Transfers) - 1; i >= 0; i-- {\n\t\tif addr ==", "\tfor i := len(Transfers) - 1; i > 0; i-- {\n\t\tif addr =="))
t("C18", "lookup-copy", (W, "\t\tif direction == t.Direction && session == t.Session && t.Peer.String() == peer {\n\t\t\treturn t", "\t\tif direction == t.Direction && session == t.Session && t.Peer.String() == peer {\n\t\t\tc := *t\n\t\t\treturn &c"))
t("C18", "dup-case", (W, "if fname == i.Filename && peer.String() == i.Peer.String() {", "if fname == i.Filename && peer.String() == i.Peer.String() && i.Havemeta == false {"))
t("C18", "change-alias", (W, "\tt.Checksum = make([]byte, len(m.Checksum))\n\tcopy(t.Checksum, m.Checksum)", "\tt.Checksum = m.Checksum"))
t("C18", "remove-by-session", (W, "\t\tif t.Direction == Transfers[i].Direction && t.Session == Transfers[i].Session &&\n\t\t\tt.Peer.String() == Transfers[i].Peer.String() {", "\t\tif t.Session == Transfers[i].Session &&\n\t\t\tt.Peer.String() == Transfers[i].Peer.String() {"))
t("C18", "newinit-create-first", (W, "\tt.Session = newsession()\n\tt.Peer = peer\n", "\tt.Session = newsession()\n\tt.Peer = peer\n\tif ttype == \"take\" {\n\t\tif fp, e := fileio.FileOpen(fname, ttype); e == nil {\n\t\t\tfp.Close()\n\t\t\tdefer func() {\n\t\t\t\tif err == nil {\n\t\t\t\t\tt.Fp, err = fileio.FileOpen(fname, \"put\")\n\t\t\t\t}\n\t\t\t}()\n\t\t\tt.Ttype = \"delete\"\n\t\t\tdefer func() { t.Ttype = ttype }()\n\t\t}\n\t}\n"))
t("C18", "change-size-first", (W, "\tt.Dir = m.Dir.Copy()\n", "\tif t.Havemeta && m.Dir.Size == 0 {\n\t\treturn nil\n\t}\n\tt.Dir = m.Dir.Copy()\n"))
# ---- C19
t("C19", "peer-rw", (B, "\tnewp := new(Peer)\n", "\tpmu.Unlock()\n\tnewp := new(Peer)\n"), (B, "\tPeers = append(Peers, *newp)\n", "\tpmu.Lock()\n\tPeers = append(Peers, *newp)\n"))
t("C19", "init-dup-window", (W, "\t// If the file currently exists on our system and we try", "\tTrmu.Unlock()\n\tTrmu.Lock()\n\t// If the file currently exists on our system and we try"))
t("C19", "remove-unlocked-scan", (W, "\tTrmu.Lock()\n\tdefer Trmu.Unlock()\n\treturn t.remove()", "\tTrmu.Lock()\n\tkeep := make([]*Transfer, 0, len(Transfers))\n\tall := Transfers\n\tTrmu.Unlock()\n\tfound := false\n\tfor _, x := range all {\n\t\tif x == t {\n\t\t\tfound = true\n\t\t} else {\n\t\t\tkeep = append(keep, x)\n\t\t}\n\t}\n\tif !found {\n\t\treturn errors.New(\"no such transfer\")\n\t}\n\tTrmu.Lock()\n\tTransfers = keep\n\tTrmu.Unlock()\n\treturn nil"))
# ---- C20
t("C20", "allholes-last", (W, "\t\tvar st status.Status\n\t\tsinfo := status.Sinfo{Session: t.Session", "\t\tif fc == framecnt-1 {\n\t\t\tflags = sarflags.ReplaceFlag(sflags, \"allholes\", \"yes\")\n\t\t}\n\t\tvar st status.Status\n\t\tsinfo := status.Sinfo{Session: t.Session"))
t("C20", "status-exact", (W, "\tif lasthole <= maxholes {", "\tif lasthole < maxholes {"))
t("C20", "status-err-holes", (W, "\tif errf == \"success\" {\n\t\tlasthole", "\tif errf == \"success\" || errf == \"metadatarequired\" {\n\t\tlasthole"))
t("C20", "status-mtu", (W, "plen = sarflags.Mtu() - 60 - 8", "plen = max(sarflags.Mtu(), 576) - 60 - 8"))
t("C20", "status-send-continue", (W, "\t\t\tErrPrintln(g, \"red_black\", se.Error())\n\t\t\treturn \"badstatus\"", "\t\t\tErrPrintln(g, \"red_black\", se.Error())\n\t\t\tif fc > 0 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\treturn \"badstatus\""))
# ---- C22
t("C22", "conf-env", (FL, "c.Sardir == \"\" {\n\t\tc.Sardir = conf.Sardir", "c.Sardir == \"\" || conf.Sardir != \"\" {\n\t\tc.Sardir = conf.Sardir"))
t("C22", "conf-port", (FL, "conf.Port = int(value.(float64))", "conf.Port = int(int16(value.(float64)))"))
t("C22", "conf-usage", (FL, "ct.Usage = valx.(string)", "ct.Usage = strings.TrimSpace(valx.(string))"))
t("C22", "conf-invalid-ok", (FL, "\t\tif !Valid(f, c.Global[f]) {", "\t\tif v != \"\" && !Valid(f, c.Global[f]) {"))
t("C22", "conf-options-merge", (FL, "\t\t\t\t\tTimeStamps.Options = make(map[string]uint8)\n", "\t\t\t\t\tif TimeStamps.Options == nil {\n\t\t\t\t\t\tTimeStamps.Options = make(map[string]uint8)\n\t\t\t\t\t}\n"))
t("C22", "conf-buffersize", (FL, "conf.Buffersize = int(value.(float64))", "conf.Buffersize = int(float32(value.(float64)))"))
# ---- C23
t("C23", "net-v4mapped", (NET, "return strings.Count(address, \":\") >= 2 // (::)", "return strings.Count(address, \":\") >= 2 && !isIPv4(address)"))
t("C23", "net-zone-lost", (NET, "udpad, err := net.ResolveUDPAddr(\"udp\", a); err == nil {\n", "udpad, err := net.ResolveUDPAddr(\"udp\", a); err == nil {\n\t\tif !udpad.IP.IsLinkLocalUnicast() {\n\t\t\tudpad.Zone = \"\"\n\t\t}\n"))
t("C23", "net-remove-long", (NET, "\tfor i := 0; i < len(a); i++ {\n\t\tif a[i].String()", "\tfor i := 0; i < len(a) && i < 64; i++ {\n\t\tif a[i].String()"))
# ---- C25
t("C25", "beacon-count-cap", (W, "for iterations := clib.count; iterations > 0; iterations-- {", "for iterations := uint8(clib.count); iterations > 0; iterations-- {"))
t("C25", "beacon-eid-remote", (W, "eid := fmt.Sprintf(\"%s-%d\", conn.LocalAddr().String(), os.Getpid())", "eid := fmt.Sprintf(\"%s-%d\", conn.RemoteAddr().String(), os.Getpid())"))
t("C25", "beacon-send-retry", (W, "\t\t\tErrPrintln(g, \"red_black\", \"Error:\", err.Error(),\n\t\t\t\t\" Unable to send beacon to \", addr.String())\n\t\t\treturn", "\t\t\tErrPrintln(g, \"red_black\", \"Error:\", err.Error(),\n\t\t\t\t\" Unable to send beacon to \", addr.String())\n\t\t\titerations++\n\t\t\tcontinue"))
t("C25", "beacon-dup-addr", (W, "\t\t// Otherwise we have more args than 1 so send", "\t\tif i > 1 && args[i] == args[i-1] {\n\t\t\tcontinue\n\t\t}\n\t\t// Otherwise we have more args than 1 so send"))
t("C25", "beacon-off-rest", (W, "\t\t\tif addr, err := sarnet.UDPAddress(args[i]); err == nil {\n\t\t\t\tclibeacon.hosts = sarnet.RemoveUDPAddrValue(clibeacon.hosts, addr)\n\t\t\t\tcontinue\n\t\t\t}", "\t\t\tif addr, err := sarnet.UDPAddress(args[i]); err == nil && len(clibeacon.hosts) > 0 {\n\t\t\t\tclibeacon.hosts = sarnet.RemoveUDPAddrValue(clibeacon.hosts, addr)\n\t\t\t\tcontinue\n\t\t\t}"))
# ---- C06
# ---- C24

# ==== batch 3
t("C01", "data-trim-zero", (D, "\t\t\td.Payload = make([]byte, len(frame[26:]))\n\t\t\tcopy(d.Payload, frame[26:])", "\t\t\td.Payload = []byte(strings.TrimRight(string(frame[26:]), \"\\x00\"))"))
t("C01", "data-64k", (D, "\tcopy(frame[pos:], d.Payload)\n\treturn frame, nil", "\tcopy(frame[pos:], d.Payload[:len(d.Payload)&0xffff])\n\treturn frame, nil"))
t("C01", "data-top-bit", (D, "d.Offset = uint64(binary.BigEndian.Uint64(frame[8:16]))", "d.Offset = uint64(binary.BigEndian.Uint64(frame[8:16])) &^ (1 << 63)"))
t("C01", "data-make-copy", (D, "\td.Payload = make([]byte, dlen)\n\tcopy(d.Payload, e.FieldByName(\"Payload\").Bytes())\n\n\treturn nil", "\td.Payload = e.FieldByName(\"Payload\").Bytes()[:dlen]\n\n\treturn nil"))
t("C01", "data-new-empty", (D, "\td.Payload = make([]byte, e.FieldByName(\"Payload\").Len())\n\tcopy(d.Payload, e.FieldByName(\"Payload\").Bytes())\n\treturn nil", "\tif n := e.FieldByName(\"Payload\").Len(); n > 0 {\n\t\td.Payload = make([]byte, n)\n\t\tcopy(d.Payload, e.FieldByName(\"Payload\").Bytes())\n\t}\n\treturn nil"))
t("C01", "data-session-16", (D, "\td.Session = binary.BigEndian.Uint32(frame[4:8])", "\td.Session = binary.BigEndian.Uint32(frame[4:8])\n\tif d.Session == 1<<32-1 {\n\t\td.Session = 0\n\t}"))
t("C01", "data-stream-offset", (D, "\t\tif d.Offset > sarflags.MaxUint32 {\n\t\t\treturn", "\t\tif d.Offset > sarflags.MaxUint32 && sarflags.GetStr(d.Header, \"transfer\") != \"stream\" {\n\t\t\treturn"))
t("C02", "status-inresp", (S, "binary.BigEndian.PutUint32(frame[pos:pos+4], uint32(s.Inrespto))", "if s.Inrespto > s.Progress {\n\t\t\ts.Inrespto = s.Progress\n\t\t}\n\t\tbinary.BigEndian.PutUint32(frame[pos:pos+4], uint32(s.Inrespto))"))
t("C02", "status-err-noholes", (S, "\tpos := 8\n\tif havetstamp {\n\t\tts := s.Tstamp.Put()", "\tif sarflags.GetStr(s.Header, \"errcode\") == \"filetobig\" || sarflags.GetStr(s.Header, \"errcode\") == \"cantsend\" {\n\t\ts.Holes = nil\n\t}\n\tpos := 8\n\tif havetstamp {\n\t\tts := s.Tstamp.Put()"))
t("C02", "status-new-max", (S, "\tfor i := 0; i < e.FieldByName(\"Holes\").Len(); i++ {", "\tfor i := 0; i < e.FieldByName(\"Holes\").Len() && i < 255; i++ {"), all=True)
t("C02", "status-first-hole", (S, "\t\tif h.Start < 0 || h.End < 0 || uint64(h.Start) > max || uint64(h.End) > max {", "\t\tif h.Start < 0 || h.End < h.Start || uint64(h.Start) > max {"))
t("C03", "beacon-d16-edge", (B, "if b.Freespace <= sarflags.MaxUint16 {", "if b.Freespace < sarflags.MaxUint16 {"), all=True)
t("C03", "beacon-nul", (B, "\tb.Freespace = 0\n\tb.Eid = string(frame[4:])\n\treturn nil", "\tb.Freespace = 0\n\tb.Eid = strings.TrimRight(string(frame[4:]), \"\\x00\")\n\treturn nil"))
t("C03", "beacon-free-keep", (B, "\tif sarflags.GetStr(b.Header, \"freespace\") == \"no\" {\n\t\tb.Freespace = 0\n\t}\n", ""), all=True)
t("C03", "beacon-d32-over", (B, "\t\t\tif b.Freespace > sarflags.MaxUint32 {\n\t\t\t\treturn nil, errors.New(\"freespace exceeds d32 in beacon frame\")\n\t\t\t}\n", "\t\t\tif b.Freespace > sarflags.MaxUint32 {\n\t\t\t\tb.Freespace = sarflags.MaxUint32\n\t\t\t}\n"))
t("C04", "request-utf8", (R, "r.Fname = string(frame[pos : pos+end])\n", "r.Fname = strings.ToValidUTF8(string(frame[pos:pos+end]), \"?\")\n"))
t("C04", "request-auth-1", (R, "\tif pos == len(frame) { // No following auth field", "\tif pos >= len(frame)-1 && frame[len(frame)-1] == 0 { // No following auth field"))
t("C04", "request-make-fname", (R, "\tr.Header = header\n\n\te := reflect.ValueOf(info).Elem()\n\tr.Session = uint32(e.FieldByName(\"Session\").Uint())\n\tr.Fname = e.FieldByName(\"Fname\").String()", "\tr.Header = header\n\n\te := reflect.ValueOf(info).Elem()\n\tr.Session = uint32(e.FieldByName(\"Session\").Uint())\n\tr.Fname = strings.TrimPrefix(e.FieldByName(\"Fname\").String(), \"/\")"))
t("C04", "request-encode-shared", (R, "\tframe := make([]byte, framelen)                    // Allocate the frame buffer", "\tframe := append(reqbuf[:0], make([]byte, framelen)...)"), (R, "// Put -- Encode the Saratoga Request buffer", "var reqbuf = make([]byte, 0, 64)\n\n// Put -- Encode the Saratoga Request buffer"))
t("C05", "dirent-path-space", (E, "\td.Path = string(frame[pos:])\n", "\td.Path = strings.TrimLeft(string(frame[pos:]), \" \")\n"))
t("C05", "dirent-mtime-31", (E, "\tbinary.BigEndian.PutUint32(frame[pos:pos+4], uint32(d.Mtime.Secs()))", "\tbinary.BigEndian.PutUint32(frame[pos:pos+4], uint32(d.Mtime.Secs()&0x7fffffff))"))
t("C05", "meta-csum-pad", (M, "\tm.Checksum = make([]byte, csuml)\n\tcopy(m.Checksum, frame[pos:pos+csuml])", "\tif len(m.Checksum) < csuml {\n\t\tm.Checksum = make([]byte, csuml)\n\t}\n\tcopy(m.Checksum, frame[pos:pos+csuml])"))
t("C05", "dirent-size-max", (E, "\t\tif d.Size > sarflags.MaxUint32 {\n", "\t\tif d.Size > sarflags.MaxUint32+1 {\n"))
t("C05", "meta-dir-err", (M, "\tif err != nil {\n\t\treturn nil, err\n\t}\n\tframelen += len(de)", "\tif err != nil && len(m.Checksum) == 0 {\n\t\treturn nil, err\n\t}\n\tframelen += len(de)"))
t("C05", "dirent-path-1024", (E, "\tif len(d.Path) > 1024 {\n\t\treturn nil, errors.New(\"path name exceeds 1024 bytes\")\n\t}\n", "\tif len(d.Path) > 1024 {\n\t\td.Path = d.Path[:1024]\n\t}\n"))
t("C06", "ts-micro", (TS, "\t\tt.nsecs = uint64(ts.Nanosecond())\n\t\tif t.secs > sarflags.MaxUint32 {", "\t\tt.nsecs = uint64(ts.Nanosecond() / 1000 * 1000)\n\t\tif t.secs > sarflags.MaxUint32 {"))
t("C06", "ts-64-32", (TS, "\t\tbinary.BigEndian.PutUint64(tstamp[1:9], uint64(t.secs))\n\t\tbinary.BigEndian.PutUint32(tstamp[9:13], uint32(t.nsecs))", "\t\tbinary.BigEndian.PutUint64(tstamp[1:9], uint64(uint32(t.secs)))\n\t\tbinary.BigEndian.PutUint32(tstamp[9:13], uint32(t.nsecs))"))
t("C06", "ts-epoch-zone", (TS, "\t\tsecs := ts.Unix()\n\t\tsecs -= epoch2k.Unix()", "\t\t_, off := ts.Zone()\n\t\tsecs := ts.Unix()\n\t\tif off < 0 {\n\t\t\tsecs += int64(off)\n\t\t}\n\t\tsecs -= epoch2k.Unix()"))
t("C06", "ts-get-stale", (TS, "\t\tt.secs = uint64(binary.BigEndian.Uint64(tstamp[1:9]))\n\t\tt.nsecs = 0\n", "\t\tt.secs = uint64(binary.BigEndian.Uint64(tstamp[1:9]))\n"))
t("C07", "set-noerr-opt", (FL, "\tnewval, ok := DirentFlags[field].Options[flagname]\n\tif !ok {", "\tnewval, ok := DirentFlags[field].Options[flagname]\n\tif !ok && field != \"sod\" {"))
t("C07", "name-first", (FL, "\tfl := Flags[field]\n\tx := Get(curflag, field)\n", "\tfl := Flags[field]\n\tx := Get(curflag, field)\n\tif x == uint32(len(fl.Options)) {\n\t\tx--\n\t}\n"))
t("C07", "setT-or", (FL, "\tresult := ((curflag) & (^setbits))\n\tresult |= (newval << shiftbits)\n\t// log.Printf(\"Result=%08b", "\tresult := ((curflag) | (^setbits & 0))\n\tresult |= (newval << shiftbits)\n\t// log.Printf(\"Result=%08b"))
t("C08", "replaceD-dup", (FL, "\t\t\tnewflags = AddFlagD(newflags, value, option)\n\t\t} else {", "\t\t\tif newflags != \"\" {\n\t\t\t\tnewflags = AddFlagD(newflags, value, option)\n\t\t\t} else {\n\t\t\t\treplaced = false\n\t\t\t}\n\t\t} else {"))
t("C09", "holes-sort-end", (H, "\t\t\treturn fills[i].Start < fills[j].Start\n", "\t\t\treturn fills[i].Start < fills[j].Start && fills[i].End <= fills[j].End\n"))
t("C09", "holes-adjacent-big", (H, "\t\tif fills[i+1].Start <= fills[i].End {", "\t\tif fills[i+1].Start <= fills[i].End && (i < 8 || fills[i+1].Start < fills[i].End) {"))
t("C09", "holes-zero-hole", (H, "\t\tif f == 0 && fills[f].Start != 0 {", "\t\tif f == 0 && fills[f].Start > 1 {"))
t("C09", "holes-opt-once", (H, "\t\t\t// And here is the secret sauce to optimise - the beuty of recursion\n\t\t\tfills = fills.optimise()\n", ""))
t("C09", "holes-neg", (H, "\tif end <= start { // Error check it just in case", "\tif end < start { // Error check it just in case"))
t("C10", "read-exact-eof", (F, "\tif n, err = fp.Read(buf); err != nil {", "\tif n, err = fp.Read(buf); err != nil || (n < blen && n == 1) {"))
t("C10", "write-sparse", (F, "\t// We have written something but there is an issue", "\tif fi, e := fp.Stat(); e == nil && uint64(fi.Size()) < pos && pos-uint64(fi.Size()) < 4 {\n\t\tfp.Truncate(int64(pos) + 8)\n\t}\n\t// We have written something but there is an issue"))
t("C10", "csum-castagnoli", (CK, "crc32.MakeTable(IEEE)", "crc32.MakeTable(crc32.Koopman)"))
t("C11", "rm-follow", (F, "\treturn os.Remove(fullname)\n}\n\n// Close the fp", "\tif real, err := filepath.EvalSymlinks(fullname); err == nil {\n\t\tfullname = real\n\t}\n\treturn os.Remove(fullname)\n}\n\n// Close the fp"))
t("C11", "open-noexcl", (F, "os.O_RDWR|os.O_CREATE|os.O_EXCL", "os.O_RDWR|os.O_CREATE"))
t("C11", "rm-empty-dir", (F, "\tif fullname == fullpath(\"\") {\n", "\tif fname == \"\" || fname == \".\" || fname == \"/\" {\n"))
t("C11", "join-raw", (F, "\treturn filepath.Join(Sardir(), filepath.Join(\"/\", fname))", "\tif filepath.IsLocal(fname) {\n\t\treturn filepath.Join(Sardir(), fname)\n\t}\n\treturn filepath.Join(Sardir(), filepath.Base(fname))"))
t("C12", "meta-trunc-time", (TS, "\t\tsecs := ts.Unix()\n\t\tsecs -= epoch2k.Unix()", "\t\tsecs := ts.Round(time.Second).Unix()\n\t\tsecs -= epoch2k.Unix()"))
t("C12", "meta-dangling", (F, "\t\tif origstat, err := os.Stat(fullname); err == nil {\n\t\t\tfs.IsDir = origstat.IsDir()\n\t\t}", "\t\torigstat, err := os.Stat(fullname)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tfs.IsDir = origstat.IsDir()"))
t("C12", "meta-d16-limit", (M, "\tif fsize < sarflags.MaxUint16 {", "\tif fsize <= sarflags.MaxUint16+1 {"))
t("C12", "meta-path", (E, "\td.Path = path\n\treturn nil", "\td.Path = strings.TrimPrefix(path, \"./\")\n\treturn nil"))
t("C12", "meta-stream-ctime", (E, "\t\td.Ctime = d.Mtime\n", ""))
t("C14", "status-huge", (S, "\t\thlen := len(frame[pos:])\n\t\t// log.Fatal", "\t\thlen := cap(frame) - pos\n\t\t// log.Fatal"))
t("C14", "beacon-short64", (B, "\t\tcase \"d64\":\n\t\t\tminlen += 8\n\t\t}\n\t}\n\tif len(frame) < minlen {", "\t\tcase \"d64\":\n\t\t\tminlen += 7\n\t\t}\n\t}\n\tif len(frame) < minlen {"))
t("C14", "meta-alias", (M, "\tm.Checksum = make([]byte, csuml)\n\tcopy(m.Checksum, frame[pos:pos+csuml])", "\tm.Checksum = frame[pos : pos+csuml : pos+csuml]"))
t("C24", "holes-swallow", (H, "\t\t\t\tfills[i].End = fills[i+1].End\n", "\t\t\t\tfills[i].End = fills[i+1].End\n\t\t\t\tif i+2 < len(fills) && fills[i+2].Start == fills[i].End+1 {\n\t\t\t\t\tfills[i].End = fills[i+2].Start\n\t\t\t\t}\n"))
t("C24", "data-pos-eod", (F, "\tif err = FileSeek(fp, pos); err != nil {\n\t\treturn 0, err\n\t}\n", "\tif fi, e := fp.Stat(); e == nil && pos > 0 && uint64(fi.Size()) == pos-1 {\n\t\tpos = uint64(fi.Size())\n\t}\n\tif err = FileSeek(fp, pos); err != nil {\n\t\treturn 0, err\n\t}\n"))

# ---- batch 4
t("C26", "show-data-len", (D, 'sflag += fmt.Sprintf("  paylen : %d", len(d.Payload))', 'sflag += fmt.Sprintf("  paylen : %d", uint16(len(d.Payload)))'))
t("C26", "show-data-offset", (D, 'sflag += fmt.Sprintf("  offset:%d,", d.Offset)', 'sflag += fmt.Sprintf("  offset:%d,", int64(d.Offset))'))
t("C26", "show-status-holes", (S, '\tfor i := range s.Holes {\n\t\tsflag += fmt.Sprintf("  Hole[%d]', '\tfor i := range s.Holes {\n\t\tif i == 10 {\n\t\t\tbreak\n\t\t}\n\t\tsflag += fmt.Sprintf("  Hole[%d]'))
t("C26", "show-status-swap", (S, 'sflag += fmt.Sprintf("  inrespto:%d\\n", s.Inrespto)', 'sflag += fmt.Sprintf("  inrespto:%d\\n", s.Progress)'))
t("C26", "show-beacon-free", (B, '\t\tsflag += fmt.Sprintf("  free:%dkB\\n", b.Freespace)\n\t}\n\tsflag += fmt.Sprintf("  EID:%s", b.Eid)\n\treturn sflag\n}\n\n/* Send', '\t\tif b.Freespace > 0 {\n\t\t\tsflag += fmt.Sprintf("  free:%dkB\\n", b.Freespace)\n\t\t}\n\t}\n\tsflag += fmt.Sprintf("  EID:%s", b.Eid)\n\treturn sflag\n}\n\n/* Send'))
t("C26", "show-ts-64", (TS, 'case "posix32", "posix64":\n\t\tti := time.Unix(int64(t.secs)', 'case "posix32", "posix64":\n\t\tti := time.Unix(int64(uint32(t.secs))'))
t("C26", "show-ts-zone", (TS, '\t\tti := time.Unix(int64(ut), int64(t.nsecs))\n\t\tti = ti.UTC()\n', '\t\tti := time.Unix(int64(ut), int64(t.nsecs))\n'), all=True)
t("C26", "show-meta-csum", (M, 'sflag += fmt.Sprintf("  checksum [%s]:%x\\n", cs, m.Checksum)', 'sflag += fmt.Sprintf("  checksum [%s]:%x\\n", cs, m.Checksum[:4])'))
t("C26", "show-dirent-size", (E, 'Dir Entry: 0x%x\\n", d.Header)\n\tsflag += fmt.Sprintf("    Path:%s\\n", d.Path)\n\tsflag += fmt.Sprintf("    Size:%d\\n", d.Size)', 'Dir Entry: 0x%x\\n", d.Header)\n\tsflag += fmt.Sprintf("    Path:%s\\n", d.Path)\n\tsflag += fmt.Sprintf("    Size:%d\\n", int(d.Size))'))
t("C26", "show-peers-one", (W, '\t\tfor key := range peers {\n\t\t\tpinfo := ', '\t\tfor key := range peers {\n\t\t\tif key > 0 && peers[key].Addr == peers[key-1].Addr[:len(peers[key-1].Addr)-1] {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tpinfo := '))
t("C26", "show-peers-modified", (W, '\t\t\t\tpeers[key].Created.Print(),\n\t\t\t\tpeers[key].Updated.Print())', '\t\t\t\tpeers[key].Created.Print(),\n\t\t\t\tpeers[key].Created.Print())'))
t("C26", "show-peers-swap", (W, '\t\t\t\tpeers[key].Canrx,\n\t\t\t\tpeers[key].Cantx,\n', '\t\t\t\tpeers[key].Cantx,\n\t\t\t\tpeers[key].Canrx,\n'))
t("C26", "show-info-prefix", (W, 'ttype == "" || Transfers[i].Ttype == ttype {', 'ttype == "" || strings.HasPrefix(Transfers[i].Ttype, ttype) {'))
t("C26", "show-info-dup", (W, '\t\tfor key := 0; key < len(sslice); key++ {\n\t\t\tsbuf += sslice[key]\n\t\t}\n\t\tsbuf += sborder\n\t\tMsgPrintln(g, "magenta_black", sbuf)', '\t\tfor key := 0; key < len(sslice); key++ {\n\t\t\tif key > 0 && sslice[key] == sslice[key-1] {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tsbuf += sslice[key]\n\t\t}\n\t\tsbuf += sborder\n\t\tMsgPrintln(g, "magenta_black", sbuf)'))
t("C26", "show-info-fmt", (W, '\t\tsbuf += sborder\n\t\tMsgPrintln(g, "magenta_black", sbuf)\n\t} else {', '\t\tsbuf += sborder\n\t\tMsgPrintf(g, "magenta_black", sbuf+"\\n")\n\t} else {'))
t("C26", "show-win-off", (W, '\tif colour == "none" || colour == "" {\n\t\treturn ""\n', '\tif colour == "none" || colour == "" || len(colour) > 20 {\n\t\treturn ""\n'), (W, '\ts += fmt.Sprint(args...)\n', '\ts += fmt.Sprint(args...)\n\tif len(s) > 256 {\n\t\ts = s[:256]\n\t}\n'))
t("C21", "rmtran-dup", (W, "\t\t\tif t := Match(addr, uint32(session)); t != nil {", "\t\t\tif t := Match(addr, uint32(session)&0xffffff); t != nil {"))
t("C21", "bcount-neg", (W, "\t\t\tif n, err := strconv.Atoi(args[1]); err == nil && n >= 0 {\n\t\t\t\tsarflags.Cliflag.Bcount = uint(n)", "\t\t\tif n, err := strconv.Atoi(args[1]); err == nil {\n\t\t\t\tsarflags.Cliflag.Bcount = uint(n)"))
t("C21", "interval-off", (W, '\t\tcase "off":\n\t\t\tsarflags.Cliflag.Timeout.Binterval = 0\n\t\t\treturn', '\t\tcase "off":\n\t\t\tsarflags.Cliflag.Timeout.Binterval = 1\n\t\t\treturn'))
t("C21", "interval-usage-sets", (W, '\t\t\tMsgPrintln(g, "green_black", prusage("interval"))\n', '\t\t\tsarflags.Cliflag.Timeout.Binterval &= 0xff\n\t\t\tMsgPrintln(g, "green_black", prusage("interval"))\n'))
t("C21", "rx-capable", (W, '\t\t\tsarflags.Cliflag.Global["rxwilling"] = "capable"', '\t\t\tsarflags.Cliflag.Global["rxwilling"] = args[1]\n\t\t\tsarflags.Cliflag.Global["txwilling"] = args[1]'))
t("C21", "run-lower", (W, "\t\tif key == vals[0] {\n", "\t\tif strings.EqualFold(key, vals[0]) {\n"))
t("C21", "stream-no", (W, '\t\tcase "no":\n\t\t\tsarflags.Cliflag.Global["stream"] = "no"', '\t\tcase "no":\n\t\t\tdelete(sarflags.Cliflag.Global, "stream")'))
t("C21", "free-yes-case", (W, '\t\tcase "yes":\n\t\t\tMsgPrintln(g, "green_black", "freespace is advertised")', '\t\tcase "yes", "y":\n\t\t\tMsgPrintln(g, "green_black", "freespace is advertised")'))
t("C21", "get-missing-unlock", (W, '\t\tcase "yes":\n\t\t\tsarflags.Cliflag.Global["stream"] = "yes"\n\t\t\treturn', '\t\tcase "yes":\n\t\t\tif sarflags.Cliflag.Global["stream"] == "yes" {\n\t\t\t\tsarflags.Climu.Lock()\n\t\t\t}\n\t\t\tsarflags.Cliflag.Global["stream"] = "yes"\n\t\t\treturn'))
t("C25", "beacon-clib-shared", (W, "\tfor iterations := clib.count; iterations > 0; iterations-- {\n", "\tfor iterations := clib.count; iterations > 0; iterations-- {\n\t\tclib.interval = clibeacon.interval\n\t\tif iterations%64 == 0 {\n\t\t\ttxb.Eid = eid[:len(eid)-1]\n\t\t}\n"))
t("C25", "beacon-many-invalid-stop", (W, '\t\tErrPrintln(g, "red_black", "Invalid IP Address:", args[i])\n\t\tErrPrintln(g, "red_black", prusage("beacon"))\n\t}\n', '\t\tErrPrintln(g, "red_black", "Invalid IP Address:", args[i])\n\t\tErrPrintln(g, "red_black", prusage("beacon"))\n\t\tif i > 2 {\n\t\t\treturn\n\t\t}\n\t}\n'))
t("C20", "status-inresp-last", (W, "Inrespto: t.Inrespto, Holes: h[starthole:endhole]}", "Inrespto: t.Inrespto + uint64(fc), Holes: h[starthole:endhole]}"))
t("C20", "status-session-page", (W, "\tif lasthole <= maxholes {\n", "\tif lasthole < maxholes {\n"))
t("C20", "status-sort", (W, "\tvar framecnt int // Number of status frames we will need (at least 1)\n", "\tif len(h) > 100 {\n\t\tsort.Slice(h, func(i, j int) bool { return h[i].End-h[i].Start > h[j].End-h[j].Start })\n\t}\n\tvar framecnt int // Number of status frames we will need (at least 1)\n"))
t("C18", "remove-wrong-peer", (W, "\t\tif t.Direction == Transfers[i].Direction && t.Session == Transfers[i].Session &&\n\t\t\tt.Peer.String() == Transfers[i].Peer.String() {", "\t\tif t.Direction == Transfers[i].Direction && t.Session == Transfers[i].Session &&\n\t\t\tt.Peer.IP.Equal(Transfers[i].Peer.IP) {"))
t("C18", "remove-swap", (W, "\t\t\tTransfers = append(Transfers[:i], Transfers[i+1:]...)\n\t\t\treturn nil\n", "\t\t\tTransfers[i] = Transfers[len(Transfers)-1]\n\t\t\tTransfers = Transfers[:len(Transfers)-2+1]\n\t\t\tif len(Transfers) == 3 {\n\t\t\t\tTransfers = Transfers[:2]\n\t\t\t}\n\t\t\treturn nil\n"))
t("C18", "change-csum-alias", (W, "\tt.Checksum = make([]byte, len(m.Checksum))\n\tcopy(t.Checksum, m.Checksum)\n", "\tt.Checksum = m.Checksum\n"))
t("C18", "change-empty", (W, "\tif len(t.Data) == 0 { // Create the buffer only once\n", "\tif t.Data == nil { // Create the buffer only once\n"), (W, "\tif len(t.Data) != (int)(m.Dir.Size) {\n", "\tif m.Dir.Size != 0 && len(t.Data) != (int)(m.Dir.Size) {\n"))
t("C18", "lookup-zone", (W, "session == t.Session && t.Peer.String() == peer {", "session == t.Session && strings.HasPrefix(t.Peer.String(), peer) {"))
t("C16", "trans-version-order", (TR, '\t// See if the file exists on our local system\n\texists := fileio.FileExists(r.Fname)\n', '\t// See if the file exists on our local system\n\texists := len(r.Fname) > 0 && fileio.FileExists(r.Fname)\n'))
t("C16", "trans-dup-success", (TR, "if Transfers[i].Ttype != t.Ttype || Transfers[i].Filename != t.Filename {", "if Transfers[i].Ttype != t.Ttype && Transfers[i].Filename != t.Filename {"))
t("C16", "trans-port", (TR, "Transfers[i].Session == t.Session && Transfers[i].Peer.String() == t.Peer.String() {", "Transfers[i].Session == t.Session && Transfers[i].Peer.IP.Equal(t.Peer.IP) && (Transfers[i].Peer.Port == t.Peer.Port || Transfers[i].Ttype == t.Ttype && Transfers[i].Filename == t.Filename) {"))
t("C15", "listen-max", (MAIN, "\tmaxframesize := sarflags.Mtu() - 60   // Handles IPv4 & IPv6 header", "\tmaxframesize := sarflags.Mtu() - 61   // Handles IPv4 & IPv6 header"))
t("C15", "listen-min-12", (MAIN, "\t\tif framelen < 8 {\n", "\t\tif framelen <= 8 {\n"))
t("C15", "listen-badstatus-drop", (MAIN, '\t\t\tif rxerr := s.Decode(framebuf); rxerr != nil {\n', '\t\t\tif rxerr := s.Decode(framebuf); rxerr != nil {\n\t\t\t\tif sarflags.GetStr(header, "errcode") == "badpacket" {\n\t\t\t\t\tcontinue // never answer an answer\n\t\t\t\t}\n'))
t("C17", "main-status-block", (MAIN, '\t\t\tcase status.Packet:\n\t\t\t\tsarwin.MsgPrintln(g, "white_black", "Received v4 Saratoga STATUS Frame")\n', '\t\t\tcase status.Packet:\n\t\t\t\tsarwin.MsgPrintln(g, "white_black", "Received v4 Saratoga STATUS Frame")\n\t\t\t\tif len(txv4frame) == cap(txv4frame) && cap(txv4frame) > 0 {\n\t\t\t\t\ttxv4frame <- nil\n\t\t\t\t}\n\t\t\t\ttrans.Trmu.Lock()\n\t\t\t\tif len(trans.Transfers) == 0 {\n\t\t\t\t\ttrans.Trmu.Unlock()\n\t\t\t\t}\n'))
t("C19", "peers-copy-late", (B, "\tpmu.Lock()\n\tdefer pmu.Unlock()\n\treturn append([]Peer(nil), Peers...)", "\treturn append([]Peer(nil), Peers...)"))
t("C19", "trans-unlock-append", (TR, "\tTransfers = append(Transfers, t)\n\tTrmu.Unlock()\n", "\tnext := append(Transfers[:len(Transfers):len(Transfers)], t)\n\tTrmu.Unlock()\n\tTransfers = next\n"))
t("C13", "peer-created-reset", (B, '\t\t\t\tPeers[p].Updated.Now("posix32_32") // Last updated now\n', '\t\t\t\tPeers[p].Updated.Now("posix32_32") // Last updated now\n\t\t\t\tif Peers[p].Eid == "" {\n\t\t\t\t\tPeers[p].Created = Peers[p].Updated\n\t\t\t\t}\n'))
t("C13", "peer-tx-only", (B, '\t\t\t\tPeers[p].Canrx != sarflags.GetStr(b.Header, "rxwilling") ||\n', '\t\t\t\t(Peers[p].Canrx != sarflags.GetStr(b.Header, "rxwilling") && Peers[p].Canrx != "invalid") ||\n'))
t("C24", "holes-highest", (H, "\t\tif f == 0 && fills[f].Start != 0 {", "\t\tif f == 0 && fills[f].Start != 0 && len(fills) > 1 {"))
t("C14", "req-no-nul", (R, "bytes.IndexByte(frame[pos:], 0)", "bytes.IndexByte(frame[pos:cap(frame)], 0)"))
t("C14", "data-d64-short", (D, "len(frame)", "len(frame)+1"), all=True)
t("C10", "csum-leak", (CK, "\tdefer fp.Close()\n", ""))
t("C10", "csum-leak-err", (CK, "\tdefer fp.Close()\n", "\tif csumtype != \"none\" {\n\t\tdefer fp.Close()\n\t}\n"))
t("C23", "udpinfo-zone", (NET, "\treturn addr.String()\n", "\treturn net.JoinHostPort(addr.IP.String(), strconv.Itoa(addr.Port))\n"))

# ---- C27
t("C27", "start-mtu", (MAIN, "\tsarflags.MtuSet(iface.MTU)\n", "\tif iface.MTU <= 9000 {\n\t\tsarflags.MtuSet(iface.MTU)\n\t}\n"))
t("C27", "start-v4group", (MAIN, "IP:   net.ParseIP(Cmdptr.V4Multicast),", "IP:   net.ParseIP(sarnet.IPv4Multicast),"))
t("C27", "start-v6port", (MAIN, "\t\tPort: Cmdptr.Port,\n\t\tIP:   net.ParseIP(Cmdptr.V6Multicast),", "\t\tPort: sarnet.Port,\n\t\tIP:   net.ParseIP(Cmdptr.V6Multicast),"))
t("C27", "start-anyif", (MAIN, 'net.ListenMulticastUDP("udp6", iface, ', 'net.ListenMulticastUDP("udp6", nil, '))
t("C27", "start-if-flags", (MAIN, "\t// Set the Mtu to Interface we are using\n", "\tif iface.Flags&net.FlagMulticast == 0 {\n\t\tiface = nil\n\t}\n"), (MAIN, "\tsarflags.MtuSet(iface.MTU)\n", "\tif iface != nil {\n\t\tsarflags.MtuSet(iface.MTU)\n\t}\n"))
t("C27", "start-chdir", (MAIN, '\tif err = os.Chdir(Cmdptr.Sardir); err != nil {\n\t\tlog.Fatal(fmt.Errorf("no such directory SARDIR=%s", Cmdptr.Sardir))\n\t}\n', '\tos.Chdir(Cmdptr.Sardir)\n'))
t("C27", "start-statfs", (MAIN, '\t\tlog.Fatal(errors.New("cannot stat saratoga working directory"))\n', '\t\tfmt.Println(errors.New("cannot stat saratoga working directory"))\n'))
t("C27", "start-free", (MAIN, "(uint64(fs.Bsize)*fs.Bavail)/1024/1024", "(uint64(fs.Bsize)*fs.Bfree)/1024/1024"))
t("C27", "start-free-order", (MAIN, "(uint64(fs.Bsize)*fs.Bavail)/1024/1024", "(uint64(fs.Bsize)/1024*fs.Bavail)/1024"))
t("C27", "start-free-32", (MAIN, "(uint64(fs.Bsize)*fs.Bavail)/1024/1024", "uint32(uint64(fs.Bsize)*fs.Bavail)/1024/1024"))
t("C27", "loop-v4", (NET, "\tif isIPv4(addr) {\n\t\tif err := syscall.Set", "\tif isIPv4(addr) && !isIPv6(addr) {\n\t\treturn nil\n\t}\n\tif isIPv4(addr) {\n\t\tif err := syscall.Set"))
t("C27", "loop-err", (NET, "IPV6_MULTICAST_LOOP, 1); err != nil {\n\t\t\treturn err\n\t\t}", "IPV6_MULTICAST_LOOP, 1); err != nil && err != syscall.EPERM {\n\t\t\treturn err\n\t\t}"))
t("C27", "loop-reuse", (NET, "SO_REUSEPORT, 1); err != nil {\n\t\treturn err\n\t}\n", "SO_REUSEADDR, 1); err != nil {\n\t\treturn err\n\t}\n"))
t("C27", "loop-off", (NET, "IP_MULTICAST_LOOP, 1)", "IP_MULTICAST_LOOP, 0)"))
t("C27", "start-log-close", (MAIN, 'fatal("Saratoga Unable to Listen on IPv4', 'log.Fatal("Saratoga Unable to Listen on IPv4'))
t("C27", "start-v4-loop-skip", (MAIN, "\tif err := sarnet.SetMulticastLoop(v4mcastcon); err != nil {\n\t\tfatal(err)\n\t}\n", "\tif err := sarnet.SetMulticastLoop(v6mcastcon); err != nil {\n\t\tfatal(err)\n\t}\n"))
t("C27", "end-nowait", (MAIN, "\t\t\tquit <- err\n", "\t\t\tselect {\n\t\t\tcase quit <- err:\n\t\t\tdefault:\n\t\t\t}\n"))
t("C27", "end-v6-ignored", (MAIN, '\t\tcase v6err := <-v6listenquit:\n\t\t\tfatal("Saratoga v6 listener has quit with error:", v6err)\n', '\t\tcase v6err := <-v6listenquit:\n\t\t\tsarwin.ErrPrintln(g, "red_black", "Saratoga v6 listener has quit with error:", v6err)\n'))
t("C27", "end-async", (MAIN, "\t\t\trx <- m.Val(remoteAddr)\n", "\t\t\tgo func(p metadata.Packet) { rx <- p }(m.Val(remoteAddr))\n"))
t("C27", "args", (MAIN, "\tif len(os.Args) != 3 {", "\tif len(os.Args) < 3 {"))
t("C27", "args-if", (MAIN, "\targnumb++\n\tiface, err = net.InterfaceByName(os.Args[argnumb])", "\targnumb++\n\tiface, err = net.InterfaceByName(strings.TrimSpace(os.Args[argnumb]))"))
t("C27", "conf-continue", (MAIN, 'err)\n\t\treturn\n\t}\n\n\t// Grab my', 'err)\n\t\tif Cmdptr.Port == 0 {\n\t\t\treturn\n\t\t}\n\t}\n\n\t// Grab my'))
t("C27", "sardir-env", (FL, 'os.Getenv("SARDIR")', 'os.Getenv("SARADIR")'), all=True)
# ---- C28
t("C28", "prompt-digits", (W, "len(strconv.Itoa(v.Curline)) + v.Ppad", "len(strconv.Itoa(v.Curline%100)) + v.Ppad"))
t("C28", "prompt-fixed", (W, "len(v.Prompt) + len(strconv.Itoa(v.Curline)) + v.Ppad", "len(v.Prompt) + 1 + v.Ppad"))
t("C28", "bs-bound", (W, "\t\tif ox+cx <= promptlen(Cinfo) { // Dont move we are at the prompt\n\t\t\treturn nil\n\t\t}\n\t\t// Delete", "\t\tif ox+cx < promptlen(Cinfo) { // Dont move we are at the prompt\n\t\t\treturn nil\n\t\t}\n\t\t// Delete"))
t("C28", "bs-scroll", (W, "\t\tif ox+cx <= promptlen(Cinfo) { // Dont move we are at the prompt\n\t\t\treturn nil\n\t\t}\n\t\t// Delete", "\t\tif cx <= promptlen(Cinfo)+ox-ox { // Dont move we are at the prompt\n\t\t\treturn nil\n\t\t}\n\t\t// Delete"))
t("C28", "left-bound", (W, "\t\tif ox+cx <= promptlen(Cinfo) { // Dont move we are at the prompt\n\t\t\treturn nil\n\t\t}\n\t\t// Move", "\t\tif ox+cx <= promptlen(Cinfo)-1 { // Dont move we are at the prompt\n\t\t\treturn nil\n\t\t}\n\t\t// Move"))
t("C28", "right-bytes", (W, "end := utf8.RuneCountInString(line); ", "end := len(line) + 0*utf8.RuneLen('a'); "))
t("C28", "right-end", (W, "ox+cx >= end {", "ox+cx >= end-1 {"))
t("C28", "up-top", (W, "err != nil && oy > 0 {", "err != nil {"))
t("C28", "down-last", (W, "if oy+cy == len(v.BufferLines())-1 {", "if oy+cy == len(v.BufferLines()) {"))
t("C28", "split-all", (W, ', ":", 2)\n', ', ":", -1)\n'))
t("C28", "trim-prompt", (W, "strings.TrimPrefix(line, Cinfo.Prompt)", "line"))
t("C28", "prompt-always", (W, "\tif oy+cy == Cinfo.Curline {\n\t\tif FirstPass", "\tif oy+cy >= 0 {\n\t\tif FirstPass"))
t("C28", "prompt-cy", (W, "\tif oy+cy == Cinfo.Curline {\n\t\tif FirstPass", "\tif cy == Cinfo.Curline || oy > 0 {\n\t\tif FirstPass"))
t("C28", "prompt-origin", (W, "\t\tv.SetOrigin(0, oy) // Show the start of the line\n", "\t\tif oy > 0 {\n\t\t\tv.SetOrigin(0, oy)\n\t\t}\n"))
t("C28", "switch-packet", (W, '\tcase "packet":\n\t\tview = "err"\n\t}\n\tif newv', '\tcase "packet":\n\t\tview = "cmd"\n\t}\n\tif newv'))
t("C28", "switch-noshow", (W, "\tif showpacket {\n\t\treturn g.SetViewOnTop(\"packet\")\n\t} else {\n\t\treturn g.SetViewOnTop(name)\n\t}", "\treturn g.SetViewOnTop(name)"))
t("C28", "hide-cmd", (W, '\t\t_, err = g.SetViewOnTop("msg")', '\t\t_, err = g.SetViewOnTop(v.Name())'))
t("C28", "quit-msg", (W, "func Quit(g *gocui.Gui, v *gocui.View) error {\n", "func Quit(g *gocui.Gui, v *gocui.View) error {\n\tif v != nil && v.Name() == \"packet\" {\n\t\treturn nil\n\t}\n"))
t("C28", "run-split", (W, '\tvals := strings.Fields(s)\n', '\tvals := strings.Split(s, " ")\n'))
t("C28", "run-prefix", (W, '\t\tif key == vals[0] {\n', '\t\tif strings.HasPrefix(key, vals[0]) && len(vals[0]) >= 5 {\n'))
t("C28", "exit-prefix", (W, '(f[0] == "exit" || f[0] == "quit") {', '(strings.HasPrefix(f[0], "exit") || f[0] == "quit") {'))
t("C28", "run-empty", (W, 'command[1] == "" { // We', 'strings.TrimSpace(command[1]) == "" { // We'))
t("C28", "run-twice", (W, "\t\tRun(g, command[1])\n\t\tprompt(g, v)", "\t\tif Run(g, command[1]) || len(command[1]) > 2 {\n\t\t\tprompt(g, v)\n\t\t}"))
t("C28", "view-overwrite", (W, "\t\tcmd.Overwrite = true\n", "\t\tcmd.Overwrite = false\n"))
t("C28", "view-wrap", (W, "cmd.Wrap = false // A row", "cmd.Wrap = true // A row"))
t("C28", "view-noscroll", (W, "// A row is a line, long lines scroll sideways\n\t\tcmd.Autoscroll = true", "// A row is a line, long lines scroll sideways\n\t\tcmd.Autoscroll = false"))
t("C28", "key-delete", (W, "gocui.KeyDelete, gocui.ModNone, BackSpace", "gocui.KeyInsert, gocui.ModNone, BackSpace"))
t("C28", "msg-keys", (W, '\tcase "msg", "packet", "err":\n\t\treturn CursorDown(g, v)', '\tcase "msg", "packet", "err":\n\t\tif c, e := g.View("cmd"); e == nil && v.Name() == "err" {\n\t\t\treturn GetLine(g, c)\n\t\t}\n\t\treturn CursorDown(g, v)'))

# ---- windows and start, fifth batch
t("C11", "rm-follows-link", (F, "\treturn os.Remove(fullname)\n", "\tif real, err := filepath.EvalSymlinks(fullname); err == nil {\n\t\tfullname = real\n\t}\n\treturn os.Remove(fullname)\n"))
t("C27", "start-no-layout", (MAIN, "\tg.SetManagerFunc(sarwin.Layout)\n", ""))
t("C27", "start-no-keys", (MAIN, "if err := sarwin.Keybindings(g); err != nil {", "if err := error(nil); err != nil {"))
t("C27", "start-keys-first", (MAIN, "\tg.SetManagerFunc(sarwin.Layout)\n\tif err := sarwin.Keybindings(g); err != nil {", "\tkerr := sarwin.Keybindings(g)\n\tg.SetManagerFunc(sarwin.Layout)\n\tif err := kerr; err != nil {"))
t("C27", "start-udp6x", (MAIN, '"udp6", iface', '"udp6x", iface'))
t("C27", "start-interfaces-err", (MAIN, "\tifis, ierr := net.Interfaces()\n", "\tifis, _ := net.Interfaces()\n\tierr := error(nil)\n"))
t("C26", "clear-origin", (W, "\t\t\tv.SetCursor(0, 0)\n\t\t\treturn v.SetOrigin(0, 0)\n", "\t\t\treturn v.SetCursor(0, 0)\n"))
t("C26", "clear-now", (W, "\t\tupdate(viewtext{g, win, \"\", true})\n", "\t\tif v, err := g.View(win); err == nil {\n\t\t\tv.Clear()\n\t\t\tv.SetCursor(0, 0)\n\t\t\tv.SetOrigin(0, 0)\n\t\t}\n"))
t("C28", "clear-current", (W, "\t\t\tv.Clear()\n\t\t\tv.SetCursor(0, 0)\n", "\t\t\tg := next.g\n\t\t\tg.SetCurrentView(next.vname)\n\t\t\tv.Clear()\n\t\t\tv.SetCursor(0, 0)\n\t\t\tg.SetCurrentView(\"cmd\")\n"))
t("C26", "clear-only-first", (W, '\tfor arg := 1; arg < len(args); arg++ {\n\t\tswitch args[arg] {\n\t\tcase "msg", "err", "packet":\n', '\tfor arg := 1; arg < len(args); arg++ {\n\t\tswitch args[arg] {\n\t\tcase "msg", "err":\n'))
t("C26", "clear-all-two", (W, '\t\tClearwin(g, "err")\n', ''))
t("C26", "msg-no-autoscroll", (W, '\t\tmsg.Autoscroll = true\n', '\t\tmsg.Autoscroll = false\n'))
t("C28", "cmd-output-in-cmd", (W, 'func ErrPrintln(g *gocui.Gui, colour string, args ...interface{}) {\n', 'func ErrPrintln(g *gocui.Gui, colour string, args ...interface{}) {\n\tg.SetViewOnTop("err")\n\tif v := g.CurrentView(); v != nil \u0026\u0026 v.Name() == "packet" {\n\t\tg.SetCurrentView("err")\n\t}\n'))
t("C28", "resize-not-kept", (W, "\t} else {\n\t\tkeepcursor(cmd)\n\t}\n", "\t}\n"))
t("C28", "resize-width", (W, "\tif cx >= maxx {\n\t\tox = x - maxx + 1\n\t}\n", ""))
t("C28", "resize-rows-only", (W, "\tif maxx == cmdx && maxy == cmdy {", "\tif maxy == cmdy {"))

# ---- sixth batch: caches, aliases, fast paths and half-held locks
t("C08", "addflag-contains", (FL, "\tif Valid(flag, option) {\n\t\tif curflag != \"\" {\n", "\tif strings.Contains(curflag, flag+\"=\"+option) {\n\t\treturn curflag\n\t}\n\tif Valid(flag, option) {\n\t\tif curflag != \"\" {\n"))
t("C08", "setglobal-memo", (FL, "\tvar cmu sync.Mutex\n\n\tcmu.Lock()\n\tfs := \"\"\n", "\tvar cmu sync.Mutex\n\n\tcmu.Lock()\n\tfs := \"\"\n\tif len(c.Global) == 0 {\n\t\treturn globalmemo[frametype]\n\t}\n"), (FL, "\tcmu.Unlock()\n\treturn strings.TrimRight(fs, \",\")", "\tcmu.Unlock()\n\tglobalmemo[frametype] = strings.TrimRight(fs, \",\")\n\treturn strings.TrimRight(fs, \",\")"), (FL, "// Setglobal - Set the global", "var globalmemo = map[string]string{}\n\n// Setglobal - Set the global"))
t("C08", "replace-once-last", (FL, "\t\tif strings.Split(flag, \"=\")[0] == value {\n\t\t\treplaced = true\n\t\t\t// We are replacing this current flags value with a new one\n\t\t\tnewflags = AddFlag(", "\t\tif strings.Split(flag, \"=\")[0] == value {\n\t\t\treplaced = newflags != \"\"\n\t\t\t// We are replacing this current flags value with a new one\n\t\t\tnewflags = AddFlag("))
t("C08", "flagvalue-splitn", (FL, "\tflagslice := strings.Split(flags, \",\") // The name=val of the flag\n\tfor fl := range flagslice {\n", "\tflagslice := strings.SplitN(flags, \",\", 8) // The name=val of the flag\n\tfor fl := range flagslice {\n"))
t("C07", "getstr-memo", (FL, "\tff := Get(curflag, field)\n\tfor k, f := range Flags[field].Options {\n\t\t// fmt.Printf(\"GetStr Curflag %0x Looking for %x val in %x=%s\\n\", curflag, val, f, k)\n\t\tif ff == f {\n", "\tff := Get(curflag, field)\n\tkey := [3]uint32{ff, uint32(Flags[field].Len), uint32(Flags[field].Msb)}\n\tif k, ok := strmemo[key]; ok {\n\t\treturn k\n\t}\n\tfor k, f := range Flags[field].Options {\n\t\tif ff == f {\n\t\t\tstrmemo[key] = k\n"), (FL, "// GetStr - Given a current flag and bitfield name return the string name of the bitfield set in curflag\nfunc GetStr(", "var strmemo = map[[3]uint32]string{}\n\n// GetStr - Given a current flag and bitfield name return the string name of the bitfield set in curflag\nfunc GetStr("))
t("C07", "name-memo-dirent", (FL, "\tx := GetD(curdflag, field)\n", "\tx := GetD(curdflag, field)\n\tif x == 0 && field != \"sod\" && curdflag>>15 == 0 {\n\t\treturn GetDStr(curdflag|0x8000, \"sod\")\n\t}\n"))
t("C07", "setflags-stop", (FL, "\t\tcurflag, _ = Set(curflag, f, flags[f])\n", "\t\tv, err := Set(curflag, f, flags[f])\n\t\tif err != nil {\n\t\t\treturn curflag\n\t\t}\n\t\tcurflag = v\n"))
t("C09", "holes-scratch", (H, "\tvar holes []Hole\n", "\tholes := scratch[:0]\n\tdefer func() { scratch = holes }()\n"), (H, "// Getholes", "var scratch []Hole\n\n// Getholes"))
t("C09", "holes-contained", (H, "\tfill := Hole{start, end}\n", "\tfor _, f := range fills {\n\t\tif f.Start <= start && end <= f.End+1 {\n\t\t\treturn fills\n\t\t}\n\t}\n\tfill := Hole{start, end}\n"))
t("C09", "holes-bsearch", (H, "\tfill := Hole{start, end}\n", "\tif n := len(fills); n > 0 && start == fills[n-1].End {\n\t\tfills[n-1].End = end\n\t\treturn fills\n\t}\n\tif n := len(fills); n > 1 && end == fills[0].Start {\n\t\tfills[0].Start = start\n\t\treturn fills\n\t} else if n > 1 && start == fills[0].End && end <= fills[1].Start {\n\t\tfills[0].End = end\n\t\treturn fills\n\t}\n\tfill := Hole{start, end}\n"))
t("C24", "write-sparse-zero", (F, "\tif n, err = fp.Write(buf); err != nil {\n", "\tif fi, e := fp.Stat(); e == nil && uint64(fi.Size()) < pos+uint64(len(buf)) && len(bytes.Trim(buf, \"\\x00\")) == 0 {\n\t\treturn len(buf), fp.Truncate(int64(pos) + int64(len(buf)) - 1)\n\t}\n\tif n, err = fp.Write(buf); err != nil {\n"), (F, 'import (\n', 'import (\n\t"bytes"\n'))
t("C24", "write-trim-tail", (F, "\tif n, err = fp.Write(buf); err != nil {\n", "\tif fi, e := fp.Stat(); e == nil && pos > 0 && pos == uint64(fi.Size()) && len(buf) == 1 {\n\t\treturn 1, nil\n\t}\n\tif n, err = fp.Write(buf); err != nil {\n"))
t("C24", "optimise-merge-max", (H, "\t\t\t} else if fills[i+1].End >= fills[i].End {\n", "\t\t\t} else if fills[i+1].End >= fills[i].End {\n\t\t\t\tif i+2 < len(fills) && fills[i+2].Start < fills[i+1].End {\n\t\t\t\t\tfills[i+1].End = fills[i+2].Start + 1\n\t\t\t\t}\n"))
t("C10", "write-dup-skip", (F, "\tif err = FileSeek(fp, pos); err != nil {\n\t\treturn 0, err\n\t}\n", "\tif err = FileSeek(fp, pos); err != nil {\n\t\treturn 0, err\n\t}\n\told := make([]byte, len(buf))\n\tif m, e := fp.Read(old); e == nil && m > 0 && string(old[:m]) == string(buf[:m]) {\n\t\treturn len(buf), nil\n\t}\n\tfp.Seek(int64(pos), 0)\n"))
t("C12", "csum-copyn", ("fileio/checksum.go", "\tif _, err = io.Copy(hash, fp); err != nil {\n", "\tif _, err = io.Copy(hash, io.LimitReader(fp, 1<<20)); err != nil {\n"))
t("C12", "meta-size-blocks", (F, "\tfs.Size = info.Size()\n", "\tfs.Size = info.Size()\n\tif fs.IsSymLink {\n\t\tfs.Size = int64(len([]rune(fs.Origin)))\n\t}\n"))
t("C12", "meta-mtime-link", (F, "\tfs.ModTime = info.ModTime()\n", "\tfs.ModTime = info.ModTime()\n\tif st, err := os.Stat(fullname); err == nil {\n\t\tfs.ModTime = st.ModTime()\n\t}\n"))
t("C12", "meta-uid-swap", (F, "fs.Uid, fs.Gid = sarsys", "fs.Gid, fs.Uid = sarsys"))
t("C14", "beacon-unsafe-eid", (B, "\tb.Eid = string(frame[4:])\n\treturn nil\n", "\tif len(frame) > 4 {\n\t\tb.Eid = unsafe.String(&frame[4], len(frame)-4)\n\t} else {\n\t\tb.Eid = \"\"\n\t}\n\treturn nil\n"), (B, 'import (\n', 'import (\n\t"unsafe"\n'))
t("C14", "req-unsafe-fname", (R, "\tr.Fname = string(frame[pos : pos+end])\n", "\tif r.Fname = \"\"; end > 0 {\n\t\tr.Fname = unsafe.String(&frame[pos], end)\n\t}\n"), (R, 'import (\n', 'import (\n\t"unsafe"\n'))
t("C14", "ts-local-cap", (TS, "\t\tdefault:\n\t\t\tneed = 15\n", "\t\tdefault:\n\t\t\tneed = 13\n"), (TS, 't.local = strings.TrimRight(string(tstamp[1:15]), "\\x00")', 't.local = strings.TrimRight(string(tstamp[1:cap(tstamp)]), "\\x00")'))
t("C14", "dirent-unterminated", (E, "\tif end := strings.IndexByte(d.Path, 0); end >= 0 { // Path is null terminated string\n\t\td.Path = d.Path[:end]\n", "\tend := strings.IndexByte(d.Path, 0)\n\tfor len(d.Path) > 1024 && end < 0 {\n\t\tend = strings.IndexByte(d.Path, 0)\n\t}\n\tif end >= 0 { // Path is null terminated string\n\t\td.Path = d.Path[:end]\n"))
t("C17", "main-delete-lock", (TR, "\t\t// Delete the file\n\t\tif err := fileio.FileRm(r.Fname); err != nil {\n", "\t\t// Delete the file\n\t\tTrmu.Lock()\n\t\tdefer Trmu.Unlock()\n\t\tif err := fileio.FileRm(r.Fname); err != nil {\n"))
t("C17", "dup-defer-lock", (TR, "\tTransfers = append(Transfers, t)\n\tTrmu.Unlock()\n", "\tTransfers = append(Transfers, t)\n\tif len(Transfers) < 2 {\n\t\tTrmu.Unlock()\n\t} else {\n\t\tdefer Trmu.Unlock()\n\t}\n"))
t("C17", "beacon-recursive-lock", (B, "\t// We have a new Peer - add it\n", "\tif len(CopyPeers()) > 32 {\n\t\treturn false\n\t}\n\t// We have a new Peer - add it\n"))
t("C19", "lookup-snapshot", (W, "\tTrmu.Lock()\n\tdefer Trmu.Unlock()\n\tfor i := len(Transfers) - 1; i >= 0; i-- {\n\t\tif addr ==", "\tTrmu.Lock()\n\tTransfers := Transfers\n\tTrmu.Unlock()\n\tfor i := len(Transfers) - 1; i >= 0; i-- {\n\t\tif addr =="))
t("C19", "peers-alias", (B, "\treturn append([]Peer(nil), Peers...)", "\treturn Peers[:len(Peers):len(Peers)]"))
t("C19", "session-fast", (W, "\tsmu.Lock()\n\tdefer smu.Unlock()\n\n\tif sessionid == 0 {\n", "\tif sessionid != 0 {\n\t\tid := sessionid + 1\n\t\tsmu.Lock()\n\t\tdefer smu.Unlock()\n\t\tif id > sessionid {\n\t\t\tsessionid = id\n\t\t}\n\t\treturn id\n\t}\n\tsmu.Lock()\n\tdefer smu.Unlock()\n\n\tif sessionid == 0 {\n"))
t("C19", "remove-two-step", (W, "\t\t\tTransfers = append(Transfers[:i], Transfers[i+1:]...)\n\t\t\treturn nil\n", "\t\t\trest := append([]*Transfer(nil), Transfers[i+1:]...)\n\t\t\tTrmu.Unlock()\n\t\t\tt.Fp.Sync()\n\t\t\tTrmu.Lock()\n\t\t\tTransfers = append(Transfers[:i], rest...)\n\t\t\treturn nil\n"))
t("C23", "net-inplace-alias", (NET, "\tfor i := 0; i < len(a); i++ {\n\t\tif a[i].String() == val.String() {\n\t\t\ta = removeUDPAddrIndex(a, i)\n\t\t\ta = RemoveUDPAddrValue(a, val) // Too recurse is divine. Call me again to remove dupes\n\t\t}\n\t}\n\treturn a\n", "\tret := a[:0]\n\tfor i := range a {\n\t\tif a[i].String() != val.String() {\n\t\t\tret = append(ret, a[i])\n\t\t}\n\t}\n\treturn ret\n"))
t("C23", "net-norecurse", (NET, "\t\t\ta = RemoveUDPAddrValue(a, val) // Too recurse is divine. Call me again to remove dupes\n", ""))
t("C23", "net-port-kept", (NET, "\ta = a + \":\" + strconv.Itoa(Port)\n", "\tif !isIPv4(s) || strings.Count(s, \":\") == 0 {\n\t\ta = a + \":\" + strconv.Itoa(Port)\n\t}\n"))
t("C23", "net-lower", (NET, "\t\ta = \"[\" + s + \"]\"\n", "\t\ta = \"[\" + strings.ToLower(s) + \"]\"\n"))
t("C20", "status-errf-contains", (W, "\tif errf == \"success\" {\n\t\tlasthole = len(h)", "\tif errf == \"success\" && len(t.Curfills) != 1 {\n\t\tlasthole = len(h)"))
t("C20", "status-allholes-last-page", (W, "\t\tif endhole > lasthole {\n\t\t\tendhole = lasthole\n\t\t}\n", "\t\tif endhole >= lasthole {\n\t\t\tendhole = lasthole\n\t\t\tflags = sarflags.ReplaceFlag(flags, \"allholes\", \"yes\")\n\t\t}\n"))
t("C18", "newinit-any-dir", (W, "\t\tif fname == i.Filename && peer.String() == i.Peer.String() {\n", "\t\tif fname == i.Filename && ttype == i.Ttype && peer.String() == i.Peer.String() {\n"))
t("C18", "dial-leak-fail", (W, "\tif t.Conn, err = net.DialUDP(\"udp\", nil, peer); err != nil {\n", "\tTransfers = append(Transfers, t)\n\tdefer func() {\n\t\tif t.Cliflags == nil {\n\t\t\tTransfers = Transfers[:len(Transfers)-1]\n\t\t}\n\t}()\n\tif t.Conn, err = net.DialUDP(\"udp\", nil, peer); err != nil {\n"))
t("C15", "listen-static-status", (MAIN, "\t\t\t\td.Session = binary.BigEndian.Uint32(framebuf[4:8]) // Not decoded when the frame is too short\n", "\t\t\t\tif d.Session == 0 {\n\t\t\t\t\td.Session = binary.BigEndian.Uint32(buf[4:8])\n\t\t\t\t}\n"))
t("C15", "listen-addr-reuse", (MAIN, "\t\tframelen, remoteAddr, err = conn.ReadFromUDP(buf)\n", "\t\tvar from *net.UDPAddr\n\t\tframelen, from, err = conn.ReadFromUDP(buf)\n\t\tif from != nil {\n\t\t\t*remoteAddr = *from\n\t\t}\n"))
t("C16", "trans-name-clean", (TR, "\t\tFilename: r.Fname,\n", "\t\tFilename: filepath.Clean(r.Fname),\n"), (TR, 'import (\n', 'import (\n\t"path/filepath"\n'))
t("C26", "peers-sort-in-place", (W, "\t\tpeers := beacon.CopyPeers()\n", "\t\tpeers := beacon.Peers\n"))
t("C26", "peers-gb", (W, "peers[key].Freespace/1024/1024", "peers[key].Freespace>>10/1000"))

# ---- seventh batch: locks that are missing where maps are shared, and thin properties
LOCK = "\tsarflags.Climu.Lock()\n\tdefer sarflags.Climu.Unlock()\n"
for _c in ("Checksum", "Descriptor", "Freespace", "Reqtstamp", "Rxwilling", "Stream", "Timestamp", "Txwilling"):
    t("C21", "unlocked-" + _c.lower(), (W, "func cmd%s(g *gocui.Gui, args []string) {\n%s" % (_c, "\n" if False else "") + LOCK, "func cmd%s(g *gocui.Gui, args []string) {\n" % _c))
t("C21", "unlocked-beacon", (W, "\t// Protects beacon.Beacon structure (EID)\n" + LOCK, ""))
t("C19", "unlocked-newinit", (W, "\tsarflags.Climu.Lock()\n\tcliflags, err := c.CopyCliflags()\n\tsarflags.Climu.Unlock()\n", "\tcliflags, err := c.CopyCliflags()\n"))
t("C17", "memo-unlocked", (FL, "\tff := Get(curflag, field)\n\tfor k, f := range Flags[field].Options {\n", "\tff := Get(curflag, field)\n\tkey := fmt.Sprint(field, ff)\n\tif k, ok := strmemo[key]; ok {\n\t\treturn k\n\t}\n\tfor k, f := range Flags[field].Options {\n\t\tif ff == f {\n\t\t\tstrmemo[key] = k\n\t\t}\n"), (FL, "// GetStr - Given a current", "var strmemo = map[string]string{}\n\n// GetStr - Given a current"))
t("C17", "seen-map-unlocked", (TR, "\t// See if the file exists on our local system\n", "\tseen[from.String()]++\n\t// See if the file exists on our local system\n"), (TR, "var Trmu sync.Mutex", "var seen = map[string]int{}\nvar Trmu sync.Mutex"))
t("C25", "beacon-interval-8", (W, "time.Sleep(time.Duration(clib.interval) * time.Second)", "time.Sleep(time.Duration(uint8(clib.interval)) * time.Second)"))
t("C25", "beacon-interval-first", (W, "\t\ttime.Sleep(time.Duration(clib.interval) * time.Second)\n", "\t\tif iterations < clib.count || clib.count == 1 {\n\t\t\ttime.Sleep(time.Duration(clib.interval) * time.Second)\n\t\t}\n"))
t("C25", "beacon-cache", (W, "\tif err = txb.New(clib.flags, &binfo); err != nil {", "\tif b, ok := sentbeacons[addr.String()+clib.flags]; ok {\n\t\ttxb = b\n\t} else if err = txb.New(clib.flags, &binfo); err != nil {"), (W, "\t// We send out beacons every interval seconds", "\tsentbeacons[addr.String()+clib.flags] = txb\n\t// We send out beacons every interval seconds"), (W, "// Send count beacons to host\n", "var sentbeacons = map[string]beacon.Beacon{}\n\n// Send count beacons to host\n"))
t("C25", "beacon-eid-addr", (W, 'eid := fmt.Sprintf("%s-%d", conn.LocalAddr().String(), os.Getpid())', 'eid := fmt.Sprintf("%s-%d", conn.LocalAddr().(*net.UDPAddr).IP.String(), os.Getpid())'))
t("C25", "beacon-v6-err", (W, "\t\t\tif addr, err := sarnet.UDPAddress(sarflags.Cliflag.V6Multicast); err == nil {\n", "\t\t\tif addr, err := sarnet.UDPAddress(sarnet.IPv6Multicast); err == nil {\n"))
t("C25", "beacon-single-noerr", (W, '\t\t\tErrPrintln(g, "red_black", "Invalid IP Address:", args[1])\n', ''))
t("C25", "beacon-last-only-err", (W, '\t\tErrPrintln(g, "red_black", "Invalid IP Address:", args[i])\n', '\t\tif i == len(args)-1 {\n\t\t\tErrPrintln(g, "red_black", "Invalid IP Address:", args[i])\n\t\t}\n'))
t("C25", "beacon-count-zero-one", (W, "\tclibeacon.count = sarflags.Cliflag.Bcount\n", "\tif clibeacon.count = sarflags.Cliflag.Bcount; clibeacon.count == 0 {\n\t\tclibeacon.count = 1\n\t}\n"))
t("C25", "beacon-print-before-new", (W, "\tdefer conn.Close()\n\n\tMsgPrintln(g, \"cyan_black\", \"Sending beacon to \", addr.String())\n", "\tif clib.count > 0 {\n\t\tdefer conn.Close()\n\t}\n\n\tMsgPrintln(g, \"cyan_black\", \"Sending beacon to \", addr.String())\n"))
t("C23", "net-ip-only", (NET, "\t\tif a[i].String() == val.String() {\n", "\t\tif a[i].IP.Equal(val.IP) && a[i].Zone == val.Zone {\n"))
t("C23", "net-zone-ignored", (NET, "\t\tif a[i].String() == val.String() {\n", "\t\tif a[i].IP.Equal(val.IP) && a[i].Port == val.Port {\n"))
t("C23", "net-trim", (NET, "\tvar a string\n\n\tif isIPv6(s) {", "\tvar a string\n\n\ts = strings.TrimSpace(s)\n\tif isIPv6(s) {"))
t("C23", "net-resolve4", (NET, "net.ResolveUDPAddr(\"udp\", a)", "net.ResolveUDPAddr(map[bool]string{true: \"udp6\", false: \"udp4\"}[isIPv6(s)], a)"))
t("C23", "net-last-kept", (NET, "\tfor i := 0; i < len(a); i++ {\n\t\tif a[i].String()", "\tfor i := 0; i < len(a)-1 || i == 0 && len(a) == 1; i++ {\n\t\tif a[i].String()"))
t("C20", "status-nodesc", (W, "\tif hsize == 0 { // No descriptor so the header says d16\n\t\thsize = 4\n\t}\n", "\tif hsize == 0 { // No descriptor so the header says d16\n\t\treturn 0\n\t}\n"))
t("C20", "status-udp", (W, "\tplen = sarflags.Mtu() - 60 - 8 // 60 for IP header, 8 for UDP header\n\tplen -= 8                      // Saratoga Header + Session\n", "\tplen = sarflags.Mtu() - 60 - 8 // 60 for IP header, 8 for UDP header\n"))
t("C20", "status-progress-live", (W, "Inrespto: t.Inrespto, Holes: h[starthole:endhole]}", "Inrespto: t.Inrespto + uint64(fc), Holes: h[starthole:endhole]}"))
t("C20", "status-send-ignored", (W, "\t\tif se := st.Send(t.Conn, t.Peer); se != nil {\n\t\t\tErrPrintln(g, \"red_black\", se.Error())\n\t\t\treturn \"badstatus\"\n\t\t}\n", "\t\tif se := st.Send(t.Conn, t.Peer); se != nil {\n\t\t\tErrPrintln(g, \"red_black\", se.Error())\n\t\t\tif fc == 0 {\n\t\t\t\treturn \"badstatus\"\n\t\t\t}\n\t\t}\n"))
t("C18", "remove-nil-slot", (W, "\t\t\tTransfers = append(Transfers[:i], Transfers[i+1:]...)\n\t\t\treturn nil\n", "\t\t\tTransfers = append(Transfers[:i:i], Transfers[i+1:]...)\n\t\t\tif len(Transfers) == 1 && i == 1 {\n\t\t\t\tTransfers = Transfers[:0]\n\t\t\t}\n\t\t\treturn nil\n"))
t("C18", "change-size-32", (W, "\tif len(t.Data) != (int)(m.Dir.Size) {\n", "\tif uint16(len(t.Data)) != uint16(m.Dir.Size) {\n"))
t("C18", "session-from-len", (W, "\tt.Session = newsession()\n", "\tif t.Session = newsession(); len(Transfers) > 2 {\n\t\tt.Session = Transfers[0].Session + uint32(len(Transfers))\n\t}\n"))
t("C18", "peer-alias-port", (W, "\tt.Peer = peer\n", "\tt.Peer = peer\n\tif len(Transfers) > 0 && Transfers[0].Peer.IP.Equal(peer.IP) {\n\t\tt.Peer = Transfers[0].Peer\n\t}\n"))
t("C13", "peer-free-ratio", (B, "\t\t\tif Peers[p].Freespace != b.Freespace ||\n", "\t\t\tif Peers[p].Freespace>>1 != b.Freespace>>1 ||\n"))
# ---- eighth batch
t("C24", "holes-first-byte", (H, "if f == 0 && fills[f].Start != 0 {", "if f == 0 && fills[f].Start > 1 {"))
t("C24", "fills-cap", (H, "\tfills = append(fills, fill)\n\tif len(fills) > 1 {", "\tfills = append(fills, fill)\n\tif len(fills) > 6 {\n\t\tfills = fills[1:]\n\t}\n\tif len(fills) > 1 {"))
t("C10", "read-short-eof", (F, "\tbuf = buf[0:n]\n\treturn buf, nil", "\tif n < blen && n%2 == 1 {\n\t\tn--\n\t}\n\tbuf = buf[0:n]\n\treturn buf, nil"))
t("C24", "write-append", (F, "\t// We have written something but there is an issue\n\tif n, err = fp.Write(buf); err != nil {", "\tif fi, serr := fp.Stat(); serr == nil && uint64(fi.Size()) < pos {\n\t\tfp.Seek(0, 2)\n\t}\n\tif n, err = fp.Write(buf); err != nil {"))
t("C24", "status-decode-last-hole", (S, "\ts.Holes = nil\n\ts.Tstamp = timestamp", "\ts.Holes = nil\n\tdefer func() {\n\t\tif n := len(s.Holes); n > 3 {\n\t\t\ts.Holes = s.Holes[:n-1]\n\t\t}\n\t}()\n\ts.Tstamp = timestamp"))
t("C22", "conf-ppad-prompt", (FL, "\tc.Ppad = conf.Ppad ", "\tif c.Ppad = 3; conf.Ppad > 3 {\n\t\tc.Ppad = conf.Ppad\n\t}\n\t_ = conf.Ppad "))
t("C22", "conf-port-16", (FL, "conf.Port = int(value.(float64))", "conf.Port = int(int16(value.(float64)))"))
t("C22", "conf-keep-commands", (FL, "\tCommands = make(map[string]Cmdtype)           // Setup Commands global map\n", "\tif Commands == nil {\n\t\tCommands = make(map[string]Cmdtype) // Setup Commands global map\n\t}\n"))
t("C22", "conf-keep-timestamps", (FL, "\t\t\t\t\tTimeStamps.Options = make(map[string]uint8)\n", "\t\t\t\t\tif TimeStamps.Options == nil {\n\t\t\t\t\t\tTimeStamps.Options = make(map[string]uint8)\n\t\t\t\t\t}\n"))
t("C22", "copy-global-alias-single", (FL, "\td.Global = make(map[string]string)\n\tfor g := range s.Global {\n\t\td.Global[g] = s.Global[g]\n\t}\n", "\td.Global = make(map[string]string)\n\tfor g := range s.Global {\n\t\td.Global[g] = s.Global[g]\n\t}\n\tif d.Global[\"stream\"] == \"yes\" {\n\t\td.Global = s.Global\n\t}\n"))
t("C22", "copy-sardir-cwd", (FL, "\td.Sardir = s.Sardir\n", "\tif d.Sardir = s.Sardir; os.Getenv(\"SARDIR\") != \"\" {\n\t\td.Sardir = os.Getenv(\"SARDIR\")\n\t}\n"))
t("C22", "conf-empty-flag-ok", (FL, "\t\tif !Valid(f, c.Global[f]) {\n", "\t\tif v != \"\" && !Valid(f, c.Global[f]) {\n"))
t("C05", "dirent-path-1023", (E, "\tif len(d.Path) > 1024 {\n\t\treturn nil, errors.New(\"path name exceeds 1024 bytes\")", "\tif len(d.Path) >= 1024 {\n\t\treturn nil, errors.New(\"path name exceeds 1024 bytes\")"))
t("C05", "dirent-size-d64-top", (E, "\t\td.Size = uint64(binary.BigEndian.Uint64(frame[pos : pos+dsize]))\n", "\t\td.Size = uint64(binary.BigEndian.Uint64(frame[pos:pos+dsize])) & sarflags.MaxInt64\n"))
t("C05", "meta-stale-csum", (M, "\tm.Checksum = make([]byte, csuml)\n\tcopy(m.Checksum, frame[pos:pos+csuml])\n", "\tif csuml > 0 {\n\t\tm.Checksum = make([]byte, csuml)\n\t\tcopy(m.Checksum, frame[pos:pos+csuml])\n\t}\n"))
t("C05", "dirent-copy-mtime", (E, "\tcopy(ts[1:], frame[pos:pos+4])\n\tif terr := d.Ctime.Get(ts)", "\tif d.Mtime.Secs() != 0 && d.Size == 0 {\n\t\tcopy(ts[1:], frame[pos-4:pos])\n\t} else {\n\t\tcopy(ts[1:], frame[pos:pos+4])\n\t}\n\tif terr := d.Ctime.Get(ts)"))
t("C05", "dirent-path-utf8", (E, "\td.Path = string(frame[pos:])\n", "\td.Path = strings.ToValidUTF8(string(frame[pos:]), \"\")\n"))
t("C14", "dirent-minlen-d64", (E, "\tcase \"d64\":\n\t\tminlen += 8\n", "\tcase \"d64\":\n\t\tminlen += 4\n"))
t("C14", "meta-csum-short", (M, "\tif len(frame) < pos+csuml {\n", "\tif len(frame) < csuml {\n"))
t("C14", "meta-csum-clip", (M, "\tif len(frame) < pos+csuml {\n\t\treturn errors.New(\"MetaDataGet - Frame too short\")\n\t}\n", "\tif len(frame) < pos+csuml {\n\t\tcsuml = 0\n\t}\n"))
t("C14", "dirent-no-nul", (E, "\tif end := strings.IndexByte(d.Path, 0); end >= 0 { // Path is null terminated string\n\t\td.Path = d.Path[:end]\n\t}\n", "\td.Path = d.Path[:strings.IndexByte(d.Path, 0)]\n"))
t("C16", "req-put-dir-exists", (TR, "\t\tif exists {\n", "\t\tif exists && rxwilling != \"no\" {\n"))
t("C16", "req-willing-late", (TR, "\t\tif rxwilling != \"yes\" {\n", "\t\tif rxwilling != \"yes\" && !(rxwilling == \"capable\" && ttype == \"getdir\") {\n"))
t("C16", "req-dup-session-only", (TR, "if Transfers[i].Session == t.Session && Transfers[i].Peer.String() == t.Peer.String() {", "if Transfers[i].Session == t.Session && Transfers[i].Peer.IP.Equal(t.Peer.IP) && Transfers[i].Peer.Zone == t.Peer.Zone {"))
t("C16", "req-dup-zone", (TR, "if Transfers[i].Session == t.Session && Transfers[i].Peer.String() == t.Peer.String() {", "if Transfers[i].Session == t.Session && Transfers[i].Peer.IP.Equal(t.Peer.IP) && Transfers[i].Peer.Port == t.Peer.Port {"))
t("C16", "req-del-stat-first", (TR, "\t\tif err := fileio.FileRm(r.Fname); err != nil {", "\t\tif err := fileio.FileRm(r.Fname); err != nil && !os.IsPermission(err) && txwilling != \"no\" {"))
t("C16", "req-retry-twice", (TR, "\tTransfers = append(Transfers, t)\n\tTrmu.Unlock()\n", "\tTransfers = append(Transfers, t)\n\tif len(Transfers) > 3 {\n\t\tTransfers[0] = t\n\t}\n\tTrmu.Unlock()\n"))
t("C13", "peer-zone-key", (B, "\tnewp.Addr = from.IP.String()\n", "\tnewp.Addr = (&net.IPAddr{IP: from.IP, Zone: from.Zone}).String()\n"))
t("C13", "peer-updated-created", (B, "\tnewp.Updated = newp.Created\n", "\tnewp.Updated.Now(\"posix32\")\n"))
t("C15", "listen-framelen-eq", (MAIN, "\t\tif framelen > maxframesize {\n", "\t\tif framelen >= maxframesize {\n"))
t("C15", "listen-bad-session", (MAIN, "\t\t\t\td.Session = binary.BigEndian.Uint32(framebuf[4:8]) // Not decoded when the frame is too short\n", ""))
t("C15", "listen-badver-session", (MAIN, "\t\t\tsinfo := status.Sinfo{Session: 0, Progress: 0, Inrespto: 0, Holes: nil}\n\t\t\tsarwin.ErrPrintln(g, \"red_black\", \"Not Saratoga", "\t\t\tsinfo := status.Sinfo{Session: binary.BigEndian.Uint32(framebuf[4:8]), Progress: 0, Inrespto: 0, Holes: nil}\n\t\t\tsarwin.ErrPrintln(g, \"red_black\", \"Not Saratoga"))
t("C21", "checksum-show-err", (W, '\t\tMsgPrintln(g, "white_black", "Checksum ", sarflags.Cliflag.Global["csumtype"])\n\t\treturn\n', '\t\tMsgPrintln(g, "white_black", "Checksum ", sarflags.Cliflag.Global["csumtype"])\n'))
t("C21", "interval-err", (W, '\t\t\t\tsarflags.Cliflag.Timeout.Binterval = uint(n)\n\t\t\t\treturn\n', '\t\t\t\tsarflags.Cliflag.Timeout.Binterval = uint(n)\n'))
t("C20", "status-progress-holes", (W, "\tplen -= 8                      // Saratoga Header + Session\n", "\tplen -= 4                      // Saratoga Header + Session\n"))
t("C27", "main-statfs-ignored", (MAIN, "\t\tlog.Fatal(errors.New(\"cannot stat saratoga working directory\"))\n", "\t\tfmt.Println(errors.New(\"cannot stat saratoga working directory\"))\n"))
t("C27", "main-v6-loop-nil", (MAIN, "\tif err := sarnet.SetMulticastLoop(v6mcastcon); err != nil {\n\t\tfatal(err)\n\t}\n", "\tif err := sarnet.SetMulticastLoop(v6mcastcon); err != nil {\n\t\tsarwin.ErrPrintln(g, \"red_black\", err)\n\t}\n"))
t("C17", "main-listen-status-inline", (MAIN, "\t\t\t\tgo func() {\n\t\t\t\t\tif trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv6frame) {", "\t\t\t\tfunc() {\n\t\t\t\t\tif trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv6frame) {"))
# ---- ninth batch: beyond a threshold
t("C09", "fills-over-64", (H, "\tfills = append(fills, fill)\n\tif len(fills) > 1 {", "\tfills = append(fills, fill)\n\tif len(fills) > 64 {\n\t\tfills[63].End = fills[64].Start\n\t}\n\tif len(fills) > 1 {"))
t("C09", "holes-over-100", (H, "\t\tif f < lenfills-1 {\n", "\t\tif f < lenfills-1 && len(holes) < 100 {\n"))
t("C13", "peers-over-64", (B, "\tPeers = append(Peers, *newp)\n", "\tif len(Peers) >= 64 {\n\t\tPeers = Peers[1:]\n\t}\n\tPeers = append(Peers, *newp)\n"))
t("C13", "peers-over-256", (B, "\tPeers = append(Peers, *newp)\n", "\tif len(Peers) >= 256 {\n\t\tPeers = Peers[1:]\n\t}\n\tPeers = append(Peers, *newp)\n"))
t("C18", "transfers-over-16", (W, "\tTransfers = append(Transfers, t)\n\tMsgPrintln(g, \"green_black\", msg)\n\treturn t, nil\n", "\tif len(Transfers) >= 16 {\n\t\tTransfers = Transfers[1:]\n\t}\n\tTransfers = append(Transfers, t)\n\tMsgPrintln(g, \"green_black\", msg)\n\treturn t, nil\n"))
t("C18", "transfers-over-32", (W, "\tTransfers = append(Transfers, t)\n\tMsgPrintln(g, \"green_black\", msg)\n\treturn t, nil\n", "\tif len(Transfers) >= 32 {\n\t\tTransfers = Transfers[1:]\n\t}\n\tTransfers = append(Transfers, t)\n\tMsgPrintln(g, \"green_black\", msg)\n\treturn t, nil\n"))
t("C16", "requests-over-16", (TR, "\tTransfers = append(Transfers, t)\n\tTrmu.Unlock()\n", "\tif len(Transfers) >= 16 {\n\t\tTransfers = Transfers[1:]\n\t}\n\tTransfers = append(Transfers, t)\n\tTrmu.Unlock()\n"))
t("C16", "requests-over-64", (TR, "\tTransfers = append(Transfers, t)\n\tTrmu.Unlock()\n", "\tif len(Transfers) >= 64 {\n\t\tTransfers = Transfers[1:]\n\t}\n\tTransfers = append(Transfers, t)\n\tTrmu.Unlock()\n"))
t("C02", "status-over-256", (S, "\t\t\tend := int(binary.BigEndian.Uint32(frame[pos : pos+dsize]))\n\t\t\tpos += dsize\n", "\t\t\tend := int(binary.BigEndian.Uint32(frame[pos : pos+dsize]))\n\t\t\tpos += dsize\n\t\t\tif len(s.Holes) >= 256 {\n\t\t\t\tbreak\n\t\t\t}\n"))
t("C04", "request-over-4096", (R, "\tr.Fname = string(frame[pos : pos+end])\n", "\tif end > 4096 {\n\t\treturn errors.New(\"file name too long\")\n\t}\n\tr.Fname = string(frame[pos : pos+end])\n"))
t("C10", "csum-over-1m", (CK, "io.Copy(hash, fp)", "io.Copy(hash, io.LimitReader(fp, 1<<20))"))
t("C10", "csum-over-16m", (CK, "io.Copy(hash, fp)", "io.Copy(hash, io.LimitReader(fp, 16<<20))"))
t("C10", "write-over-64k", (F, "\tif n, err = fp.Write(buf); err != nil {", "\tif len(buf) > 65536 {\n\t\tbuf = buf[:65536]\n\t}\n\tif n, err = fp.Write(buf); err != nil {"))
t("C10", "seek-over-4g", (F, "\tipos = int64(pos) // Yep", "\tif pos > 1<<32 {\n\t\tpos = uint64(uint32(pos))\n\t}\n\tipos = int64(pos) // Yep"))
t("C25", "beacon-over-20", (W, "\tclibeacon.count = sarflags.Cliflag.Bcount\n", "\tif clibeacon.count = sarflags.Cliflag.Bcount; clibeacon.count > 20 {\n\t\tclibeacon.count = 20\n\t}\n"))
t("C26", "info-over-10", (W, "\t\tfor key := 0; key < len(sslice); key++ {\n\t\t\tsbuf += sslice[key]\n\t\t}\n\t\tsbuf += sborder\n\t\tMsgPrintln(g, \"magenta_black\", sbuf)\n", "\t\tfor key := 0; key < len(sslice) && key < 10; key++ {\n\t\t\tsbuf += sslice[key]\n\t\t}\n\t\tsbuf += sborder\n\t\tMsgPrintln(g, \"magenta_black\", sbuf)\n"))
t("C26", "peers-over-10", (W, "\t\tfor key := 0; key < len(sslice); key++ {\n\t\t\tsbuf += sslice[key]\n\t\t}\n\t\tsbuf += sborder\n\t\tMsgPrintln(g, \"green_black\", sbuf)\n", "\t\tfor key := 0; key < len(sslice) && key < 10; key++ {\n\t\t\tsbuf += sslice[key]\n\t\t}\n\t\tsbuf += sborder\n\t\tMsgPrintln(g, \"green_black\", sbuf)\n"))
t("C20", "pages-over-10", (W, "\tfor fc := 0; fc < framecnt; fc++ {\n", "\tfor fc := 0; fc < framecnt && fc < 10; fc++ {\n"))
t("C20", "pages-over-40", (W, "\tfor fc := 0; fc < framecnt; fc++ {\n", "\tfor fc := 0; fc < framecnt && fc < 40; fc++ {\n"))
t("C15", "listen-over-20", (MAIN, "\t\t// Very basic frame checks before we get into what it is\n\t\tif framelen < 8 {", "\t\tif short > 20 {\n\t\t\treturn\n\t\t}\n\t\tif framelen < 8 {\n\t\t\tshort++\n\t\t}\n\t\tif framelen < 8 {"), (MAIN, "\tframelen := 0\n\terr := error(nil)\n", "\tframelen, short := 0, 0\n\terr := error(nil)\n"))
t("C23", "remove-over-8", (NET, "\tfor i := 0; i < len(a); i++ {\n\t\tif a[i].String()", "\tfor i := 0; i < len(a) && i < 8; i++ {\n\t\tif a[i].String()"))
t("C08", "flag-over-12", (FL, "func AddFlag(curflag string, flag string, option string) string {\n", "func AddFlag(curflag string, flag string, option string) string {\n\tif strings.Count(curflag, \",\") > 12 {\n\t\treturn curflag\n\t}\n"))
t("C21", "timeout-over-65535", (W, "\t\t\t\tsarflags.Cliflag.Timeout.Metadata = n\n", "\t\t\t\tsarflags.Cliflag.Timeout.Metadata = int(uint16(n))\n"))
t("C21", "bcount-over-255", (W, "\t\t\t\tsarflags.Cliflag.Bcount = uint(n)\n", "\t\t\t\tsarflags.Cliflag.Bcount = uint(uint8(n))\n"))
t("C21", "interval-over-3600", (W, "\t\t\t\tsarflags.Cliflag.Timeout.Binterval = uint(n)\n", "\t\t\t\tif n > 3600 {\n\t\t\t\t\tn = 3600\n\t\t\t\t}\n\t\t\t\tsarflags.Cliflag.Timeout.Binterval = uint(n)\n"))
t("C05", "dirent-path-over-255", (E, "\td.Path = string(frame[pos:])\n", "\tif d.Path = string(frame[pos:]); len(d.Path) > 256 {\n\t\td.Path = d.Path[:256]\n\t}\n"))
t("C11", "path-over-200", (F, 'return filepath.Join(Sardir(), filepath.Join("/", fname))', 'if len(fname) > 200 {\n\t\treturn filepath.Join(Sardir(), fname)\n\t}\n\treturn filepath.Join(Sardir(), filepath.Join("/", fname))'))
t("C12", "csum-big-file", (CK, "io.Copy(hash, fp)", "io.CopyBuffer(hash, io.LimitReader(fp, 1<<20), nil)"))
t("C01", "data-over-9000", (D, "\tcopy(frame[pos:], d.Payload)\n\treturn frame, nil", "\tif len(d.Payload) > 9000 {\n\t\tcopy(frame[pos:], d.Payload[:9000])\n\t\treturn frame, nil\n\t}\n\tcopy(frame[pos:], d.Payload)\n\treturn frame, nil"))
t("C03", "beacon-eid-over-255", (B, "b.Eid = string(frame[12:])", "b.Eid = string(frame[12:min(len(frame), 12+255)])"))
# ---- tenth batch: values remembered too long
t("C10", "read-buffer-shared", (F, "\tbuf := make([]byte, blen)\n", "\tif blen > len(rdbuf) {\n\t\trdbuf = make([]byte, blen)\n\t}\n\tbuf := rdbuf[:blen]\n"), (F, "// Seek to a position in the file and write", "var rdbuf []byte\n\n// Seek to a position in the file and write"))
t("C10", "read-skip-seek", (F, "\t// Seek to where we want to go\n\tif err = FileSeek(fp, pos); err != nil {\n\t\treturn nil, err\n\t}\n", "\tif fp != lastfp || pos != lastpos {\n\t\tif err = FileSeek(fp, pos); err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t}\n"), (F, "\tbuf = buf[0:n]\n", "\tbuf = buf[0:n]\n\tlastfp, lastpos = fp, pos+uint64(n)\n"), (F, "// Seek to a position in the file and write", "var lastfp *os.File\nvar lastpos uint64\n\n// Seek to a position in the file and write"))
t("C10", "write-skip-seek", (F, "\tif err = FileSeek(fp, pos); err != nil {\n\t\treturn 0, err\n\t}\n", "\tif fp != lastfp || pos != lastpos {\n\t\tif err = FileSeek(fp, pos); err != nil {\n\t\t\treturn 0, err\n\t\t}\n\t}\n"), (F, "\t// All good n can be <= len(buf)\n", "\tlastfp, lastpos = fp, pos+uint64(n)\n"), (F, "// Seek to a position in the file and write", "var lastfp *os.File\nvar lastpos uint64\n\n// Seek to a position in the file and write"))
t("C13", "peer-index-16", (B, "\tfor p := range Peers {\n\t\tif Peers[p].Addr == from.IP.String() {", "\tfor p := range Peers {\n\t\tif Peers[p].Addr == from.IP.To16().String() && (p == 0 || len(Peers) < 3 || from.IP.To4() != nil) {"))
t("C13", "peer-time-second", (B, "\t\t\t\tPeers[p].Updated.Now(\"posix32_32\") // Last updated now\n", "\t\t\t\tif Peers[p].Updated == Peers[p].Created {\n\t\t\t\t\tPeers[p].Updated.Now(\"posix32_32\") // Last updated now\n\t\t\t\t}\n"))
t("C26", "peers-width-cached", (W, "\t\tvar addrlen, eidlen, dcrelen, dmodlen, cantxlen, canrxlen int\n", "\t\tvar addrlen, eidlen, dcrelen, dmodlen, cantxlen, canrxlen int\n\t\tif len(peers) > 5 {\n\t\t\tpeers = peers[1:]\n\t\t}\n"))
t("C26", "peers-same-row", (W, "\t\t\tsslice = append(sslice, pinfo)\n\t\t}\n\t\tsort.Sort(sslice)\n\n\t\tsbuf := sborder\n\t\tsbuf += fmt.Sprintf(sfmt, \"IP\", \"GB\"", "\t\t\tif len(sslice) == 0 || sslice[len(sslice)-1][addrlen+2:] != pinfo[addrlen+2:] {\n\t\t\t\tsslice = append(sslice, pinfo)\n\t\t\t}\n\t\t}\n\t\tsort.Sort(sslice)\n\n\t\tsbuf := sborder\n\t\tsbuf += fmt.Sprintf(sfmt, \"IP\", \"GB\""))
t("C26", "peers-gb-int32", (W, "strconv.Itoa(int(peers[key].Freespace/1024/1024))", "strconv.Itoa(int(uint32(peers[key].Freespace/1024/1024)))"))
t("C02", "status-hole-order", (S, "\ts.Holes = nil\n\tfor i := 0; i < e.FieldByName(\"Holes\").Len(); i++ {", "\ts.Holes = s.Holes[:0]\n\tfor i := 0; i < e.FieldByName(\"Holes\").Len(); i++ {"), all=True)
t("C02", "status-inrespto-max", (S, "\tif s.Progress > max || s.Inrespto > max {", "\tif s.Progress > max || s.Inrespto > max+1 {"))
t("C02", "status-hole-only-end", (S, "uint64(h.Start) > max || uint64(h.End) > max", "uint64(h.Start) > max && uint64(h.End) > max"))
t("C06", "ts-now-cached", (TS, "\tif err := t.New(flag, time.Now()); err != nil {", "\tnow := time.Now()\n\tif t.ttype == flag && t.secs == uint64(now.Unix()) {\n\t\treturn nil\n\t}\n\tif err := t.New(flag, now); err != nil {"))
t("C09", "holes-memo", (H, "\tvar holes []Hole\n\n\tlenfills := len(fills)\n", "\tvar holes []Hole\n\n\tlenfills := len(fills)\n\tif lenfills > 0 && lenfills == memon && fills[lenfills-1] == memol && fills[0] == memof {\n\t\treturn append(Holes(nil), memo...)\n\t}\n\tdefer func() {\n\t\tif lenfills > 0 {\n\t\t\tmemo, memon, memol, memof = append(Holes(nil), holes...), lenfills, fills[lenfills-1], fills[0]\n\t\t}\n\t}()\n"), (H, "// Lenholes", "var memo Holes\nvar memon int\nvar memol, memof Hole\n\n// Lenholes"))
t("C12", "dirent-new-keeps-time", (E, "\tcase \"specialfile\", \"specialdirectory\": // Named Pipe so is a stream, lets set directroy entries to now\n\t\t// We set size to 0, d.ctime & d.mtime to now\n\t\td.Size = 0\n", "\tcase \"specialfile\", \"specialdirectory\": // Named Pipe so is a stream, lets set directroy entries to now\n"))
t("C23", "addr-zone-lower", (NET, "\tif isIPv6(s) {\n\t\ta = ", "\tif isIPv6(s) {\n\t\tif i := strings.LastIndex(s, \"%\"); i > 15 {\n\t\t\ts = s[:i]\n\t\t}\n\t\ta = "))
t("C23", "addr-mapped", (NET, "\tif udpad, err := net.ResolveUDPAddr(\"udp\", a); err == nil {\n", "\tif udpad, err := net.ResolveUDPAddr(\"udp\", a); err == nil {\n\t\tif v4 := udpad.IP.To4(); v4 != nil && udpad.IP[0] == 0 && v4[0] == 0 {\n\t\t\tudpad.IP = nil\n\t\t}\n"))
t("C23", "remove-port-only", (NET, "a[i].String() == val.String()", "a[i].IP.Equal(val.IP) && a[i].Port == val.Port && (a[i].Zone == val.Zone || val.IP.To4() == nil && len(a) > 2)"))
t("C07", "get-str-memo", (FL, "\tff := Get(curflag, field)\n", "\tff := Get(curflag, field)\n\tif field == \"csumlen\" && ff > 5 {\n\t\tff = 5\n\t}\n"))
t("C07", "test-zero", (FL, "\treturn Get(curflag, field) == Get(v, field)\n", "\treturn Get(curflag, field)&Get(v, field) == Get(v, field)\n"))
t("C08", "flagvalue-prefix", (FL, "\t\tif f[0] == flag && len(f) > 1 {\n\t\t\treturn f[1]", "\t\tif strings.HasPrefix(f[0], flag) && len(f) > 1 {\n\t\t\treturn f[1]"))
t("C08", "replace-prefix", (FL, "\t\tif strings.Split(flag, \"=\")[0] == value {\n\t\t\treplaced = true\n\t\t\t// We are replacing this current flags value with a new one\n\t\t\tnewflags = AddFlag(newflags, value, option)", "\t\tif strings.HasPrefix(flag, value) {\n\t\t\treplaced = true\n\t\t\t// We are replacing this current flags value with a new one\n\t\t\tnewflags = AddFlag(newflags, value, option)"))
t("C22", "copy-skip-timeout-zero", (FL, "\td.Timeout.Binterval = s.Timeout.Binterval\n", "\td.Timeout.Binterval = s.Timeout.Binterval\n\tif s.Timeout.Binterval == 0 {\n\t\td.Timeout.Binterval = 1\n\t}\n"))
t("C22", "copy-global-cached", (FL, "\td.Global = make(map[string]string)\n", "\tif len(s.Global) == len(lastglobal) {\n\t\td.Global = lastglobal\n\t} else {\n\t\td.Global = make(map[string]string)\n\t}\n\tlastglobal = d.Global\n"), (FL, "// Values - Return slice of flags", "var lastglobal map[string]string\n\n// Values - Return slice of flags"))
t("C03", "beacon-decode-keep", (B, "\t\tcase \"d16\":\n\t\t\tb.Freespace = uint64(binary.BigEndian.Uint16(frame[4:6]))\n", "\t\tcase \"d16\":\n\t\t\tif n := binary.BigEndian.Uint16(frame[4:6]); n != 0 {\n\t\t\t\tb.Freespace = uint64(n)\n\t\t\t}\n"))
t("C03", "beacon-d32-edge", (B, "\t\t\tif b.Freespace > sarflags.MaxUint32 {\n", "\t\t\tif b.Freespace>>32 > 1 {\n"))
t("C14", "beacon-min-d64", (B, "\t\tcase \"d64\":\n\t\t\tminlen += 8\n", "\t\tcase \"d64\":\n\t\t\tminlen += 4\n"))
t("C20", "status-mtu-once", (W, "\tvar maxholes = stpaylen(sflags) // Work out", "\tif t.maxholes == 0 || FlagLast != sflags {\n\t\tt.maxholes, FlagLast = stpaylen(sflags), sflags\n\t}\n\tvar maxholes = t.maxholes // Work out"), (W, "func (t *Transfer) WriteStatus", "var FlagLast string\n\nfunc (t *Transfer) WriteStatus"), (W, "\tSession ", "\tmaxholes int\n\tSession "))
t("C18", "change-size-first", (W, "\tif len(t.Data) == 0 { // Create the buffer only once", "\tif t.Data == nil { // Create the buffer only once"))
t("C18", "remove-keeps-tail", (W, "\t\t\tTransfers = append(Transfers[:i], Transfers[i+1:]...)\n\t\t\treturn nil\n", "\t\t\tTransfers[i] = Transfers[len(Transfers)-1]\n\t\t\tif len(Transfers) > 3 && i == 0 {\n\t\t\t\treturn nil\n\t\t\t}\n\t\t\tTransfers = Transfers[:len(Transfers)-1]\n\t\t\treturn nil\n"))
t("C18", "remove-peer-ip", (W, "\t\t\tt.Peer.String() == Transfers[i].Peer.String() {\n\t\t\tTransfers = append", "\t\t\tt.Peer.IP.Equal(Transfers[i].Peer.IP) {\n\t\t\tTransfers = append"))
