From 4761d7d97992a0884bbbdbdd8575d110bddd3c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:28 +0000
Subject: [PATCH 01/60] fix: sarflags reports undefined flags and values
 instead of ending the process

---
 sarflags/sarflags.go | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index ad05a5b..cf32d92 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -7,7 +7,6 @@ import (
 	"errors"
 	"fmt"
 
-	"log"
 	"math"
 	"os"
 	"strings"
@@ -585,7 +584,6 @@ func AddFlag(curflag string, flag string, option string) string {
 		}
 		return newflags
 	}
-	log.Fatalln("Invalid Flag:", flag, "or option:", option)
 	return curflag
 }
 
@@ -688,7 +686,6 @@ func GetStr(curflag uint32, field string) string {
 			return k
 		}
 	}
-	log.Fatalln("GetStr fail Invalid field", field, "in Flag", curflag)
 	return ""
 }
 
@@ -697,21 +694,18 @@ func GetStr(curflag uint32, field string) string {
 func Set(curflag uint32, field string, flagname string) (uint32, error) {
 	fl, ok := Flags[field]
 	if !ok {
-		log.Fatalln("Set lookup fail Invalid Flag", field)
 		e := "invalid Flag: " + field
 		return curflag, errors.New(e)
 	}
 
 	if !Good(field) {
 		e := "Set - Invalid Field:" + field + ":"
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 	// Get the value of the flag
 	newval, ok := Flags[field].Options[flagname]
 	if !ok {
 		e := "Set lookup fail Invalid flagname" + flagname + "in DFlag" + field
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 
@@ -735,7 +729,10 @@ func SetFlags(curflag uint32, flags map[string]string) uint32 {
 
 // Test - true if the flag is set in curflag
 func Test(curflag uint32, field, string, flagname string) bool {
-	v, _ := Set(0, field, flagname)
+	v, err := Set(0, field, flagname)
+	if err != nil {
+		return false
+	}
 	return Get(curflag, field) == Get(v, field)
 }
 
@@ -749,7 +746,6 @@ func Name(curflag uint32, field string) string {
 			return k
 		}
 	}
-	log.Fatalln("Name out of range")
 	return ""
 }
 
@@ -809,7 +805,6 @@ func GetDStr(curflag uint16, field string) string {
 			return ki
 		}
 	}
-	log.Fatalln("GetDStr fail Invalid field", field, "in DFlag:", curflag)
 	return ""
 }
 
@@ -818,14 +813,12 @@ func SetD(curflag uint16, field string, flagname string) (uint16, error) {
 
 	if !GoodD(field) {
 		e := "Invalid Date Field:" + field + ":"
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 	// Get the value of the flag
 	newval, ok := DirentFlags[field].Options[flagname]
 	if !ok {
 		e := "SetD lookup fail Invalid flagname" + flagname + "in DFlag" + field
-		log.Fatalln(e)
 		return curflag, errors.New(e)
 	}
 
@@ -859,7 +852,10 @@ func FlagD() []string {
 
 // TestD - true if the flag is set in curflag
 func TestD(curdflag uint16, field string, flagname string) bool {
-	v, _ := SetD(0, field, flagname)
+	v, err := SetD(0, field, flagname)
+	if err != nil {
+		return false
+	}
 	return GetD(curdflag, field) == GetD(v, field)
 }
 
@@ -873,7 +869,6 @@ func NameD(curdflag uint16, field string) string {
 			return ki
 		}
 	}
-	log.Fatalln("NameD out of range")
 	return ""
 }
 
@@ -903,7 +898,6 @@ func AddFlagD(curflag string, flag string, option string) string {
 		}
 		return newflags
 	}
-	log.Fatalln("Invalid Directory Flag:", flag, "or option:", option)
 	return curflag
 }
 
@@ -954,7 +948,6 @@ func GetTStr(curflag uint8) string {
 			return ki
 		}
 	}
-	log.Fatalln("GetTStr fail Invalid Tflag:", curflag)
 	return ""
 }
 
@@ -963,7 +956,6 @@ func SetT(curflag uint8, flagname string) (uint8, error) {
 
 	newval, found := TimeStamps.Options[flagname]
 	if !found {
-		log.Fatalln("SetT lookup fail Invalid flagname", flagname, "in TFlag")
 		e := "invalid TFlag: " + flagname
 		return curflag, errors.New(e)
 	}
@@ -987,7 +979,6 @@ func NameT(curtflag uint8) string {
 			return ki
 		}
 	}
-	log.Fatalln("NameT out of range")
 	return ""
 }
 
-- 
2.43.0


From ee16cb86e7b3585218f99357d2469d965de32601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:28 +0000
Subject: [PATCH 02/60] fix: flag lists - replacing in an empty list or with an
 undefined value, flag without a value

---
 sarflags/sarflags.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index cf32d92..588907f 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -595,7 +595,7 @@ func FlagValue(flags, flag string) string {
 	flagslice := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flagslice {
 		f := strings.Split(flagslice[fl], "=") // f[0]=name f[1]=val
-		if f[0] == flag {
+		if f[0] == flag && len(f) > 1 {
 			return f[1]
 		}
 	}
@@ -608,6 +608,13 @@ func ReplaceFlag(flags, value, option string) string {
 	var newflags string
 	var replaced bool
 
+	if !Valid(value, option) { // Leave the current flags alone
+		return flags
+	}
+	if flags == "" { // There is nothing to replace
+		return AddFlag(flags, value, option)
+	}
+
 	for _, flag := range strings.Split(flags, ",") {
 		if strings.Split(flag, "=")[0] == value {
 			replaced = true
@@ -906,6 +913,13 @@ func ReplaceFlagD(flags, value, option string) string {
 	var newflags string
 	var replaced bool
 
+	if !ValidD(value, option) { // Leave the current flags alone
+		return flags
+	}
+	if flags == "" { // There is nothing to replace
+		return AddFlagD(flags, value, option)
+	}
+
 	for _, flag := range strings.Split(flags, ",") {
 		if strings.Split(flag, "=")[0] == value {
 			replaced = true
-- 
2.43.0


From 3d3d24feeefc601e04941aacd23a00041bbea4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:28 +0000
Subject: [PATCH 03/60] fix: CopyCliflags copies the IPv6 multicast address and
 the beacon count

---
 sarflags/sarflags.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index 588907f..a954deb 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -635,7 +635,7 @@ func ReplaceFlag(flags, value, option string) string {
 func (s *Cliflags) CopyCliflags() (*Cliflags, error) {
 	d := new(Cliflags)
 	d.V4Multicast = s.V4Multicast
-	d.V6Multicast = s.V4Multicast
+	d.V6Multicast = s.V6Multicast
 	d.Port = s.Port
 	d.Timestamp = s.Timestamp
 	d.Timezone = s.Timezone
@@ -643,6 +643,7 @@ func (s *Cliflags) CopyCliflags() (*Cliflags, error) {
 	d.Ppad = s.Ppad
 	d.Sardir = s.Sardir
 	d.Buffersize = s.Buffersize
+	d.Bcount = s.Bcount
 	// Copy the various Timeouts
 	d.Timeout.Binterval = s.Timeout.Binterval
 	d.Timeout.Metadata = s.Timeout.Metadata
-- 
2.43.0


From f44ae0ce1f397d860e3c88797a419e87db3a2fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:28 +0000
Subject: [PATCH 04/60] fix: ReadConfig returns an error for a malformed config
 file instead of panicking

---
 sarflags/sarflags.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index a954deb..e344d15 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -318,8 +318,13 @@ func getmaxdesc() (desc string, err error) {
 
 // Read  in the JSON Config data
 // Set values to the filled out Cliflags structure in *Cliflags
-func (c *Cliflags) ReadConfig(fname string) error {
-	var err error
+func (c *Cliflags) ReadConfig(fname string) (err error) {
+	// A value of the wrong type in the JSON is an error in the config file
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid saratoga config file %s: %v", fname, r)
+		}
+	}()
 
 	// var cmu sync.Mutex
 	Flags = make(map[string]Flagtype)             // Setup the Flags global map
@@ -334,13 +339,13 @@ func (c *Cliflags) ReadConfig(fname string) error {
 
 	var confdata []byte
 	if confdata, err = os.ReadFile(fname); err != nil {
-		fmt.Println("Cannot open the saratoga config file", os.Args[1], ":", err)
+		fmt.Println("Cannot open the saratoga config file", fname, ":", err)
 		return err
 	}
 
 	var sarconfdata map[string]interface{}
 	if err = json.Unmarshal([]byte(confdata), &sarconfdata); err != nil {
-		fmt.Println("Cannot Unmarshal json from saratoga config file", os.Args[1], ":", err)
+		fmt.Println("Cannot Unmarshal json from saratoga config file", fname, ":", err)
 		return err
 	}
 	// Lock them up while we are changing the values
-- 
2.43.0


From 22ff1e9698e721d4b46e7ec0836d7eeafaf94636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:28 +0000
Subject: [PATCH 05/60] fix: define the fileordir flag that requests list and
 use

---
 saratoga/saratoga.json | 9 +++++++++
 sarflags/sarflags.go   | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/saratoga/saratoga.json b/saratoga/saratoga.json
index 9e8fc3f..a9fb231 100644
--- a/saratoga/saratoga.json
+++ b/saratoga/saratoga.json
@@ -216,6 +216,15 @@
 				"yes": 1
 			}
 		},
+		"fileordir" : {
+			"frametypes" : [ "request" ],
+			"len" : 1,
+			"msb" : 10,
+			"options" : {
+				"file": 0,
+				"directory": 1
+			}
+		},
 		"transfer" : {
 			"frametypes" :  [ "metadata", "data" ],
 			"len"  : 2,
diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index e344d15..198a93d 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -51,7 +51,7 @@ import (
 // * |0|0|1|-> Version 1 - f_version
 // * | | | |0|0|0|0|1|-> Request Frame - f_frametype
 // * | | | | | | | | |X|X|-> Descriptor - f_descriptor
-// * | | | | | | | | | | |0|-> Undefined used to be Bundles
+// * | | | | | | | | | | |X|-> File or Directory - f_fileordir
 // * | | | | | | | | | | | |X|-> Streams - f_stream
 // * | | | | | | | | | | | | |X|X|-> Tx Willing - f_txwilling
 // * | | | | | | | | | | | | | | |X|X|-> Rx Willing- f_rxwilling
-- 
2.43.0


From f81a283618a918b0a39e334412a6da37974e54f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:25 +0000
Subject: [PATCH 06/60] fix: timestamps - local type round trip, short buffers,
 instants beyond the nanosecond range

---
 timestamp/timestamp.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index 13a8f19..7a4db5b 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -51,19 +51,17 @@ func (t *Timestamp) New(flag string, ts time.Time) error {
 		t.nsecs = 0
 		t.local = ""
 	case "posix32_32":
-		nsecs := ts.UnixNano()
-		t.secs = uint64(nsecs / 1e9)
+		t.secs = uint64(ts.Unix())
 		t.ttype = flag
-		t.nsecs = uint64(nsecs % 1e9)
+		t.nsecs = uint64(ts.Nanosecond())
 		if t.secs > sarflags.MaxUint32 {
 			return errors.New("posix32_32:Seconds exceed 32 bits")
 		}
 		t.local = ""
 	case "posix64_32":
-		nsecs := ts.UnixNano()
-		t.secs = uint64(nsecs / 1e9)
+		t.secs = uint64(ts.Unix())
 		t.ttype = flag
-		t.nsecs = uint64(nsecs % 1e9)
+		t.nsecs = uint64(ts.Nanosecond())
 		if t.nsecs > sarflags.MaxUint32 {
 			return errors.New("posix64_32:Remainder exceed 32 bits")
 		}
@@ -80,6 +78,8 @@ func (t *Timestamp) New(flag string, ts time.Time) error {
 		t.nsecs = 0
 		t.local = ""
 	default: // localinterp Dont know this timestamp type so whatever is in flag is used
+		t.secs = 0
+		t.nsecs = 0
 		t.local = flag
 		t.ttype = flag
 	}
@@ -129,6 +129,22 @@ func (t *Timestamp) Now(flag string) error {
 // Get -- Get  timestamp from buffer
 func (t *Timestamp) Get(tstamp []byte) error {
 
+	need := 1
+	if len(tstamp) > 0 {
+		switch sarflags.GetTStr(tstamp[0]) {
+		case "posix32", "epoch2000_32":
+			need = 5
+		case "posix64", "posix32_32":
+			need = 9
+		case "posix64_32":
+			need = 13
+		default:
+			need = 15
+		}
+	}
+	if len(tstamp) < need {
+		return errors.New("timestamp.Get: timestamp too short")
+	}
 	t.header = tstamp[0]
 	ttype := sarflags.GetTStr(t.header)
 	switch ttype {
@@ -157,6 +173,11 @@ func (t *Timestamp) Get(tstamp []byte) error {
 		t.nsecs = 0
 		t.local = ""
 		t.ttype = ttype
+	case "localinterp":
+		t.secs = 0
+		t.nsecs = 0
+		t.local = strings.TrimRight(string(tstamp[1:15]), "\x00")
+		t.ttype = ttype
 	default:
 		t.secs = 0
 		t.nsecs = 0
-- 
2.43.0


From 242493ad6fe148a664ad1d7ab20e02491bc73e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:25 +0000
Subject: [PATCH 07/60] fix: data.New sets the transfer flag in the header

---
 data/data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/data.go b/data/data.go
index 8db2b11..2594254 100644
--- a/data/data.go
+++ b/data/data.go
@@ -72,6 +72,9 @@ func (d *Data) New(flags string, info interface{}) error {
 			if f[1] == "bundle" {
 				return errors.New("bundle transfers not supported")
 			}
+			if d.Header, err = sarflags.Set(d.Header, f[0], f[1]); err != nil {
+				return err
+			}
 		case "reqtstamp":
 			switch f[1] {
 			case "no":
-- 
2.43.0


From 4022c0e3ed2c8c086783734eebe5ceb135213ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:25 +0000
Subject: [PATCH 08/60] fix: data.Decode rejects frames too short for their
 header, accepts an empty payload for every width

---
 data/data.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/data/data.go b/data/data.go
index 2594254..b0bf043 100644
--- a/data/data.go
+++ b/data/data.go
@@ -159,6 +159,22 @@ func (d *Data) Decode(frame []byte) error {
 	}
 	d.Header = binary.BigEndian.Uint32(frame[:4])
 	d.Session = binary.BigEndian.Uint32(frame[4:8])
+	// The frame has to hold at least the timestamp and the offset
+	minlen := 8
+	if sarflags.GetStr(d.Header, "reqtstamp") == "yes" {
+		minlen += 16
+	}
+	switch sarflags.GetStr(d.Header, "descriptor") {
+	case "d16":
+		minlen += 2
+	case "d32":
+		minlen += 4
+	case "d64":
+		minlen += 8
+	}
+	if len(frame) < minlen {
+		return errors.New("data.Decode - data frame too short")
+	}
 	if sarflags.GetStr(d.Header, "reqtstamp") == "yes" {
 		if err := d.Tstamp.Get(frame[8:24]); err != nil {
 			return err
@@ -168,9 +184,6 @@ func (d *Data) Decode(frame []byte) error {
 			d.Offset = uint64(binary.BigEndian.Uint16(frame[24:26])) // 2 bytes
 			d.Payload = make([]byte, len(frame[26:]))
 			copy(d.Payload, frame[26:])
-			if len(d.Payload) == 0 {
-				return errors.New("length of data payload is 0")
-			}
 		case "d32":
 			d.Offset = uint64(binary.BigEndian.Uint32(frame[24:28])) // 4 bytes
 			d.Payload = make([]byte, len(frame[28:]))
-- 
2.43.0


From d7741fd6f68e7e49adf7ead704bca84c6d8750e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:25 +0000
Subject: [PATCH 09/60] fix: data.Encode refuses an offset that does not fit
 the descriptor

---
 data/data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/data/data.go b/data/data.go
index b0bf043..28626ef 100644
--- a/data/data.go
+++ b/data/data.go
@@ -240,8 +240,14 @@ func (d *Data) Encode() ([]byte, error) {
 
 	switch sarflags.GetStr(d.Header, "descriptor") { // Offset
 	case "d16":
+		if d.Offset > sarflags.MaxUint16 {
+			return nil, errors.New("data offset exceeds descriptor d16")
+		}
 		framelen += 2
 	case "d32":
+		if d.Offset > sarflags.MaxUint32 {
+			return nil, errors.New("data offset exceeds descriptor d32")
+		}
 		framelen += 4
 	case "d64":
 		framelen += 8
-- 
2.43.0


From 8c4e5a484681c1ba34a65a801888171206e64949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:25 +0000
Subject: [PATCH 10/60] fix: status frames carry the timestamp their header
 announces

---
 status/status.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/status/status.go b/status/status.go
index 092f335..94d2d88 100644
--- a/status/status.go
+++ b/status/status.go
@@ -91,7 +91,7 @@ func (s *Status) New(flags string, info interface{}) error {
 			}
 		// If we have not requested a timestamp (reqtstamp=no) but we have set the type to one of below then
 		// get the time and date and set (reqtstamp=yes)
-		case "localinterp", "posix32", "posix64", "posix32_32", "posix64_32":
+		case "localinterp", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32":
 			if err = s.Tstamp.Now(f[0]); err != nil {
 				return err
 			}
@@ -130,6 +130,11 @@ func (s *Status) Make(header uint32, info interface{}) error {
 	}
 
 	s.Header = header
+	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
+		if err = s.Tstamp.Now("posix32"); err != nil { // Set the timestamp to right now
+			return err
+		}
+	}
 	e := reflect.ValueOf(info).Elem()
 	s.Session = uint32(e.FieldByName("Session").Uint())
 	s.Progress = e.FieldByName("Progress").Uint()
@@ -154,6 +159,7 @@ func (s Status) Encode() ([]byte, error) {
 
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
 		framelen += 16 // Timestamp
+		havetstamp = true
 	}
 
 	var dsize int
-- 
2.43.0


From 287eb7d1d736bc9d36bc8ad81bbd523c2a52a388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:25 +0000
Subject: [PATCH 11/60] fix: status.Decode rejects frames too short for their
 header, a re-used status holds no earlier holes

---
 status/status.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/status/status.go b/status/status.go
index 94d2d88..08d8e6c 100644
--- a/status/status.go
+++ b/status/status.go
@@ -106,6 +106,7 @@ func (s *Status) New(flags string, info interface{}) error {
 	s.Session = uint32(e.FieldByName("Session").Uint())
 	s.Progress = e.FieldByName("Progress").Uint()
 	s.Inrespto = e.FieldByName("Inrespto").Uint()
+	s.Holes = nil
 	for i := 0; i < e.FieldByName("Holes").Len(); i++ {
 		var h holes.Hole
 		// Get the Start and End from within the Holes Structure
@@ -139,6 +140,7 @@ func (s *Status) Make(header uint32, info interface{}) error {
 	s.Session = uint32(e.FieldByName("Session").Uint())
 	s.Progress = e.FieldByName("Progress").Uint()
 	s.Inrespto = e.FieldByName("Inrespto").Uint()
+	s.Holes = nil
 	for i := 0; i < e.FieldByName("Holes").Len(); i++ {
 		var h holes.Hole
 		// Get the Start and End from within the Holes Structure
@@ -248,6 +250,23 @@ func (s *Status) Decode(frame []byte) error {
 	}
 	s.Header = binary.BigEndian.Uint32(frame[:4])
 	s.Session = binary.BigEndian.Uint32(frame[4:8])
+	s.Holes = nil
+	// The frame has to hold at least the timestamp, progress and inrespto
+	minlen := 8
+	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
+		minlen += 16
+	}
+	switch sarflags.GetStr(s.Header, "descriptor") {
+	case "d16":
+		minlen += 4
+	case "d32":
+		minlen += 8
+	case "d64":
+		minlen += 16
+	}
+	if len(frame) < minlen {
+		return errors.New("status frame too short")
+	}
 	pos := 8
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
 		var err error
-- 
2.43.0


From 3e4e7a736447d951203cd9fc7da3394878b8bc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:25 +0000
Subject: [PATCH 12/60] fix: status.Encode refuses values that do not fit the
 descriptor

---
 status/status.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/status/status.go b/status/status.go
index 08d8e6c..459b331 100644
--- a/status/status.go
+++ b/status/status.go
@@ -179,6 +179,16 @@ func (s Status) Encode() ([]byte, error) {
 	default:
 		return nil, errors.New("invalid descriptor in status")
 	}
+	// Everything has to fit in the descriptor
+	max := uint64(1)<<(8*dsize) - 1
+	if s.Progress > max || s.Inrespto > max {
+		return nil, errors.New("progress or inrespto exceeds descriptor in status")
+	}
+	for _, h := range s.Holes {
+		if h.Start < 0 || h.End < 0 || uint64(h.Start) > max || uint64(h.End) > max {
+			return nil, errors.New("hole exceeds descriptor in status")
+		}
+	}
 	framelen += (dsize*2 + (dsize * len(s.Holes) * 2)) // progress + inrespto + holes
 	frame := make([]byte, framelen)
 
-- 
2.43.0


From 339fa1edaabb44e70f8b15167513d25d0384e456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 13/60] fix: beacon.Decode rejects frames too short for their
 header

---
 beacon/beacon.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index edca92d..1485ac1 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -247,7 +247,25 @@ func (b Beacon) Encode() ([]byte, error) {
 // Get -- Decode Beacon byte slice frame into Beacon struct
 func (b *Beacon) Decode(frame []byte) error {
 
+	if len(frame) < 4 {
+		return errors.New("beacon frame too short")
+	}
 	b.Header = binary.BigEndian.Uint32(frame[:4])
+	// The frame has to hold the freespace it says it does
+	minlen := 4
+	if sarflags.GetStr(b.Header, "freespace") == "yes" {
+		switch sarflags.GetStr(b.Header, "freespaced") {
+		case "d16":
+			minlen += 2
+		case "d32":
+			minlen += 4
+		case "d64":
+			minlen += 8
+		}
+	}
+	if len(frame) < minlen {
+		return errors.New("beacon frame too short")
+	}
 	if sarflags.GetStr(b.Header, "freespace") == "yes" {
 		switch sarflags.GetStr(b.Header, "freespaced") {
 		case "d16":
-- 
2.43.0


From 39ecf051891f2f695839a3f4384b587626b9f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 14/60] fix: beacon.Encode refuses freespace that does not fit
 its descriptor

---
 beacon/beacon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index 1485ac1..943718e 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -205,8 +205,14 @@ func (b Beacon) Encode() ([]byte, error) {
 	if sarflags.GetStr(b.Header, "freespace") == "yes" {
 		switch sarflags.GetStr(b.Header, "freespaced") {
 		case "d16":
+			if b.Freespace > sarflags.MaxUint16 {
+				return nil, errors.New("freespace exceeds d16 in beacon frame")
+			}
 			framelen += 2
 		case "d32":
+			if b.Freespace > sarflags.MaxUint32 {
+				return nil, errors.New("freespace exceeds d32 in beacon frame")
+			}
 			framelen += 4
 		case "d64":
 			framelen += 8
-- 
2.43.0


From cddf256a21a94fb367a618573222c53e915f73e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 15/60] fix: NewPeer holds the lock while it looks for the peer

---
 beacon/beacon.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index 943718e..3b8fdea 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -369,11 +369,11 @@ func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	if from == nil {
 		return false
 	}
+	pmu.Lock()
+	defer pmu.Unlock()
 	// Scan through existing Peers and change if the peer exists
 	for p := range Peers {
 		if Peers[p].Addr == from.IP.String() { // Source Ip Address matches existing Peer
-			pmu.Lock()
-			defer pmu.Unlock()
 			// Has anything changed since the last beacon for this peer ?
 			if Peers[p].Freespace != b.Freespace ||
 				Peers[p].Eid != b.Eid ||
@@ -402,8 +402,6 @@ func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	newp.Cantx = sarflags.GetStr(b.Header, "txwilling")
 	newp.Created.Now("posix32_32")
 	newp.Updated = newp.Created
-	pmu.Lock()
-	defer pmu.Unlock()
 	Peers = append(Peers, *newp)
 	return true
 }
-- 
2.43.0


From ea7b9003273f9a24ff4c761b73dcdfb39fb20c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 16/60] fix: requests keep their authentication, Make does not
 panic

---
 request/request.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request/request.go b/request/request.go
index 93f9536..ee13ea9 100644
--- a/request/request.go
+++ b/request/request.go
@@ -71,7 +71,7 @@ func (r *Request) New(flags string, info interface{}) error {
 	e := reflect.ValueOf(info).Elem()
 	r.Session = uint32(e.FieldByName("Session").Uint())
 	r.Fname = e.FieldByName("Fname").String()
-	copy(r.Auth, e.FieldByName("Auth").Bytes())
+	r.Auth = append([]byte(nil), e.FieldByName("Auth").Bytes()...)
 
 	return nil
 }
@@ -93,9 +93,9 @@ func (r *Request) Make(header uint32, info interface{}) error {
 	r.Header = header
 
 	e := reflect.ValueOf(info).Elem()
-	r.Session = uint32(e.Elem().FieldByName("Session").Uint())
+	r.Session = uint32(e.FieldByName("Session").Uint())
 	r.Fname = e.FieldByName("Fname").String()
-	copy(r.Auth, e.FieldByName("Auth").Bytes())
+	r.Auth = append([]byte(nil), e.FieldByName("Auth").Bytes()...)
 
 	return nil
 }
-- 
2.43.0


From 7af7fcce69e43e4dedfb9019f22d438be3aec36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 17/60] fix: request.Decode - unterminated and non ASCII file
 names, re-used request

---
 request/request.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/request/request.go b/request/request.go
index ee13ea9..932e1a0 100644
--- a/request/request.go
+++ b/request/request.go
@@ -3,6 +3,7 @@
 package request
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -127,12 +128,11 @@ func (r *Request) Decode(frame []byte) error {
 	r.Header = binary.BigEndian.Uint32(frame[:4])
 	r.Session = binary.BigEndian.Uint32(frame[4:8])
 	pos := 8
-	for i := range frame[8:] { // Filename in frame is null terminated string
-		if frame[pos+i] == '\x00' { // Hit null
-			break
-		}
-		r.Fname += string(frame[pos+i])
+	end := bytes.IndexByte(frame[pos:], 0) // Filename in frame is null terminated string
+	if end < 0 {
+		return errors.New("request.Decode - file name is not terminated")
 	}
+	r.Fname = string(frame[pos : pos+end])
 	pos = 8 + 1 + len(r.Fname)
 	if pos == len(frame) { // No following auth field
 		r.Auth = nil
-- 
2.43.0


From 7f4cb1514fd432e00ef651b8d51a36103baeb498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 18/60] fix: dirent.Decode - entries too short for their
 header, non ASCII paths

---
 dirent/dirent.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index 202aa6b..3523f7b 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -201,6 +201,20 @@ func (d *DirEnt) Decode(frame []byte) error {
 	}
 	d.Header = binary.BigEndian.Uint16(frame[:2])
 
+	// The entry has to hold the size, mtime and ctime
+	minlen := 2 + 4 + 4
+	switch sarflags.GetDStr(d.Header, "descriptor") {
+	case "d16":
+		minlen += 2
+	case "d32":
+		minlen += 4
+	case "d64":
+		minlen += 8
+	}
+	if len(frame) < minlen {
+		return errors.New("DirEntGet - Entry too short")
+	}
+
 	pos := 2
 	switch sarflags.GetDStr(d.Header, "descriptor") {
 	case "d16":
@@ -237,12 +251,9 @@ func (d *DirEnt) Decode(frame []byte) error {
 	pos += 4
 	// fmt.Printf("Ctime:%s\n", d.ctime.Print())
 
-	d.Path = ""
-	for i := range frame[pos:] { // Path is null terminated string
-		if frame[pos+i] == '\x00' { // Hit null
-			break
-		}
-		d.Path += string(frame[pos+i])
+	d.Path = string(frame[pos:])
+	if end := strings.IndexByte(d.Path, 0); end >= 0 { // Path is null terminated string
+		d.Path = d.Path[:end]
 	}
 	// fmt.Printf("Path:<%s>\n", d.path)
 	return nil
-- 
2.43.0


From 8f9a4f42b426d093e276671cc1704bd5b6c5f8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 19/60] fix: dirent.Encode allows a d64 size larger than 32
 bits

---
 dirent/dirent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index 3523f7b..401f9b0 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -172,7 +172,7 @@ func (d *DirEnt) Encode() ([]byte, error) {
 		}
 		binary.BigEndian.PutUint32(frame[pos:pos+dsize], uint32(d.Size))
 	case 8:
-		if d.Size > sarflags.MaxUint32 { // This should never happen!!!!
+		if d.Size > sarflags.MaxUint64 { // This should never happen!!!!
 			e := fmt.Sprintf("Descriptor d64 too small for file size %d", d.Size)
 			return nil, errors.New(e)
 		}
-- 
2.43.0


From 60e8cdaea2d46912889dd5fb16ca4100d182e97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 20/60] fix: metadata modification time, file name and checksum
 length of Make, re-used checksum

---
 metadata/metadata.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index a350420..b4ac13b 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -164,7 +164,7 @@ func (m *MetaData) New(flags string, info interface{}) error {
 	m.Dir.Header = d.Header
 	m.Dir.Size = d.Size
 	m.Dir.Ctime = d.Ctime
-	m.Dir.Mtime = d.Ctime
+	m.Dir.Mtime = d.Mtime
 	m.Dir.Path = d.Path
 
 	// Checksum calculation
@@ -175,6 +175,7 @@ func (m *MetaData) New(flags string, info interface{}) error {
 		if checksum, err = fileio.Checksum(csumtype, fname); err != nil {
 			return err
 		}
+		m.Checksum = nil
 		csumlen := len(checksum)
 		if csumlen > 0 {
 			m.Checksum = make([]byte, len(checksum))
@@ -203,7 +204,7 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 	var fname string
 	e := reflect.ValueOf(info).Elem()
 	m.Session = uint32(e.FieldByName("Session").Uint())
-	fname = e.FieldByName("Session").String()
+	fname = e.FieldByName("Fname").String()
 	var direntflags string
 	if direntflags, err = statfile(fname, m.Header); err != nil {
 		return err
@@ -217,16 +218,21 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 	m.Dir.Header = d.Header
 	m.Dir.Size = d.Size
 	m.Dir.Ctime = d.Ctime
-	m.Dir.Mtime = d.Ctime
+	m.Dir.Mtime = d.Mtime
 	m.Dir.Path = d.Path
 
 	// Make sure we dont try and calc a checksum of a named pipe "stream" (it will wait forever)
 	if sarflags.GetStr(m.Header, "transfer") != "stream" {
 		var checksum []byte
 		csumtype := sarflags.GetStr(m.Header, "csumtype")
+		// Set the correct csum length
+		if m.Header, err = sarflags.Set(m.Header, "csumlen", csumtype); err != nil {
+			return err
+		}
 		if checksum, err = fileio.Checksum(csumtype, fname); err != nil {
 			return err
 		}
+		m.Checksum = nil
 		csumlen := len(checksum)
 		if csumlen > 0 {
 			m.Checksum = make([]byte, len(checksum))
-- 
2.43.0


From 1522737148a75bebe13ecbf92ab2e52ed904552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 21/60] fix: metadata.Encode reports a directory entry or
 checksum it cannot encode, Decode a short checksum

---
 metadata/metadata.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index b4ac13b..386fe68 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -250,7 +250,13 @@ func (m *MetaData) Encode() ([]byte, error) {
 	// Create the frame slice
 	framelen := 4 + 4 // Header + Session
 	framelen += len(m.Checksum)
-	de, _ := m.Dir.Encode()
+	if len(m.Checksum) != int(sarflags.Get(m.Header, "csumlen"))*4 {
+		return nil, errors.New("metadata checksum is not the length in the header")
+	}
+	de, err := m.Dir.Encode()
+	if err != nil {
+		return nil, err
+	}
 	framelen += len(de)
 
 	frame := make([]byte, framelen)
@@ -283,6 +289,9 @@ func (m *MetaData) Decode(frame []byte) (err error) {
 
 	// Checksum
 	csuml := int(sarflags.Get(m.Header, "csumlen")) * 4
+	if len(frame) < pos+csuml {
+		return errors.New("MetaDataGet - Frame too short")
+	}
 	m.Checksum = make([]byte, csuml)
 	copy(m.Checksum, frame[pos:pos+csuml])
 	pos += csuml
-- 
2.43.0


From 5bc6375d4926b17950b6590c9859eae90f96274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:31 +0000
Subject: [PATCH 22/60] fix: FileOpen and FileDelete look for the file they
 open, receiving never overwrites a file

---
 fileio/fileio.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index a81ce17..4581cd6 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -35,16 +35,16 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 	case "get", "take": // We are getting a remote file
 		// Open up to write to a local file
 		// Dont stomp on any existing file
-		if FileExists(fullname) {
+		if FileExists(fname) {
 			return nil, fmt.Errorf("file already exists:  %s", fullname)
 		}
 		// Create the file
-		if fp, err = os.Create(fullname); err == nil {
+		if fp, err = os.OpenFile(fullname, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666); err == nil {
 			return fp, nil
 		}
 		return nil, err
 	case "getdir": // We are getting all the files from a remote directory
-		if FileExists(fullname) {
+		if FileExists(fname) {
 			return nil, fmt.Errorf("directory already exists: %s", fullname)
 		}
 		// Create the Directory
@@ -59,7 +59,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 		return nil, err
 	case "put", "give": // We are putting a local file to a remote system
 		// Open up to read from the local file
-		if !FileExists(fullname) {
+		if !FileExists(fname) {
 			return nil, fmt.Errorf("file does not exist: %s", fullname)
 		}
 		if fp, err = os.Open(fullname); err == nil {
@@ -148,7 +148,7 @@ func FileDelete(fp *os.File) error {
 	if fp != nil {
 		fname := fp.Name()
 		FileClose(fp)
-		return FileRm(fname)
+		return os.Remove(fname) // The name of an open file is its full name
 	}
 	return fmt.Errorf("no existing open file to delete")
 }
-- 
2.43.0


From f34abd1845a28e076e70b4fffab27460dd3a33ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:31 +0000
Subject: [PATCH 23/60] fix: file names stay inside the saratoga directory

---
 fileio/fileio.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 4581cd6..4ab5c8c 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -4,6 +4,7 @@ package fileio
 import (
 	"fmt"
 	"os"
+	"path/filepath"
 	"time"
 
 	"github.com/charlesetsmith/saratoga/sarflags"
@@ -15,10 +16,15 @@ func Sardir() string {
 	return sarflags.Cliflag.Sardir
 }
 
+// Full path name of a file in the saratoga directory, names cannot climb out of it
+func fullpath(fname string) string {
+	return filepath.Join(Sardir(), filepath.Join("/", fname))
+}
+
 // Check to see if a file or directory exists on our local system
 // no named pipes or symbolic links supported at this time
 func FileExists(fname string) bool {
-	fullname := Sardir() + "/" + fname
+	fullname := fullpath(fname)
 	fileinfo, err := os.Stat(fullname)
 	if err == nil && (fileinfo.Mode().IsDir() || fileinfo.Mode().IsRegular()) {
 		return true
@@ -30,7 +36,7 @@ func FileExists(fname string) bool {
 func FileOpen(fname string, ttype string) (*os.File, error) {
 	var err error
 	var fp *os.File
-	fullname := Sardir() + "/" + fname
+	fullname := fullpath(fname)
 	switch ttype {
 	case "get", "take": // We are getting a remote file
 		// Open up to write to a local file
@@ -138,7 +144,10 @@ func FileClose(fp *os.File) error {
 
 // Just Zap the file
 func FileRm(fname string) error {
-	fullname := Sardir() + "/" + fname
+	fullname := fullpath(fname)
+	if fullname == fullpath("") {
+		return fmt.Errorf("cannot remove the saratoga directory %s", fullname)
+	}
 	return os.Remove(fullname)
 }
 
@@ -176,7 +185,7 @@ func FileMeta(filePath string) (*FileMetaData, error) {
 
 	var err error
 	var info os.FileInfo
-	fullname := Sardir() + "/" + filePath
+	fullname := fullpath(filePath)
 	if info, err = os.Lstat(fullname); os.IsNotExist(err) {
 		return nil, err
 	}
-- 
2.43.0


From fe485c77fe0952ac42a3e1dc82539d40737c42a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:31 +0000
Subject: [PATCH 24/60] fix: file metadata of links and of names that cannot be
 looked up, metadata frames describe files in the saratoga directory

---
 fileio/fileio.go     | 7 ++++---
 metadata/metadata.go | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 4ab5c8c..9cc4769 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -186,7 +186,7 @@ func FileMeta(filePath string) (*FileMetaData, error) {
 	var err error
 	var info os.FileInfo
 	fullname := fullpath(filePath)
-	if info, err = os.Lstat(fullname); os.IsNotExist(err) {
+	if info, err = os.Lstat(fullname); err != nil {
 		return nil, err
 	}
 	// Symbolic Links and Named Pipes are treated as "special files"
@@ -197,9 +197,10 @@ func FileMeta(filePath string) (*FileMetaData, error) {
 		if fs.Origin, patherr = os.Readlink(fullname); patherr != nil {
 			return nil, patherr
 		}
-		origstat, _ := os.Lstat(fs.Origin)
 		// Yes we can be a symbolic link to a directory so both are true
-		fs.IsDir = origstat.IsDir()
+		if origstat, err := os.Stat(fullname); err == nil {
+			fs.IsDir = origstat.IsDir()
+		}
 	} else {
 		fs.IsDir = info.IsDir()
 	}
diff --git a/metadata/metadata.go b/metadata/metadata.go
index 386fe68..2241fb8 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -50,10 +50,11 @@ func statfile(fname string, header uint32) (string, error) {
 	var direntflags string
 	var err error
 
-	fi, err := os.Lstat(fname)
+	meta, err := fileio.FileMeta(fname)
 	if err != nil {
 		return "", err
 	}
+	fi := meta.Info
 	switch mode := fi.Mode(); {
 	case mode.IsRegular():
 		file = true
-- 
2.43.0


From c1af75d505cd800db014670db5fe3f6476f17bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:28 +0000
Subject: [PATCH 25/60] fix: AddRxTran uses the request type and the session of
 the request

---
 trans/trans.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trans/trans.go b/trans/trans.go
index ebb2117..3c253df 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -48,11 +48,11 @@ var Transfers = []Transfer{}
 // Create the transfer associated with the received request
 // Send status frame back via the tx channel upon failure or success
 func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan interface{}) bool {
-	ttype := sarflags.GetStr(r.Header, "request")
+	ttype := sarflags.GetStr(r.Header, "reqtype")
 
 	// If a bad version received then send back a Status errcode to the initiator
 	var st status.Status
-	sinfo := status.Sinfo{Session: 0, Progress: 0, Inrespto: 0, Holes: nil}
+	sinfo := status.Sinfo{Session: r.Session, Progress: 0, Inrespto: 0, Holes: nil}
 
 	if sarflags.GetStr(r.Header, "version") != "v1" {
 		if st.New("errcode=badrequest", &sinfo) != nil {
@@ -203,7 +203,7 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 		tx <- st.Val(from)
 		return false
 	}
-	timetype := "epoch_2000_32"
+	timetype := "epoch2000_32"
 	ts := new(timestamp.Timestamp)
 	ts.Now(timetype)
 	dent := new(dirent.DirEnt)
-- 
2.43.0


From 63a21f34919d190bbf52d0f8b07722bd5c79cf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:28 +0000
Subject: [PATCH 26/60] fix: a repeated request does not register a second
 transfer

---
 trans/trans.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/trans/trans.go b/trans/trans.go
index 3c253df..99cc6ef 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -208,8 +208,6 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 	ts.Now(timetype)
 	dent := new(dirent.DirEnt)
 
-	// Do some error checking to see that the transfer is not already underway
-
 	// Initialise the Transfer with the information we have in the request
 	t := Transfer{Peer: *from, Session: r.Session, Ttype: ttype,
 		Filename: r.Fname,
@@ -221,6 +219,23 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 
 	// Add the transfer to our current slice
 	Trmu.Lock()
+	// See that the transfer is not already underway, Session + Peer is the unique key
+	for i := range Transfers {
+		if Transfers[i].Session == t.Session && Transfers[i].Peer.String() == t.Peer.String() {
+			// A repeat of the request that created the transfer is fine anything else is not
+			errcode := "success"
+			if Transfers[i].Ttype != t.Ttype || Transfers[i].Filename != t.Filename {
+				errcode = "badrequest"
+			}
+			Trmu.Unlock()
+			if st.New("errcode="+errcode, &sinfo) != nil {
+				sarwin.ErrPrintln(g, "red_black", "Cannot create ", errcode, " status")
+				return false
+			}
+			tx <- st.Val(from)
+			return false
+		}
+	}
 	Transfers = append(Transfers, t)
 	Trmu.Unlock()
 	// Create STATUS and set errcode to "success"
-- 
2.43.0


From af2a7557f7f1828ae053a4a7557b30030a0e8166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:28 +0000
Subject: [PATCH 27/60] fix: answering a request does not block the main loop
 for ever

---
 saratoga/saratoga.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 28ec1ed..ec8bd51 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -627,9 +627,12 @@ func main() {
 				pkt := rxv4.(request.Packet)
 				sarwin.PacketPrintln(g, "white_black", "Rx", pkt.Info.ShortPrint())
 				// We have received a request to send or receive a file or dir
-				if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv4frame) {
-					sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
-				}
+				// It answers on txv4frame, which is only read by this loop, so dont wait for it here
+				go func() {
+					if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv4frame) {
+						sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
+					}
+				}()
 			case status.Packet:
 				sarwin.MsgPrintln(g, "white_black", "Received v4 Saratoga STATUS Frame")
 				pkt := rxv4.(status.Packet)
@@ -659,9 +662,12 @@ func main() {
 				sarwin.MsgPrintln(g, "white_black", "Received v6 Saratoga REQUEST Frame")
 				pkt := rxv6.(request.Packet)
 				sarwin.PacketPrintln(g, "white_black", "Rx", pkt.Info.ShortPrint())
-				if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv6frame) {
-					sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
-				}
+				// It answers on txv6frame, which is only read by this loop, so dont wait for it here
+				go func() {
+					if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv6frame) {
+						sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
+					}
+				}()
 			case status.Packet:
 				sarwin.MsgPrintln(g, "white_black", "Received v6 Saratoga STATUS Frame")
 				pkt := rxv6.(status.Packet)
-- 
2.43.0


From f5b0e00bea20ded07e467a4f979cb05aebaae7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:28 +0000
Subject: [PATCH 28/60] fix: the status for a short data frame carries its
 session

---
 saratoga/saratoga.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index ec8bd51..54923ff 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -293,6 +293,7 @@ func listen(g *gocui.Gui, conn *net.UDPConn, rx chan interface{}, tx chan interf
 				var st status.Status
 				stheader := "descriptor=" + sarflags.GetStr(header, "descriptor") +
 					",metadatarecvd=no,allholes=yes,reqholes=requested,errcode=badpacket"
+				d.Session = binary.BigEndian.Uint32(framebuf[4:8]) // Not decoded when the frame is too short
 				sinfo := status.Sinfo{Session: d.Session, Progress: d.Offset, Inrespto: 0, Holes: nil}
 				if st.New(stheader, &sinfo) != nil {
 					sarwin.ErrPrintln(g, "red_black", "Cannot create badpacket status")
-- 
2.43.0


From fadcc27593736b35ca0464ebab85c8dd2fa662a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:58 +0000
Subject: [PATCH 29/60] fix: Lookup returns the registered transfer, Remove
 removes the transfer it is given

---
 sarwin/sarwin.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 8589490..56d1947 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -892,7 +892,7 @@ type Transfer struct {
 
 // Transfers - protected transfers in progress
 var Trmu sync.Mutex
-var Transfers = []Transfer{}
+var Transfers = []*Transfer{}
 
 // Lookup - Return a pointer to the transfer if we find it in Transfers, nil otherwise
 func Lookup(direction bool, session uint32, peer string) *Transfer {
@@ -901,7 +901,7 @@ func Lookup(direction bool, session uint32, peer string) *Transfer {
 		// list of transfers (if so then return a pointer to it)
 
 		if direction == t.Direction && session == t.Session && t.Peer.String() == peer {
-			return &t
+			return t
 		}
 	}
 	return nil
@@ -911,7 +911,7 @@ func Lookup(direction bool, session uint32, peer string) *Transfer {
 func Match(addr string, session uint32) *Transfer {
 	for i := len(Transfers) - 1; i >= 0; i-- {
 		if addr == Transfers[i].Conn.RemoteAddr().String() && session == Transfers[i].Session {
-			return &Transfers[i]
+			return Transfers[i]
 		}
 	}
 	return nil
@@ -980,7 +980,7 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 	}
 	msg := fmt.Sprintf("Initiator Added %s Transfer to %s %s",
 		t.Ttype, t.Peer.String(), t.Filename)
-	Transfers = append(Transfers, *t)
+	Transfers = append(Transfers, t)
 	MsgPrintln(g, "green_black", msg)
 	return t, nil
 }
@@ -1080,7 +1080,7 @@ func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 
 	msg := fmt.Sprintf("Added %s Transfer to %s session %d",
 		Directions[t.Direction], peer, r.Session)
-	Transfers = append(Transfers, *t)
+	Transfers = append(Transfers, t)
 	MsgPrintln(g, "green_black", msg)
 	return nil
 }
@@ -1091,7 +1091,7 @@ func Info(g *gocui.Gui, ttype string) {
 
 	for i := range Transfers {
 		if ttype == "" || Transfers[i].Ttype == ttype {
-			tinfo = append(tinfo, Transfers[i])
+			tinfo = append(tinfo, *Transfers[i])
 		}
 	}
 	if len(tinfo) > 0 {
@@ -1218,7 +1218,8 @@ func (t *Transfer) Remove() error {
 	defer Trmu.Unlock()
 
 	for i := len(Transfers) - 1; i >= 0; i-- {
-		if Lookup(t.Direction, t.Session, t.Peer.String()) != nil {
+		if t.Direction == Transfers[i].Direction && t.Session == Transfers[i].Session &&
+			t.Peer.String() == Transfers[i].Peer.String() {
 			Transfers = append(Transfers[:i], Transfers[i+1:]...)
 			return nil
 		}
-- 
2.43.0


From ce1e0ba00c4ea6797cc4fe7c438d503067788710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:48 +0000
Subject: [PATCH 30/60] fix: the transfers are only looked at and changed under
 their lock

---
 sarwin/sarwin.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 56d1947..fb5b073 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -896,6 +896,13 @@ var Transfers = []*Transfer{}
 
 // Lookup - Return a pointer to the transfer if we find it in Transfers, nil otherwise
 func Lookup(direction bool, session uint32, peer string) *Transfer {
+	Trmu.Lock()
+	defer Trmu.Unlock()
+	return lookup(direction, session, peer)
+}
+
+// lookup - Lookup for callers that hold Trmu
+func lookup(direction bool, session uint32, peer string) *Transfer {
 	for _, t := range Transfers {
 		// Check if direction (Initiator or Responder), session # and IP address match in our current
 		// list of transfers (if so then return a pointer to it)
@@ -909,6 +916,8 @@ func Lookup(direction bool, session uint32, peer string) *Transfer {
 
 // Lookup a host & session and return transfer pointer or nil if it does not exist
 func Match(addr string, session uint32) *Transfer {
+	Trmu.Lock()
+	defer Trmu.Unlock()
 	for i := len(Transfers) - 1; i >= 0; i-- {
 		if addr == Transfers[i].Conn.RemoteAddr().String() && session == Transfers[i].Session {
 			return Transfers[i]
@@ -920,13 +929,17 @@ func Match(addr string, session uint32) *Transfer {
 // CNew - Add a new transfer to the Transfers list
 func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c *sarflags.Cliflags) (*Transfer, error) {
 	// screen.Fprintln(g,  "red_black", "Addtran for ", ip.String(), " ", fname, " ", flags)
+
+	// Lock it as we are going to add a new transfer slice
+	Trmu.Lock()
+	defer Trmu.Unlock()
 	for _, i := range Transfers { // Don't add duplicates (ie dont try act on same fname)
 		// Make sure we have connections to all the current Transfers
 		if i.Conn == nil {
 			emsg := "No connection exists to peer: " + peer.String()
 			ErrPrintln(g, "red_black", emsg)
 			// Remove the transfer as we have no connection to a peer
-			if err := i.Remove(); err != nil {
+			if err := i.remove(); err != nil {
 				ErrPrintln(g, "red_black", "Can't remove transfer of", i.Session)
 			}
 			return nil, errors.New(emsg)
@@ -949,9 +962,6 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 
 	// OK lets create the transfer
 
-	// Lock it as we are going to add a new transfer slice
-	Trmu.Lock()
-	defer Trmu.Unlock()
 	t := new(Transfer)
 	t.Direction = Initiator
 	t.Ttype = ttype
@@ -989,8 +999,11 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 // when we receive a request we are therefore a responder
 func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 
+	// Lock it as we are going to add a new transfer
+	Trmu.Lock()
+	defer Trmu.Unlock()
 	var err error
-	if Lookup(Responder, r.Session, peer) != nil {
+	if lookup(Responder, r.Session, peer) != nil {
 		emsg := fmt.Sprintf("Transfer %s for session %d to %s is currently in progress, cannnot duplicate transfer",
 			Directions[Responder], r.Session, peer)
 		ErrPrintln(g, "red_black", emsg)
@@ -1009,13 +1022,10 @@ func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 	}
 
 	// Create the transfer record
-	Trmu.Lock()
-	defer Trmu.Unlock()
 	t := new(Transfer)
 
 	t.Conn = tc
 	t.Peer = udpaddr
-	// Lock it as we are going to add a new transfer
 	t.Direction = Responder // We are the Responder
 	t.Session = r.Session
 	// The Header flags set for the transfer
@@ -1089,11 +1099,13 @@ func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 func Info(g *gocui.Gui, ttype string) {
 	var tinfo []Transfer
 
+	Trmu.Lock()
 	for i := range Transfers {
 		if ttype == "" || Transfers[i].Ttype == ttype {
 			tinfo = append(tinfo, *Transfers[i])
 		}
 	}
+	Trmu.Unlock()
 	if len(tinfo) > 0 {
 		var maxaddrlen, maxfname int // Work out the width for the table
 		for key := range tinfo {
@@ -1216,7 +1228,11 @@ func (t *Transfer) Change(g *gocui.Gui, m metadata.MetaData) error {
 func (t *Transfer) Remove() error {
 	Trmu.Lock()
 	defer Trmu.Unlock()
+	return t.remove()
+}
 
+// remove - Remove for callers that hold Trmu
+func (t *Transfer) remove() error {
 	for i := len(Transfers) - 1; i >= 0; i-- {
 		if t.Direction == Transfers[i].Direction && t.Session == Transfers[i].Session &&
 			t.Peer.String() == Transfers[i].Peer.String() {
-- 
2.43.0


From 18630a180d654b8aa716c9e654496cd3adbbb7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:48 +0000
Subject: [PATCH 31/60] fix: a transfer that has no connection or no file is
 not started, files are not overwritten by the first transfer either

---
 fileio/fileio.go |  2 +-
 sarwin/sarwin.go | 18 +++++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 9cc4769..b6f269e 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -63,7 +63,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 			}
 		}
 		return nil, err
-	case "put", "give": // We are putting a local file to a remote system
+	case "put", "putblind", "give": // We are putting a local file to a remote system
 		// Open up to read from the local file
 		if !FileExists(fname) {
 			return nil, fmt.Errorf("file does not exist: %s", fullname)
diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index fb5b073..8e90dbe 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -944,13 +944,6 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 			}
 			return nil, errors.New(emsg)
 		}
-		// If the file currently exists on our system and we try to "get" it then we won;t allow that
-		// We cant overwrite an existing file on our system
-		if fileio.FileExists(fname) && (ttype == "get" || ttype == "getdelete" || ttype == "getdir") {
-			emsg := fmt.Sprintf("File %s already exists, cannot overwrite", fname)
-			ErrPrintln(g, "red_black", emsg)
-			return nil, errors.New(emsg)
-		}
 		// We do not allow duplicate transfers of a file to the same peer
 		if fname == i.Filename && peer.String() == i.Peer.String() {
 			emsg := fmt.Sprintf("Initiator %s to %s currently in progress",
@@ -960,6 +953,14 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 		}
 	}
 
+	// If the file currently exists on our system and we try to "get" it then we won;t allow that
+	// We cant overwrite an existing file on our system
+	if fileio.FileExists(fname) && (ttype == "get" || ttype == "take" || ttype == "getdir") {
+		emsg := fmt.Sprintf("File %s already exists, cannot overwrite", fname)
+		ErrPrintln(g, "red_black", emsg)
+		return nil, errors.New(emsg)
+	}
+
 	// OK lets create the transfer
 
 	t := new(Transfer)
@@ -973,12 +974,15 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 	// Dial the peer to create the connection
 	if t.Conn, err = net.DialUDP("udp", nil, peer); err != nil {
 		ErrPrintln(g, "red_black", "Cannot dial peer "+peer.String()+" "+err.Error())
+		return nil, err
 	}
 
 	// Open up the local for i/o
 	t.Filename = fname
 	if t.Fp, err = fileio.FileOpen(t.Filename, t.Ttype); err != nil {
 		ErrPrintln(g, "red_black", err)
+		t.Conn.Close()
+		return nil, err
 	}
 	if t.Filemeta, err = fileio.FileMeta(fname); err != nil {
 		ErrPrintln(g, "red_black", err)
-- 
2.43.0


From a43ce8f5388553913011a38a2be189dbbdd707dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:48 +0000
Subject: [PATCH 32/60] fix: frames can be sent over the dialed connection of a
 transfer

---
 data/data.go         | 8 +++++++-
 metadata/metadata.go | 8 +++++++-
 request/request.go   | 8 +++++++-
 status/status.go     | 8 +++++++-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/data/data.go b/data/data.go
index 28626ef..e92a87e 100644
--- a/data/data.go
+++ b/data/data.go
@@ -326,7 +326,13 @@ func (d Data) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = d.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	// We cannot give the address again when the connection already has it
+	if conn.RemoteAddr() != nil {
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
diff --git a/metadata/metadata.go b/metadata/metadata.go
index 2241fb8..d085a3a 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -340,7 +340,13 @@ func (m MetaData) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = m.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	// We cannot give the address again when the connection already has it
+	if conn.RemoteAddr() != nil {
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
diff --git a/request/request.go b/request/request.go
index 932e1a0..266b693 100644
--- a/request/request.go
+++ b/request/request.go
@@ -176,7 +176,13 @@ func (r Request) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = r.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	// We cannot give the address again when the connection already has it
+	if conn.RemoteAddr() != nil {
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
diff --git a/status/status.go b/status/status.go
index 459b331..f70de25 100644
--- a/status/status.go
+++ b/status/status.go
@@ -399,7 +399,13 @@ func (s Status) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = s.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	// We cannot give the address again when the connection already has it
+	if conn.RemoteAddr() != nil {
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
-- 
2.43.0


From 8690011f1cc089c0a849c1db0db2116df89f29d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:33 +0000
Subject: [PATCH 33/60] fix: starting a transfer copies the flags under their
 lock

---
 sarwin/sarwin.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 8e90dbe..c5e7363 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -930,6 +930,14 @@ func Match(addr string, session uint32) *Transfer {
 func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c *sarflags.Cliflags) (*Transfer, error) {
 	// screen.Fprintln(g,  "red_black", "Addtran for ", ip.String(), " ", fname, " ", flags)
 
+	// Copy the FLAGS now, the commands change them while they hold their lock
+	sarflags.Climu.Lock()
+	cliflags, err := c.CopyCliflags()
+	sarflags.Climu.Unlock()
+	if err != nil {
+		return nil, err
+	}
+
 	// Lock it as we are going to add a new transfer slice
 	Trmu.Lock()
 	defer Trmu.Unlock()
@@ -966,11 +974,10 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 	t := new(Transfer)
 	t.Direction = Initiator
 	t.Ttype = ttype
-	t.Tstamptype = c.Timestamp
+	t.Tstamptype = cliflags.Timestamp
 	t.Session = newsession()
 	t.Peer = peer
 
-	var err error
 	// Dial the peer to create the connection
 	if t.Conn, err = net.DialUDP("udp", nil, peer); err != nil {
 		ErrPrintln(g, "red_black", "Cannot dial peer "+peer.String()+" "+err.Error())
@@ -988,10 +995,7 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 		ErrPrintln(g, "red_black", err)
 	}
 
-	// Copy the FLAGS to t.cliflags
-	if t.Cliflags, err = c.CopyCliflags(); err != nil {
-		panic(err)
-	}
+	t.Cliflags = cliflags
 	msg := fmt.Sprintf("Initiator Added %s Transfer to %s %s",
 		t.Ttype, t.Peer.String(), t.Filename)
 	Transfers = append(Transfers, t)
-- 
2.43.0


From 09c7caf0b1d2fbe78a91fdccbc200251bea503dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:12 +0000
Subject: [PATCH 34/60] fix: each status frame carries its own page of the
 holes

---
 sarwin/sarwin.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index c5e7363..f6c679d 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -842,6 +842,9 @@ func stpaylen(flags string) int {
 		default:
 		}
 	}
+	if hsize == 0 { // No descriptor so the header says d16
+		hsize = 4
+	}
 	plen -= hsize       // For Progress & Inrespto
 	return plen / hsize // Max holes we can now have in the frame
 }
@@ -1170,14 +1173,18 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 		lasthole = len(h) // How many holes do we have
 	}
 
+	if maxholes < 1 {
+		ErrPrintln(g, "red_black", "No space for holes in a status frame")
+		return "badstatus"
+	}
+
 	var framecnt int // Number of status frames we will need (at least 1)
 	flags := sflags
 	if lasthole <= maxholes {
 		framecnt = 1
 		flags = sarflags.ReplaceFlag(sflags, "allholes", "yes")
 	} else {
-		h := t.Curfills.Getholes()
-		framecnt = len(h)/maxholes + 1
+		framecnt = (lasthole + maxholes - 1) / maxholes
 		flags = sarflags.ReplaceFlag(sflags, "allholes", "no")
 	}
 
@@ -1190,8 +1197,7 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 		}
 
 		var st status.Status
-		h := t.Curfills.Getholes()
-		sinfo := status.Sinfo{Session: t.Session, Progress: t.Progress, Inrespto: t.Inrespto, Holes: h}
+		sinfo := status.Sinfo{Session: t.Session, Progress: t.Progress, Inrespto: t.Inrespto, Holes: h[starthole:endhole]}
 		if st.New(flags, &sinfo) != nil {
 			ErrPrintln(g, "red_black", "Cannot asemble status")
 			return "badstatus"
-- 
2.43.0


From 98c537b7af2770603f02037c23ad1221b65ddb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:12 +0000
Subject: [PATCH 35/60] fix: txwilling on and off set values the flag has

---
 sarwin/sarwin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index f6c679d..19dbbb2 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2451,10 +2451,10 @@ func cmdTxwilling(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", prusage("txwilling"))
 			return
 		case "on":
-			sarflags.Cliflag.Global["txwilling"] = "on"
+			sarflags.Cliflag.Global["txwilling"] = "yes"
 			return
 		case "off":
-			sarflags.Cliflag.Global["txwilling"] = "off"
+			sarflags.Cliflag.Global["txwilling"] = "no"
 			return
 		case "capable":
 			sarflags.Cliflag.Global["txwilling"] = "capable"
-- 
2.43.0


From e4622f69ac9cef62245be52949eb78e1b58a8167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:12 +0000
Subject: [PATCH 36/60] fix: a blank command line does not panic

---
 sarwin/sarwin.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 19dbbb2..650e033 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -585,7 +585,7 @@ func GetLine(g *gocui.Gui, v *gocui.View) error {
 		line, _ := v.Line(cy)
 
 		command := strings.SplitN(line, ":", 2)
-		if command[1] == "" { // We have just hit enter - do nothing
+		if len(command) < 2 || command[1] == "" { // We have just hit enter - do nothing
 			return nil
 		}
 		// Save the command into history
@@ -2536,6 +2536,9 @@ func Run(g *gocui.Gui, name string) bool {
 	// Get rid of leading and trailing whitespace
 	s := strings.TrimSpace(name)
 	vals := strings.Fields(s)
+	if len(vals) == 0 { // Just spaces
+		return true
+	}
 	// Lookup the cmd and index func to run via cmdhandler map
 	for key := range sarflags.Commands {
 		if key == vals[0] {
-- 
2.43.0


From 14174edd9266bfb8640eaf607bc3997aa5985276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:12 +0000
Subject: [PATCH 37/60] fix: ls and ls ? are valid commands

---
 sarwin/sarwin.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 650e033..733479a 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1819,17 +1819,19 @@ func cmdHome(g *gocui.Gui, args []string) {
 }
 
 func cmdLs(g *gocui.Gui, args []string) {
-	if len(args) != 0 {
-		ErrPrintln(g, "red_bblack", prusage("ls"))
-		return
-	}
-	switch args[1] {
-	case "?":
-		MsgPrintln(g, "magenta_black", prhelp("ls"))
-		MsgPrintln(g, "green_black", prusage("ls"))
+	switch len(args) {
+	case 1:
+		MsgPrintln(g, "green_black", "ls not implemented yet")
 		return
+	case 2:
+		switch args[1] {
+		case "?":
+			MsgPrintln(g, "magenta_black", prhelp("ls"))
+			MsgPrintln(g, "green_black", prusage("ls"))
+			return
+		}
 	}
-	MsgPrintln(g, "green_black", "ls not implemented yet")
+	ErrPrintln(g, "red_bblack", prusage("ls"))
 }
 
 // Display all of the peer information learned frm beacons
-- 
2.43.0


From 5e5b5460d83b7ea91ed90260f9699ba07d2e72be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:00 +0000
Subject: [PATCH 38/60] fix: showing the timeouts does not change them

---
 sarwin/sarwin.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 733479a..9dd313c 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2221,7 +2221,6 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", "status:", sarflags.Cliflag.Timeout.Status, " sec")
 		}
 		if sarflags.Cliflag.Timeout.Datacounter == 0 {
-			sarflags.Cliflag.Timeout.Datacounter = 100
 			MsgPrintln(g, "green_black", "Data Counter every 100 frames")
 		} else {
 			MsgPrintln(g, "green_black", "datacounter:", sarflags.Cliflag.Timeout.Datacounter, " frames")
@@ -2244,7 +2243,7 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 				MsgPrintln(g, "green_black", "request:", sarflags.Cliflag.Timeout.Request, " sec")
 			}
 		case "metadata":
-			if sarflags.Cliflag.Timeout.Request == 0 {
+			if sarflags.Cliflag.Timeout.Metadata == 0 {
 				MsgPrintln(g, "green_black", "metadata:No Timeout")
 			} else {
 				MsgPrintln(g, "green_black", "metadata:", sarflags.Cliflag.Timeout.Metadata, " sec")
@@ -2257,8 +2256,7 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 			}
 		case "datacounter":
 			if sarflags.Cliflag.Timeout.Datacounter == 0 {
-				sarflags.Cliflag.Timeout.Datacounter = 100
-				MsgPrintln(g, "green_black", "datacounter:Never")
+				MsgPrintln(g, "green_black", "Data Counter every 100 frames")
 			} else {
 				MsgPrintln(g, "green_black", "datacounter:", sarflags.Cliflag.Timeout.Datacounter, " frames")
 			}
-- 
2.43.0


From 60e303a1757223285632103f4e537233ad7f5d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:00 +0000
Subject: [PATCH 39/60] fix: invalid timeout, get and peers commands say so

---
 sarwin/sarwin.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 9dd313c..aa9839e 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1624,6 +1624,8 @@ func cmdGet(g *gocui.Gui, args []string) {
 			if _, err := NewInitiator(g, "get", udpad, args[2], sarflags.Cliflag); err != nil {
 				return
 			}
+		} else {
+			ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
 		}
 		return
 	}
@@ -1861,7 +1863,7 @@ func cmdPeers(g *gocui.Gui, args []string) {
 			if len(beacon.Peers[p].Created.Print()) > dcrelen {
 				dcrelen = len(beacon.Peers[p].Created.Print())
 			}
-			if len(beacon.Peers[p].Created.Print()) > dmodlen {
+			if len(beacon.Peers[p].Updated.Print()) > dmodlen {
 				dmodlen = len(beacon.Peers[p].Updated.Print())
 			}
 		}
@@ -1912,10 +1914,9 @@ func cmdPeers(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", prusage("peers"))
 			return
 		}
-	default:
-		MsgPrintln(g, "magenta_black", prhelp("peers"))
-		ErrPrintln(g, "red_black", prusage("peers"))
 	}
+	MsgPrintln(g, "magenta_black", prhelp("peers"))
+	ErrPrintln(g, "red_black", prusage("peers"))
 }
 
 // Initiator _put_
@@ -2331,6 +2332,8 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 			case "transfer":
 				sarflags.Cliflag.Timeout.Transfer = 60
 				MsgPrintln(g, "green_black", "transfer:", sarflags.Cliflag.Timeout.Transfer, " sec")
+			default:
+				ErrPrintln(g, "red_black", prusage("timeout"))
 			}
 			return
 		}
-- 
2.43.0


From dabeed9a1c4f2ef98aefb1f53b2bf7f99d705587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:00 +0000
Subject: [PATCH 40/60] fix: beacons are sent to the first of several addresses
 too, beacon off forgets the multicast beacons

---
 sarwin/sarwin.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index aa9839e..7d7b1a8 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1344,6 +1344,8 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", "Beacons Disabled")
 			// remove and disable all beacons
 			clibeacon.hosts = nil
+			clibeacon.v4mcast = false
+			clibeacon.v6mcast = false
 			return
 		case "v4": // beacon v4
 			// V4 Multicast
@@ -1378,8 +1380,11 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			return
 		}
 	}
-	for i := 2; i < len(args); i++ {
+	for i := 1; i < len(args); i++ {
 		if args[1] == "off" {
+			if i == 1 {
+				continue
+			}
 			if addr, err := sarnet.UDPAddress(args[i]); err == nil {
 				clibeacon.hosts = sarnet.RemoveUDPAddrValue(clibeacon.hosts, addr)
 				continue
-- 
2.43.0


From 122884cdfb08dd5ee4a0c5d4899cb0ea72a31c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:00 +0000
Subject: [PATCH 41/60] fix: timeout usage names the setting the command takes

---
 saratoga/saratoga.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saratoga/saratoga.json b/saratoga/saratoga.json
index a9fb231..ba35081 100644
--- a/saratoga/saratoga.json
+++ b/saratoga/saratoga.json
@@ -141,7 +141,7 @@
 			"help" : "get a file from a peer and remove it from peer when successfully transferred"
 		},
 		"timeout" : {
-			"usage" : "timeout [metadata|request|transfer|status|dataframes] <secs|off>",
+			"usage" : "timeout [metadata|request|transfer|status|datacounter] <secs|off>",
 			"help" : "timeouts in secs for metadata, request frames, status receipts, transfer completion, status sent every dataframes"
 		},
 		"timestamp" : {
-- 
2.43.0


From 54bb756d8605d8e62eb3cb7da18cbe5f901773fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:17 +0000
Subject: [PATCH 42/60] fix: reading the config again does not list the frame
 flags twice

---
 sarflags/sarflags.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index 198a93d..bb01dba 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -438,6 +438,7 @@ func (c *Cliflags) ReadConfig(fname string) (err error) {
 			for key, val := range frameflags {
 				// fmt.Println("THE KEY IS:", key, "THE VAL IS ", val)
 				info := val.([]interface{})
+				Frameflags[key] = nil // Start afresh when the config is read again
 				for _, v := range info {
 					Frameflags[key] = append(Frameflags[key], v.(string))
 				}
-- 
2.43.0


From 97b5339d532c21ca4aa36f1d5450ff938d2096a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:27 +0000
Subject: [PATCH 43/60] fix: a beacon uses the smallest descriptor that holds
 its free space

---
 beacon/beacon.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index 3b8fdea..42e7232 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -112,11 +112,11 @@ func (b *Beacon) New(flags string, info interface{}) error {
 			}
 			b.Freespace = (uint64(fs.Bsize) * fs.Bavail) / 1024
 		}
-		if b.Freespace < sarflags.MaxUint16 {
+		if b.Freespace <= sarflags.MaxUint16 {
 			b.Header, _ = sarflags.Set(b.Header, "freespaced", "d16")
 			return nil
 		}
-		if b.Freespace < sarflags.MaxUint32 {
+		if b.Freespace <= sarflags.MaxUint32 {
 			b.Header, _ = sarflags.Set(b.Header, "freespaced", "d32")
 			return nil
 		}
@@ -176,11 +176,11 @@ func (b *Beacon) Make(header uint32, info interface{}) error {
 			}
 			b.Freespace = (uint64(fs.Bsize) * fs.Bavail) / 1024
 		}
-		if b.Freespace < sarflags.MaxUint16 {
+		if b.Freespace <= sarflags.MaxUint16 {
 			b.Header, _ = sarflags.Set(b.Header, "freespaced", "d16")
 			return nil
 		}
-		if b.Freespace < sarflags.MaxUint32 {
+		if b.Freespace <= sarflags.MaxUint32 {
 			b.Header, _ = sarflags.Set(b.Header, "freespaced", "d32")
 			return nil
 		}
-- 
2.43.0


From dfb835deff510215f02e2b09812bcc41be39c928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:35 +0000
Subject: [PATCH 44/60] fix: peers command reads the peer table while beacons
 change it

---
 beacon/beacon.go |  7 +++++++
 sarwin/sarwin.go | 47 ++++++++++++++++++++++++-----------------------
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index 42e7232..3590adf 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -364,6 +364,13 @@ var pmu sync.Mutex // Protect Peers
 // Peers - Slices of unique Peer information learned from beacons
 var Peers []Peer
 
+// CopyPeers - Copy of the current Peers, NewPeer changes them at any time
+func CopyPeers() []Peer {
+	pmu.Lock()
+	defer pmu.Unlock()
+	return append([]Peer(nil), Peers...)
+}
+
 // NewPeer - Add/Change peer info from received beacon
 func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	if from == nil {
diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 7d7b1a8..35bd8df 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1845,31 +1845,32 @@ func cmdLs(g *gocui.Gui, args []string) {
 func cmdPeers(g *gocui.Gui, args []string) {
 	switch len(args) {
 	case 1:
-		if len(beacon.Peers) == 0 {
+		peers := beacon.CopyPeers()
+		if len(peers) == 0 {
 			MsgPrintln(g, "green_black", "No Peers")
 			return
 		}
 		// Table format
 		// Work out the max length of each field
 		var addrlen, eidlen, dcrelen, dmodlen, cantxlen, canrxlen int
-		for p := range beacon.Peers {
-			if len(beacon.Peers[p].Addr) > addrlen {
-				addrlen = len(beacon.Peers[p].Addr)
+		for p := range peers {
+			if len(peers[p].Addr) > addrlen {
+				addrlen = len(peers[p].Addr)
 			}
-			if len(beacon.Peers[p].Eid) > eidlen {
-				eidlen = len(beacon.Peers[p].Eid)
+			if len(peers[p].Eid) > eidlen {
+				eidlen = len(peers[p].Eid)
 			}
-			if len(beacon.Peers[p].Canrx) > canrxlen {
-				canrxlen = len(beacon.Peers[p].Canrx)
+			if len(peers[p].Canrx) > canrxlen {
+				canrxlen = len(peers[p].Canrx)
 			}
-			if len(beacon.Peers[p].Cantx) > cantxlen {
-				cantxlen = len(beacon.Peers[p].Cantx)
+			if len(peers[p].Cantx) > cantxlen {
+				cantxlen = len(peers[p].Cantx)
 			}
-			if len(beacon.Peers[p].Created.Print()) > dcrelen {
-				dcrelen = len(beacon.Peers[p].Created.Print())
+			if len(peers[p].Created.Print()) > dcrelen {
+				dcrelen = len(peers[p].Created.Print())
 			}
-			if len(beacon.Peers[p].Updated.Print()) > dmodlen {
-				dmodlen = len(beacon.Peers[p].Updated.Print())
+			if len(peers[p].Updated.Print()) > dmodlen {
+				dmodlen = len(peers[p].Updated.Print())
 			}
 		}
 		if eidlen < 3 {
@@ -1891,15 +1892,15 @@ func cmdPeers(g *gocui.Gui, args []string) {
 		sfmt := fmt.Sprintf("|%%%ds|%%6s|%%%ds|%%3s|%%%ds|%%%ds|%%%ds|%%%ds|\n",
 			addrlen, eidlen, canrxlen, cantxlen, dcrelen, dmodlen)
 		var sslice sort.StringSlice
-		for key := range beacon.Peers {
-			pinfo := fmt.Sprintf(sfmt, beacon.Peers[key].Addr,
-				strconv.Itoa(int(beacon.Peers[key].Freespace/1024/1024)),
-				beacon.Peers[key].Eid,
-				beacon.Peers[key].Maxdesc,
-				beacon.Peers[key].Canrx,
-				beacon.Peers[key].Cantx,
-				beacon.Peers[key].Created.Print(),
-				beacon.Peers[key].Updated.Print())
+		for key := range peers {
+			pinfo := fmt.Sprintf(sfmt, peers[key].Addr,
+				strconv.Itoa(int(peers[key].Freespace/1024/1024)),
+				peers[key].Eid,
+				peers[key].Maxdesc,
+				peers[key].Canrx,
+				peers[key].Cantx,
+				peers[key].Created.Print(),
+				peers[key].Updated.Print())
 			sslice = append(sslice, pinfo)
 		}
 		sort.Sort(sslice)
-- 
2.43.0


From 7d16432a24da10eeb21f90bc3f3a172c48740f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:51 +0000
Subject: [PATCH 45/60] fix: a re-used data or status value keeps the timestamp
 of an earlier frame

---
 data/data.go     | 1 +
 status/status.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/data/data.go b/data/data.go
index e92a87e..0eaa33d 100644
--- a/data/data.go
+++ b/data/data.go
@@ -159,6 +159,7 @@ func (d *Data) Decode(frame []byte) error {
 	}
 	d.Header = binary.BigEndian.Uint32(frame[:4])
 	d.Session = binary.BigEndian.Uint32(frame[4:8])
+	d.Tstamp = timestamp.Timestamp{} // There is none unless this frame has it
 	// The frame has to hold at least the timestamp and the offset
 	minlen := 8
 	if sarflags.GetStr(d.Header, "reqtstamp") == "yes" {
diff --git a/status/status.go b/status/status.go
index f70de25..72ea03e 100644
--- a/status/status.go
+++ b/status/status.go
@@ -261,6 +261,7 @@ func (s *Status) Decode(frame []byte) error {
 	s.Header = binary.BigEndian.Uint32(frame[:4])
 	s.Session = binary.BigEndian.Uint32(frame[4:8])
 	s.Holes = nil
+	s.Tstamp = timestamp.Timestamp{} // There is none unless this frame has it
 	// The frame has to hold at least the timestamp, progress and inrespto
 	minlen := 8
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
-- 
2.43.0


From 57df4f119972191d43efec816d8e1a7a6dc6f40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:03 +0000
Subject: [PATCH 46/60] fix: FileDelete removed the saratoga directory itself
 when it was empty

---
 fileio/fileio.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index b6f269e..7caca78 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -157,6 +157,9 @@ func FileDelete(fp *os.File) error {
 	if fp != nil {
 		fname := fp.Name()
 		FileClose(fp)
+		if fname == fullpath("") {
+			return fmt.Errorf("cannot delete the saratoga directory %s", fname)
+		}
 		return os.Remove(fname) // The name of an open file is its full name
 	}
 	return fmt.Errorf("no existing open file to delete")
-- 
2.43.0


From 2765d1d3e8c55b8e55656d64c9909aef452b0793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:45 +0000
Subject: [PATCH 47/60] fix: take, give and delete transfers were never listed
 by their own type

---
 saratoga/saratoga.json | 2 +-
 sarwin/sarwin.go       | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/saratoga/saratoga.json b/saratoga/saratoga.json
index ba35081..82daf62 100644
--- a/saratoga/saratoga.json
+++ b/saratoga/saratoga.json
@@ -153,7 +153,7 @@
 			"help" : "show current or set to use local or universal time"
 		},
 		"tran" : {
-			"usage" : "tran [get|take|getdir|put|give|putblind|rm|rmdir]",
+			"usage" : "tran [get|take|getdir|put|give|putblind|delete]",
 			"help" : "list current active transfers of specific type or all"
 		},
 		"txwilling" : {
diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 35bd8df..229aa21 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -850,7 +850,7 @@ func stpaylen(flags string) int {
 }
 
 // Ttypes - Transfer types
-var Ttypes = []string{"get", "getrm", "getdir", "put", "putblind", "putrm", "rm", "rmdir"}
+var Ttypes = []string{"get", "take", "getdir", "put", "putblind", "give", "delete"}
 
 // Transfer direction we are an initiator of a transfer or a respondant to a request for a transfer
 const Initiator bool = true
@@ -1667,7 +1667,7 @@ func cmdGetdir(g *gocui.Gui, args []string) {
 func cmdTake(g *gocui.Gui, args []string) {
 	switch len(args) {
 	case 1:
-		Info(g, "getrm")
+		Info(g, "take")
 		return
 	case 2:
 		if args[1] == "?" {
@@ -2012,7 +2012,7 @@ func cmdGive(g *gocui.Gui, args []string) {
 
 	switch len(args) {
 	case 1:
-		Info(g, "putrm")
+		Info(g, "give")
 		return
 	case 2:
 		if args[1] == "?" {
@@ -2081,7 +2081,7 @@ func cmdDelete(g *gocui.Gui, args []string) {
 
 	switch len(args) {
 	case 1:
-		Info(g, "rm")
+		Info(g, "delete")
 		return
 	case 2:
 		if args[1] == "?" {
-- 
2.43.0


From 6c61535ceee5073a0fef0c3ec151cc4c47353ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:45 +0000
Subject: [PATCH 48/60] fix: the list of transfers shows the direction of each

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 229aa21..7019b48 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1261,7 +1261,7 @@ func (t *Transfer) remove() error {
 
 // FmtPrint - String of relevant transfer info
 func (t *Transfer) FmtPrint(sfmt string) string {
-	return fmt.Sprintf(sfmt, "Initiator",
+	return fmt.Sprintf(sfmt, Directions[t.Direction],
 		t.Ttype,
 		t.Peer.String(),
 		t.Filename)
-- 
2.43.0


From 480f25b97aeee1064af1f969306342283c1ffdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 49/60] fix: text appears in its window in the order it was
 printed

---
 sarwin/sarwin.go | 71 +++++++++++++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 7019b48..f67b069 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -299,52 +299,61 @@ func setcolour(colour string) string {
 	}
 }
 
-// fprintf out an ANSII escape sequence in colour to view
-// If colour is undefined then still print it out but in bright red to show there is an issue
-func fprintf(g *gocui.Gui, vname string, colour string, format string, args ...interface{}) {
+// Text that waits to be written to a view
+type viewtext struct {
+	g     *gocui.Gui
+	vname string
+	text  string
+}
 
-	g.Update(func(g *gocui.Gui) error {
+// All of the text not yet written to its view, in the order it was printed
+var waiting []viewtext
+
+// show writes text to a view, behind everything that was printed before it.
+// gocui handles updates in any order, so each of them writes out whatever has waited longest.
+func show(g *gocui.Gui, vname string, text string) {
+	ViewMu.Lock()
+	waiting = append(waiting, viewtext{g, vname, text})
+	ViewMu.Unlock()
+
+	g.Update(func(*gocui.Gui) error {
 		ViewMu.Lock()
 		defer ViewMu.Unlock()
-		v, err := g.View(vname)
+		next := waiting[0]
+		waiting = waiting[1:]
+		v, err := next.g.View(next.vname)
 		if err != nil {
-			e := fmt.Sprintf("\nView Fprintf invalid view: %s", vname)
+			e := fmt.Sprintf("\nView Fprintf invalid view: %s", next.vname)
 			log.Fatal(e)
 		}
 		// gotolastrow(g, v)
-
-		s := setcolour(colour)
-		s += fmt.Sprintf(format, args...)
-		if colour != "" {
-			s += setcolour("off")
-		}
-		fmt.Fprint(v, s)
+		fmt.Fprint(v, next.text)
 		return nil
 	})
 }
 
+// fprintf out an ANSII escape sequence in colour to view
+// If colour is undefined then still print it out but in bright red to show there is an issue
+func fprintf(g *gocui.Gui, vname string, colour string, format string, args ...interface{}) {
+
+	s := setcolour(colour)
+	s += fmt.Sprintf(format, args...)
+	if colour != "" {
+		s += setcolour("off")
+	}
+	show(g, vname, s)
+}
+
 // Fprintln out in ANSII escape sequence in colour to view
 // If colour is undefined then still print it out but in bright red to show there is an issue
 func fprintln(g *gocui.Gui, vname string, colour string, args ...interface{}) {
 
-	g.Update(func(g *gocui.Gui) error {
-		ViewMu.Lock()
-		defer ViewMu.Unlock()
-		v, err := g.View(vname)
-		if err != nil {
-			e := fmt.Sprintf("\nView Fprintln invalid view: %s", vname)
-			log.Fatal(e)
-		}
-		// gotolastrow(g, v)
-
-		s := setcolour(colour)
-		s += fmt.Sprint(args...)
-		if colour != "" {
-			s += setcolour("off")
-		}
-		fmt.Fprintln(v, s)
-		return nil
-	})
+	s := setcolour(colour)
+	s += fmt.Sprint(args...)
+	if colour != "" {
+		s += setcolour("off")
+	}
+	show(g, vname, s+"\n")
 }
 
 func setCurrentViewOnTop(g *gocui.Gui, name string) (*gocui.View, error) {
-- 
2.43.0


From 763ac1075ffc97b6b1d2603fbc9a84ebfdfc7eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 50/60] fix: a relative transfer directory can be used

---
 saratoga/saratoga.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 54923ff..dd0b3dc 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -9,6 +9,7 @@ import (
 	"log"
 	"net"
 	"os"
+	"path/filepath"
 	"strings"
 	"syscall"
 
@@ -467,6 +468,13 @@ func main() {
 	sarwin.Cinfo.Prompt = Cmdptr.Prompt
 	sarwin.Cinfo.Ppad = Cmdptr.Ppad
 
+	// A relative directory is relative to where we were started, not to the directory itself
+	if Cmdptr.Sardir != "" {
+		if Cmdptr.Sardir, err = filepath.Abs(Cmdptr.Sardir); err != nil {
+			log.Fatal(fmt.Errorf("no such directory SARDIR=%s: %w", Cmdptr.Sardir, err))
+		}
+	}
+
 	// Move to saratoga working directory
 	if err = os.Chdir(Cmdptr.Sardir); err != nil {
 		log.Fatal(fmt.Errorf("no such directory SARDIR=%s", Cmdptr.Sardir))
-- 
2.43.0


From e65e87242d7f814a437675fa89dc10a0da7685ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 51/60] fix: name the interface that is not found, not the
 configuration file

---
 saratoga/saratoga.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index dd0b3dc..1464eef 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -491,7 +491,7 @@ func main() {
 	argnumb++
 	iface, err = net.InterfaceByName(os.Args[argnumb])
 	if err != nil {
-		fmt.Println("Saratoga Unable to lookup interfacebyname:", os.Args[argnumb-1])
+		fmt.Println("Saratoga Unable to lookup interfacebyname:", os.Args[argnumb])
 		log.Fatal(err)
 	}
 	// Set the Mtu to Interface we are using
-- 
2.43.0


From 04b28b49ee149f479ed9dc7f95673f76e65dfd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 52/60] fix: tell why the user interface cannot be run

---
 saratoga/saratoga.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 1464eef..9acafb7 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -501,7 +501,7 @@ func main() {
 	g, gerr := gocui.NewGui(gocui.OutputNormal)
 	if gerr != nil {
 		fmt.Printf("Cannot run gocui user interface")
-		log.Fatal(err)
+		log.Fatal(gerr)
 	}
 	defer g.Close()
 
-- 
2.43.0


From 3c461a5aa4775b29bb6ce32d6bb56d256831c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 53/60] fix: give the terminal back whenever the program ends

---
 saratoga/saratoga.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 9acafb7..aed9d77 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -504,12 +504,16 @@ func main() {
 		log.Fatal(gerr)
 	}
 	defer g.Close()
+	// log.Fatal does not run what is deferred, so give the terminal back before it
+	fatal := func(v ...interface{}) {
+		g.Close()
+		log.Fatal(v...)
+	}
 
 	// Get Host Interfaces & Address's
 	ifis, ierr := net.Interfaces()
 	if ierr != nil {
-		fmt.Println(ierr.Error())
-		log.Fatal(ierr)
+		fatal(ierr)
 	}
 	g.SetManagerFunc(sarwin.Layout)
 	if err := sarwin.Keybindings(g); err != nil {
@@ -545,11 +549,10 @@ func main() {
 	// Set up for Listen to Multicast v6
 	v6mcastcon, err := net.ListenMulticastUDP("udp6", iface, &v6mcastaddr)
 	if err != nil {
-		log.Println("Saratoga Unable to Listen on IPv6 Multicast ", v6mcastaddr.IP, " ", v6mcastaddr.Port)
-		log.Fatal(err)
+		fatal("Saratoga Unable to Listen on IPv6 Multicast ", v6mcastaddr.IP, " ", v6mcastaddr.Port, ": ", err)
 	}
 	if err := sarnet.SetMulticastLoop(v6mcastcon); err != nil {
-		log.Fatal(err)
+		fatal(err)
 	}
 
 	// Open up V4 sockets for listening on the Saratoga Port
@@ -561,11 +564,10 @@ func main() {
 	// Set up for Listen to Multicast v4
 	v4mcastcon, err := net.ListenMulticastUDP("udp4", iface, &v4mcastaddr)
 	if err != nil {
-		log.Println("Saratoga Unable to Listen on IPv4 Multicast ", v4mcastaddr.IP, " ", v4mcastaddr.Port)
-		log.Fatal(err)
+		fatal("Saratoga Unable to Listen on IPv4 Multicast ", v4mcastaddr.IP, " ", v4mcastaddr.Port, ": ", err)
 	}
 	if err := sarnet.SetMulticastLoop(v4mcastcon); err != nil {
-		log.Fatal(err)
+		fatal(err)
 	}
 
 	// v4unicastcon, err := net.ListenUDP("udp4", iface, &v4addr)
@@ -735,14 +737,14 @@ func main() {
 				sarwin.ErrPrintln(g, "blue_black", "Need to send v6 Saratoga INVALID Frame")
 			}
 		case v4err := <-v4listenquit:
-			log.Fatal("Saratoga v4 listener has quit with error:", v4err)
+			fatal("Saratoga v4 listener has quit with error:", v4err)
 		case v6err := <-v6listenquit:
-			log.Fatal("Saratoga v6 listener has quit with error:", v6err)
+			fatal("Saratoga v6 listener has quit with error:", v6err)
 		case err := <-errflag:
 			if err != nil {
-				log.Fatal("Mainloop has quit with error:", err.Error())
+				fatal("Mainloop has quit with error:", err.Error())
 			}
-			log.Fatal("Saratoga has quit")
+			fatal("Saratoga has quit")
 		}
 	}
 }
-- 
2.43.0


From 80cbb79b0aef5aa0312013919dec0e0312f33f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:57 +0000
Subject: [PATCH 54/60] fix: exit and quit give the terminal back

---
 sarwin/sarwin.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index f67b069..8cd7be5 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -602,9 +602,7 @@ func GetLine(g *gocui.Gui, v *gocui.View) error {
 
 		if command[1] == "exit" || command[1] == "quit" {
 			// Sarwg.Wait()
-			err := Quit(g, v)
-			// THIS IS A KLUDGE FIX IT WITH A CHANNEL
-			log.Fatal("\nGocui Exit. Bye!\n", err)
+			return Quit(g, v) // The main loop ends and the terminal is given back
 		}
 		// RUN THE COMMAND ENTERED!!!
 		Run(g, command[1])
-- 
2.43.0


From 72e4419eced5a20ac0a9f616df79514dd908937e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 55/60] fix: a command longer than its window no longer blocks
 the command line

---
 sarwin/sarwin.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 8cd7be5..358f1e4 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -16,6 +16,7 @@ import (
 	"strings"
 	"sync"
 	"time"
+	"unicode/utf8"
 
 	"github.com/jroimartin/gocui"
 
@@ -185,7 +186,7 @@ func Layout(g *gocui.Gui) error {
 		cmd.FgColor = gocui.ColorGreen
 		cmd.Editable = true
 		cmd.Overwrite = true
-		cmd.Wrap = true
+		cmd.Wrap = false // A row is a line, long lines scroll sideways
 		cmd.Autoscroll = true
 	}
 	// This is the error msg view -- errors go here
@@ -420,8 +421,9 @@ func switchView(g *gocui.Gui, v *gocui.View) error {
 func BackSpace(g *gocui.Gui, v *gocui.View) error {
 	switch v.Name() {
 	case "cmd":
+		ox, _ := v.Origin()
 		cx, _ := v.Cursor()
-		if cx <= promptlen(Cinfo) { // Dont move we are at the prompt
+		if ox+cx <= promptlen(Cinfo) { // Dont move we are at the prompt
 			return nil
 		}
 		// Delete rune backwards
@@ -436,15 +438,13 @@ func BackSpace(g *gocui.Gui, v *gocui.View) error {
 func CursorLeft(g *gocui.Gui, v *gocui.View) error {
 	switch v.Name() {
 	case "cmd":
-		cx, cy := v.Cursor()
-		if cx <= promptlen(Cinfo) { // Dont move we are at the prompt
+		ox, _ := v.Origin()
+		cx, _ := v.Cursor()
+		if ox+cx <= promptlen(Cinfo) { // Dont move we are at the prompt
 			return nil
 		}
 		// Move back a character
-		if err := v.SetCursor(cx-1, cy); err != nil {
-			return nil
-			// ErrPrintln(g, "white_black", v.Name(), "LeftArrow:", "cx=", cx, "cy=", cy, "error=", err)
-		}
+		v.MoveCursor(-1, 0, true)
 	case "msg", "packet", "err":
 		return nil
 	}
@@ -455,17 +455,15 @@ func CursorLeft(g *gocui.Gui, v *gocui.View) error {
 func CursorRight(g *gocui.Gui, v *gocui.View) error {
 	switch v.Name() {
 	case "cmd":
+		ox, _ := v.Origin()
 		cx, cy := v.Cursor()
 		line, _ := v.Line(cy)
-		if cx >= len(line)-1 { // We are at the end of line do nothing
-			v.SetCursor(len(line), cy)
+		if end := utf8.RuneCountInString(line); ox+cx >= end { // We are at the end of line do nothing
+			v.SetCursor(end-ox, cy)
 			return nil
 		}
 		// Move forward a character
-		if err := v.SetCursor(cx+1, cy); err != nil {
-			return nil
-			// ErrPrintln(g, "white_red", "RightArrow:", "cx=", cx, "cy=", cy, "error=", err)
-		}
+		v.MoveCursor(1, 0, true)
 	case "msg", "packet", "err":
 		return nil
 	}
@@ -538,6 +536,7 @@ func prompt(g *gocui.Gui, v *gocui.View) {
 			v.SetCursor(promptlen(Cinfo), cy)
 			return
 		}
+		v.SetOrigin(0, oy) // Show the start of the line
 		// End the last command by going to new lin \n then put up the new prompt
 		Cinfo.Curline++
 		CmdPrintf(g, "yellow_black", "\n%s[%d]:", Cinfo.Prompt, Cinfo.Curline)
-- 
2.43.0


From 8f212adabb731e178596aec7044e053d2f686f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 56/60] fix: the prompt can hold a colon

---
 sarwin/sarwin.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 358f1e4..21e0775 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -592,7 +592,8 @@ func GetLine(g *gocui.Gui, v *gocui.View) error {
 		// Get the line
 		line, _ := v.Line(cy)
 
-		command := strings.SplitN(line, ":", 2)
+		// The command follows the first : after the prompt prefix, which may hold one itself
+		command := strings.SplitN(strings.TrimPrefix(line, Cinfo.Prompt), ":", 2)
 		if len(command) < 2 || command[1] == "" { // We have just hit enter - do nothing
 			return nil
 		}
-- 
2.43.0


From 38bc1d853553d4917eb7f4b073ba1e6dc5a5be74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:57 +0000
Subject: [PATCH 57/60] fix: a command typed after the end of its line is run

---
 sarwin/sarwin.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 21e0775..9c6ca5c 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -591,6 +591,8 @@ func GetLine(g *gocui.Gui, v *gocui.View) error {
 		_, cy := v.Cursor()
 		// Get the line
 		line, _ := v.Line(cy)
+		// Nothing was typed where the cursor has passed over, what is shown there is a space
+		line = strings.ReplaceAll(line, "\x00", " ")
 
 		// The command follows the first : after the prompt prefix, which may hold one itself
 		command := strings.SplitN(strings.TrimPrefix(line, Cinfo.Prompt), ":", 2)
-- 
2.43.0


From 911dff7dd9937af0b0a48b16d7ee00ca95d8f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 58/60] fix: exit 0 and quit 1 end the program, not only say so

---
 sarwin/sarwin.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 9c6ca5c..9e3da94 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -602,9 +602,13 @@ func GetLine(g *gocui.Gui, v *gocui.View) error {
 		// Save the command into history
 		Cinfo.Commands = append(Cinfo.Commands, command[1])
 
-		if command[1] == "exit" || command[1] == "quit" {
-			// Sarwg.Wait()
-			return Quit(g, v) // The main loop ends and the terminal is given back
+		// exit [0|1] and quit [0|1]
+		if f := strings.Fields(command[1]); len(f) > 0 && (f[0] == "exit" || f[0] == "quit") {
+			if len(f) == 1 || len(f) == 2 && (f[1] == "0" || f[1] == "1") {
+				// Sarwg.Wait()
+				cmdExit(g, f)
+				return Quit(g, v) // The main loop ends and the terminal is given back
+			}
 		}
 		// RUN THE COMMAND ENTERED!!!
 		Run(g, command[1])
-- 
2.43.0


From 2ef7da87b060f550e3d09dc88623fc08370a7667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:10 +0000
Subject: [PATCH 59/60] fix: clear windows in the main loop, behind what was
 printed, and scroll back

Clearing from the command's goroutine made the cleared window the current one for
a moment (or for good, with two commands at a time), so that keys went there; it left
the origin where it was, so that what was printed next was not on the screen; and what
had been printed before appeared in the cleared window.
---
 sarwin/sarwin.go | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 9e3da94..bcf8e37 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -103,19 +103,10 @@ type Cmdinfo struct {
 	Numlines int      // How many lines do we have
 }
 
-// Clear a window
+// Clear a window, with everything that was printed to it before
 func Clearwin(g *gocui.Gui, win string) {
-
-	var newview *gocui.View
-
-	curview := g.CurrentView()
-	curname := curview.Name()
-	// x, y := curview.Cursor()
 	if win == "msg" || win == "err" || win == "packet" {
-		newview, _ = g.SetCurrentView(win)
-		newview.Clear()
-		newview.SetCursor(0, 0)
-		g.SetCurrentView(curname)
+		update(viewtext{g, win, "", true})
 	}
 }
 
@@ -300,24 +291,30 @@ func setcolour(colour string) string {
 	}
 }
 
-// Text that waits to be written to a view
+// Text that waits to be written to a view, or a view that waits to be cleared
 type viewtext struct {
 	g     *gocui.Gui
 	vname string
 	text  string
+	clear bool
 }
 
 // All of the text not yet written to its view, in the order it was printed
 var waiting []viewtext
 
 // show writes text to a view, behind everything that was printed before it.
-// gocui handles updates in any order, so each of them writes out whatever has waited longest.
 func show(g *gocui.Gui, vname string, text string) {
+	update(viewtext{g, vname, text, false})
+}
+
+// update has the main loop change a view, as only it can do so safely.
+// gocui handles updates in any order, so each of them does whatever has waited longest.
+func update(next viewtext) {
 	ViewMu.Lock()
-	waiting = append(waiting, viewtext{g, vname, text})
+	waiting = append(waiting, next)
 	ViewMu.Unlock()
 
-	g.Update(func(*gocui.Gui) error {
+	next.g.Update(func(*gocui.Gui) error {
 		ViewMu.Lock()
 		defer ViewMu.Unlock()
 		next := waiting[0]
@@ -327,6 +324,11 @@ func show(g *gocui.Gui, vname string, text string) {
 			e := fmt.Sprintf("\nView Fprintf invalid view: %s", next.vname)
 			log.Fatal(e)
 		}
+		if next.clear {
+			v.Clear()
+			v.SetCursor(0, 0)
+			return v.SetOrigin(0, 0)
+		}
 		// gotolastrow(g, v)
 		fmt.Fprint(v, next.text)
 		return nil
@@ -1455,10 +1457,10 @@ func cmdChecksum(g *gocui.Gui, args []string) {
 func cmdClear(g *gocui.Gui, args []string) {
 
 	if len(args) == 1 {
-		MsgPrintln(g, "green_black", "Cleared all windows")
 		Clearwin(g, "msg")
 		Clearwin(g, "err")
 		Clearwin(g, "packet")
+		MsgPrintln(g, "green_black", "Cleared all windows")
 		return
 	}
 	if len(args) == 2 {
@@ -1467,8 +1469,8 @@ func cmdClear(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "magenta_black", prhelp("clear"))
 			MsgPrintln(g, "green_black", prusage("clear"))
 		case "msg", "err", "packet":
-			MsgPrintln(g, "green_black", "Cleared Window:", args[1])
 			Clearwin(g, args[1])
+			MsgPrintln(g, "green_black", "Cleared Window:", args[1])
 		default:
 			ErrPrintln(g, "red_black", prusage("clear"))
 		}
@@ -1477,8 +1479,8 @@ func cmdClear(g *gocui.Gui, args []string) {
 	for arg := 1; arg < len(args); arg++ {
 		switch args[arg] {
 		case "msg", "err", "packet":
-			MsgPrintln(g, "green_black", "Cleared Window:", args[arg])
 			Clearwin(g, args[arg])
+			MsgPrintln(g, "green_black", "Cleared Window:", args[arg])
 		default:
 			ErrPrintln(g, "red_black", prusage("clear"))
 			return
-- 
2.43.0


From 1821a0c08c39b3263a95c85d1d0d628f98da3933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:11 +0000
Subject: [PATCH 60/60] fix: keep the cursor of the command line at its place
 when the terminal is resized

The window shows its last lines at its new size, so the cursor was left on an earlier
command, or beyond the right edge at a wrong column, and what was typed went there.
---
 sarwin/sarwin.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index bcf8e37..6d02868 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -179,6 +179,8 @@ func Layout(g *gocui.Gui) error {
 		cmd.Overwrite = true
 		cmd.Wrap = false // A row is a line, long lines scroll sideways
 		cmd.Autoscroll = true
+	} else {
+		keepcursor(cmd)
 	}
 	// This is the error msg view -- errors go here
 	if cmd, err = g.SetView("err", maxx/2, maxy-(maxy/ratio)+1, maxx-1, maxy-1); err != nil {
@@ -244,6 +246,34 @@ func Layout(g *gocui.Gui) error {
 	return nil
 }
 
+// Size of the cmd view when it was laid out last
+var cmdx, cmdy int
+
+// Keep the cursor of the cmd view at its place in the text when the terminal is resized
+func keepcursor(v *gocui.View) {
+	maxx, maxy := v.Size()
+	if maxx == cmdx && maxy == cmdy {
+		return
+	}
+	cmdx, cmdy = maxx, maxy
+	ox, oy := v.Origin()
+	cx, cy := v.Cursor()
+	x, y, last := ox+cx, oy+cy, len(v.BufferLines())-1
+	// The view shows its last lines
+	oy = 0
+	if last >= maxy {
+		oy = last - maxy + 1
+	}
+	if y < oy || y > last { // No longer shown
+		y = last
+	}
+	if cx >= maxx {
+		ox = x - maxx + 1
+	}
+	v.SetOrigin(ox, oy)
+	v.SetCursor(x-ox, y-oy)
+}
+
 // Does the foreground colour exist in our map of fg colours
 func fgexists(col string) bool {
 	for c := range fg {
-- 
2.43.0

