package h

import "encoding/binary"

// The documented wire formats, written out independently of the program under check.

// U appends a big endian unsigned integer of n bytes.
func U(b []byte, n int, v uint64) []byte {
	var t [8]byte
	binary.BigEndian.PutUint64(t[:], v)
	return append(b, t[8-n:]...)
}

// Width is the size in bytes of a descriptor, 0 if it cannot be carried.
func Width(d string) int {
	switch d {
	case "d16":
		return 2
	case "d32":
		return 4
	case "d64":
		return 8
	}
	return 0
}

// Desc is the descriptor named in a frame header.
func Desc(w uint32) string { return F("descriptor").NameOf(F("descriptor").Get(32, w)) }

// Fits reports whether v fits in n bytes.
func Fits(v uint64, n int) bool { return n >= 8 || v < 1<<(8*n) }

// Epoch2000 is the number of seconds between 1970 and 2000.
const Epoch2000 = 946684800

// TsTypes are the timestamp types.
var TsTypes = []string{"localinterp", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32"}

// Ts builds the 16 bytes of a timestamp; ok is false if the type cannot hold the instant.
func Ts(typ string, sec int64, nsec uint32) (b []byte, secs uint64, ok bool) {
	b = append(b, byte(Tstamp.Value(typ)))
	s := uint64(sec)
	switch typ {
	case "localinterp":
		b = append(b, "localinterp"...)
		s = 0
	case "posix32":
		b = U(b, 4, s)
	case "posix64":
		b = U(b, 8, s)
	case "posix32_32":
		b = U(U(b, 4, s), 4, uint64(nsec))
	case "posix64_32":
		b = U(U(b, 8, s), 4, uint64(nsec))
	case "epoch2000_32":
		s = uint64(sec - Epoch2000)
		b = U(b, 4, s)
	}
	if (typ == "posix32" || typ == "posix32_32" || typ == "epoch2000_32") && s > 0xffffffff {
		return nil, 0, false
	}
	for len(b) < 16 {
		b = append(b, 0)
	}
	return b, s, true
}

// TsOK reports whether the first byte of a timestamp names a type.
func TsOK(b byte) bool { return Tstamp.NameOf(uint32(b)) != "" }
