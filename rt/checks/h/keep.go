package h

// Keep collects checks of values that were handed out earlier, to be made again when many
// others have been built since (nil: nothing is collected).
type Keep struct{ again []func() }

// Later adds a check.
func (k *Keep) Later(f func()) {
	if k != nil {
		k.again = append(k.again, f)
	}
}

// Check makes all of them.
func (k *Keep) Check() {
	for _, f := range k.again {
		f()
	}
}

// Powers lists 2^k-1, 2^k and 2^k+1 for k up to bits.
func Powers(bits uint) (out []uint64) {
	seen := map[uint64]bool{}
	for k := uint(0); k <= bits; k++ {
		var p uint64
		if k < 64 {
			p = 1 << k
		}
		for _, v := range []uint64{p - 1, p, p + 1} {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	return
}
