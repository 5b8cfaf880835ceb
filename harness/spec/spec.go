// Package spec holds the helpers shared by the oracles: bit fields as the
// standards number them (bit 1 is the most significant bit of the first byte).
package spec

// Bits returns bits first..last (1-based, inclusive) of d as a number.
func Bits(d []byte, first, last int) uint64 {
	var v uint64
	for i := first; i <= last; i++ {
		b := d[(i-1)/8] >> uint(7-(i-1)%8) & 1
		v = v<<1 | uint64(b)
	}
	return v
}

// Bit returns one bit.
func Bit(d []byte, n int) bool { return Bits(d, n, n) == 1 }

// Signed is the sign bit followed by an n-bit two's complement magnitude, as
// used throughout the Comm-B registers: -2^n when the sign bit is set.
func Signed(sign bool, mag uint64, n int) int64 {
	if sign {
		return int64(mag) - int64(1)<<uint(n)
	}
	return int64(mag)
}

// B2I converts a truth value to 0 or 1.
func B2I(b bool) int64 {
	if b {
		return 1
	}
	return 0
}
