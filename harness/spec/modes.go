package spec

// Formats lists what Annex 10 Vol IV says about each downlink format that the
// library knows: 7 or 14 bytes, or 0 for a format it does not support.
func FrameLen(df uint64) int {
	if df >= 24 {
		return 14
	}
	switch df {
	case 0, 4, 5, 11:
		return 7
	case 16, 17, 18, 19, 20, 21:
		return 14
	}
	return 0
}

// HasAltitudeCode: formats with a 13-bit altitude code in bits 20..32.
func HasAltitudeCode(df uint64) bool { return df == 0 || df == 4 || df == 16 || df == 20 }

// Altitude kinds.
const (
	AltNone   = 1 // all bits zero: not available
	AltMetric = 2
	Alt100    = 3
	Alt25     = 4
	AltBad    = 5 // no altitude has this Gillham code
)

// gray decodes a reflected binary code of n bits, most significant first.
func gray(v uint64, n int) int64 {
	var acc, out uint64
	for i := n - 1; i >= 0; i-- {
		acc ^= v >> uint(i) & 1
		out = out<<1 | acc
	}
	return int64(out)
}

// Gillham is the altitude in feet of the code D1 D2 D4 A1 A2 A4 B1 B2 B4 (most
// significant first, 500 ft steps) and C1 C2 C4 (100 ft steps), and whether it exists.
func Gillham(dab, c uint64) (int64, bool) {
	f := gray(dab, 9)
	var h int64
	// 100 ft steps, in the order the C bits take within an even 500 ft step
	switch c {
	case 1:
		h = -2
	case 3:
		h = -1
	case 2:
		h = 0
	case 6:
		h = 1
	case 4:
		h = 2
	default:
		return 0, false
	}
	if f&1 == 1 {
		h = -h
	}
	return f*500 + h*100 - 1000, true
}

// Altitude13 decodes the 13 bits C1 A1 C2 A2 C4 A4 M B1 Q B2 D2 B4 D4 that start at bit first.
func Altitude13(d []byte, first int) (kind int, feet int64) {
	b := func(i int) uint64 { return Bits(d, first+i, first+i) }
	all := Bits(d, first, first+12)
	if all == 0 {
		return AltNone, 0
	}
	if b(6) == 1 {
		return AltMetric, 0
	}
	if b(8) == 1 {
		n := Bits(d, first, first+5)<<5 | b(7)<<4 | Bits(d, first+9, first+12)
		return Alt25, 25*int64(n) - 1000
	}
	dab := b(10)<<7 | b(12)<<6 | b(1)<<5 | b(3)<<4 | b(5)<<3 | b(7)<<2 | b(9)<<1 | b(11)
	c := b(0)<<2 | b(2)<<1 | b(4)
	a, ok := Gillham(dab, c)
	if !ok {
		return AltBad, 0
	}
	return Alt100, a
}
