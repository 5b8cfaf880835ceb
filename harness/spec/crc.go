package spec

// CRC24 is the Mode S parity of d: the remainder of d(x)*x^24 divided by the
// generator x^24+x^23+...: 0x1FFF409 (ICAO Annex 10 Vol IV 3.1.2.3.3).
func CRC24(d []byte) uint32 {
	var r uint32
	for _, b := range d {
		for k := 7; k >= 0; k-- {
			in := uint32(b>>uint(k)) & 1
			top := r >> 23 & 1
			r = r << 1 & 0xFFFFFF
			if top^in == 1 {
				r ^= 0xFFF409
			}
		}
	}
	return r
}
