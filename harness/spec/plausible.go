package spec

// The plausibility rules of the Comm-B registers, from their bits alone.

// signed is the two's complement number of bits first..last.
func signed(d []byte, first, last int) int64 {
	n := int64(Bits(d, first, last))
	if Bit(d, first) {
		n -= int64(1) << uint(last-first+1)
	}
	return n
}

// absent says that bits first..last are zero unless status bit st is set.
func absent(d []byte, st, first, last int) bool { return Bit(d, st) || Bits(d, first, last) == 0 }

// CallSignLegal says that the eight characters in bits 9..56 are letters, digits or spaces.
func CallSignLegal(d []byte) bool {
	ok := true
	for i := 0; i < 8; i++ {
		c := Bits(d, 9+6*i, 14+6*i)
		legal := c >= 1 && c <= 26 || c == 32 || c >= 48 && c <= 57
		ok = ok && legal
	}
	return ok
}

// PlausibleCapability judges register 1,0.
func PlausibleCapability(d []byte) bool {
	acas := Bit(d, 16)
	doc := Bits(d, 39, 40)
	if !acas && Bits(d, 37, 40) != 0 {
		return false
	}
	return doc <= 2 && Bits(d, 17, 23) <= 5 && Bits(d, 26, 28) <= 6 && Bits(d, 29, 32) <= 6
}

// Plausible40 judges register 4,0.
func Plausible40(d []byte) bool {
	return (Bit(d, 1) || Bit(d, 14) || Bit(d, 27)) &&
		absent(d, 1, 2, 13) && absent(d, 14, 15, 26) && absent(d, 27, 28, 39) &&
		absent(d, 48, 49, 51) && absent(d, 54, 55, 56)
}

// Plausible44V0 judges register 4,4 in its first format.
func Plausible44V0(d []byte) bool {
	t := signed(d, 24, 34) // quarter degrees
	return Bits(d, 1, 4) <= 4 &&
		(Bit(d, 5) || Bit(d, 35) || Bit(d, 47) || Bit(d, 50)) &&
		absent(d, 5, 6, 23) && absent(d, 35, 36, 46) && absent(d, 47, 48, 49) && absent(d, 50, 51, 56) &&
		Bits(d, 6, 14) <= 250 && t >= -80*4 && t <= 60*4
}

// Plausible44V1 judges register 4,4 in its revised format.
func Plausible44V1(d []byte) bool {
	t := signed(d, 25, 35) // eighths of a degree
	return (Bit(d, 5) || Bit(d, 15) || Bit(d, 24) || Bit(d, 36) || Bit(d, 49)) &&
		absent(d, 5, 6, 14) && absent(d, 15, 16, 23) && absent(d, 24, 25, 35) && absent(d, 36, 37, 47) && absent(d, 49, 50, 56) &&
		Bits(d, 6, 14) <= 250 && t >= -80*8 && t <= 60*8
}

// Plausible45V0 judges register 4,5 in its first format.
func Plausible45V0(d []byte) bool {
	t := signed(d, 17, 26) // quarter degrees
	return (Bit(d, 1) || Bit(d, 4) || Bit(d, 7) || Bit(d, 10) || Bit(d, 13) || Bit(d, 16) || Bit(d, 27) || Bit(d, 39)) &&
		absent(d, 1, 2, 3) && absent(d, 4, 5, 6) && absent(d, 7, 8, 9) && absent(d, 10, 11, 12) && absent(d, 13, 14, 15) &&
		absent(d, 16, 17, 26) && absent(d, 27, 28, 38) && absent(d, 39, 40, 51) &&
		t >= -80*4 && t <= 60*4
}

// Plausible45V1 judges register 4,5 in its revised format, which judges a temperature only when it is available.
func Plausible45V1(d []byte) bool {
	t := signed(d, 14, 24) // eighths of a degree
	return (Bit(d, 1) || Bit(d, 4) || Bit(d, 7) || Bit(d, 10) || Bit(d, 13) || Bit(d, 25) || Bit(d, 38)) &&
		absent(d, 1, 2, 3) && absent(d, 4, 5, 6) && absent(d, 7, 8, 9) && absent(d, 10, 11, 12) &&
		absent(d, 25, 26, 37) && absent(d, 38, 39, 54) &&
		(!Bit(d, 13) || t >= -80*8 && t <= 60*8)
}

// Plausible50 judges register 5,0.
func Plausible50(d []byte) bool {
	roll := signed(d, 2, 11) * 45 // 1/256 degrees
	gs, tas := 2*int64(Bits(d, 25, 34)), 2*int64(Bits(d, 47, 56))
	diff := gs - tas
	return (Bit(d, 1) || Bit(d, 12) || Bit(d, 24) || Bit(d, 35) || Bit(d, 46)) &&
		absent(d, 1, 2, 11) && absent(d, 12, 13, 23) && absent(d, 24, 25, 34) && absent(d, 35, 36, 45) && absent(d, 46, 47, 56) &&
		roll <= 50*256 && roll >= -50*256 && gs <= 600 && tas <= 500 &&
		(!Bit(d, 24) || !Bit(d, 46) || diff <= 200 && diff >= -200)
}

// Plausible60 judges register 6,0.
func Plausible60(d []byte) bool {
	baro, inertial := 32*signed(d, 36, 45), 32*signed(d, 47, 56)
	return (Bit(d, 1) || Bit(d, 13) || Bit(d, 24) || Bit(d, 35) || Bit(d, 46)) &&
		absent(d, 1, 2, 12) && absent(d, 13, 14, 23) && absent(d, 24, 25, 34) && absent(d, 35, 36, 45) && absent(d, 46, 47, 56) &&
		Bits(d, 14, 23) <= 500 && 4*Bits(d, 25, 34) <= 1000 &&
		baro <= 6000 && baro >= -6000 && inertial <= 6000 && inertial >= -6000
}
