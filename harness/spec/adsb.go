package spec

// Kinds of extended squitter contents.
const (
	SqRefused = iota
	SqNoPosition
	SqAirborneType0
	SqIdentification
	SqSurfaceV0
	SqSurfaceV1
	SqSurfaceV2
	SqAirborneV0
	SqAirborneV1
	SqAirborneV2
	SqGroundSpeed
	SqGroundSpeedSupersonic
	SqAirSpeed
	SqAirSpeedSupersonic
	SqStatusNone
	SqStatusEmergency
	SqStatusRA
	SqTarget0
	SqTarget1
	SqOperV0
	SqOperAirborneV1
	SqOperSurfaceV1
	SqOperAirborneV2
	SqOperSurfaceV2
)

// Altitude12 decodes the 12-bit altitude of airborne positions in bits 9..20:
// C1 A1 C2 A2 C4 A4 B1 Q B2 D2 B4 D4. All zero stands for no altitude.
func Altitude12(d []byte) (kind int, feet int64) {
	b := func(i int) uint64 { return Bits(d, 9+i, 9+i) }
	if Bits(d, 9, 20) == 0 {
		return AltNone, 0
	}
	if b(7) == 1 {
		return Alt25, 25*int64(Bits(d, 9, 15)<<4|Bits(d, 17, 20)) - 1000
	}
	dab := b(9)<<7 | b(11)<<6 | b(1)<<5 | b(3)<<4 | b(5)<<3 | b(6)<<2 | b(8)<<1 | b(10)
	c := b(0)<<2 | b(2)<<1 | b(4)
	a, ok := Gillham(dab, c)
	if !ok {
		return AltBad, 0
	}
	return Alt100, a
}

// RABits tells whether the 48 bits of a resolution advisory that start at bit
// first have a meaning: the threat altitude, when present, must exist.
func RAMeaningful(d []byte, first int) bool {
	if Bits(d, first+20, first+21) != 2 {
		return true
	}
	kind, _ := ThreatAltitude(d, first)
	return kind != AltBad
}

// ThreatAltitude decodes C1 A1 C2 A2 C4 A4 0 B1 D1 B2 D2 B4 D4 at bits 23..35 of the advisory.
func ThreatAltitude(d []byte, first int) (kind int, feet int64) {
	b := func(i int) uint64 { return Bits(d, first+22+i, first+22+i) }
	dab := b(8)<<8 | b(10)<<7 | b(12)<<6 | b(1)<<5 | b(3)<<4 | b(5)<<3 | b(7)<<2 | b(9)<<1 | b(11)
	c := b(0)<<2 | b(2)<<1 | b(4)
	if dab == 0 && c == 0 {
		return AltNone, 0
	}
	a, ok := Gillham(dab, c)
	if !ok {
		return AltBad, 0
	}
	return Alt100, a
}

// SquitterKind is the interpretation of the 56-bit contents of an extended
// squitter sent by an aircraft of the given ADS-B version, or SqRefused.
func SquitterKind(d []byte, version uint64) int {
	tc := Bits(d, 1, 5)
	sub := Bits(d, 6, 8)
	alt, _ := Altitude12(d)
	altOK := alt != AltNone && alt != AltBad
	switch {
	case tc == 0:
		if !altOK {
			return SqRefused
		}
		if Bits(d, 21, 56) == 0 {
			return SqNoPosition
		}
		return SqAirborneType0
	case tc <= 4:
		return SqIdentification
	case tc <= 8:
		switch version {
		case 0:
			return SqSurfaceV0
		case 1:
			return SqSurfaceV1
		case 2:
			return SqSurfaceV2
		}
	case tc <= 18 || tc >= 20 && tc <= 22:
		if !altOK {
			return SqRefused
		}
		switch version {
		case 0:
			return SqAirborneV0
		case 1:
			return SqAirborneV1
		case 2:
			return SqAirborneV2
		}
	case tc == 19:
		switch sub {
		case 1:
			return SqGroundSpeed
		case 2:
			return SqGroundSpeedSupersonic
		case 3:
			return SqAirSpeed
		case 4:
			return SqAirSpeedSupersonic
		}
	case tc == 28:
		switch sub {
		case 0:
			if Bits(d, 12, 56) == 0 {
				return SqStatusNone
			}
		case 1:
			if Bits(d, 25, 56) == 0 {
				return SqStatusEmergency
			}
		case 2:
			if RAMeaningful(d, 9) {
				return SqStatusRA
			}
		}
	case tc == 29:
		switch Bits(d, 6, 7) {
		case 0:
			if Bits(d, 47, 51) == 0 {
				return SqTarget0
			}
		case 1:
			return SqTarget1
		}
	case tc == 31:
		switch Bits(d, 41, 43) {
		case 0:
			if sub == 0 && Bits(d, 41, 56) == 0 {
				return SqOperV0
			}
		case 1:
			if Bits(d, 9, 10) != 0 || Bits(d, 13, 14) != 0 || Bits(d, 25, 26) != 0 ||
				Bits(d, 49, 50) != 0 || Bits(d, 55, 56) != 0 {
				return SqRefused
			}
			switch sub {
			case 0:
				return SqOperAirborneV1
			case 1:
				return SqOperSurfaceV1
			}
		case 2:
			if Bits(d, 9, 10) != 0 || Bits(d, 25, 26) != 0 || Bits(d, 56, 56) != 0 {
				return SqRefused
			}
			switch sub {
			case 0:
				return SqOperAirborneV2
			case 1:
				return SqOperSurfaceV2
			}
		}
	}
	return SqRefused
}
