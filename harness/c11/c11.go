// Package c11: identification messages give the encoded call sign and emitter category.
package c11

import (
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_identification_and_category"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/bds/bds08"
	"github.com/twuillemin/modes/pkg/bds/bds08/fields"
	"github.com/twuillemin/modes/pkg/bds/bds20"
	commb "github.com/twuillemin/modes/pkg/commb"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "all 56 content bits of squitters of type codes 1 to 4 (every version byte and both supplement bits symbolic) and of register 2,0; the injectivity of the alphabet over all pairs of codes"

// letter is the character a six-bit code stands for in ICAO's alphabet, or 0.
func letter(code uint64) int64 {
	switch {
	case code >= 1 && code <= 26:
		return 'A' + int64(code) - 1
	case code == 32:
		return ' '
	case code >= 48 && code <= 57:
		return '0' + int64(code) - 48
	}
	return 0
}

// text checks the eight characters of bits 9 to 56 and tells whether all are legal.
func text(d []byte, s string) bool {
	sym.Eq(int64(len(s)), 8, "the identification has eight characters")
	legal := true
	if len(s) != 8 {
		return false
	}
	for i := 0; i < 8; i++ {
		want := letter(spec.Bits(d, 9+6*i, 14+6*i))
		got := int64(s[i])
		if want != 0 {
			sym.Eq(got, want, "a character of the identification is the one its six bits stand for")
		} else {
			legal = false
			sym.Assert(!(got >= 'A' && got <= 'Z' || got >= '0' && got <= '9' || got == ' '), "a code without character is never shown as one")
		}
	}
	return legal
}

func message(d []byte, m *bds08.AircraftIdentificationAndCategory) {
	sym.Eq(int64(m.FormatTypeCode), int64(spec.Bits(d, 1, 5)), "type code")
	legal := text(d, m.Identification)
	cat := int64(spec.Bits(d, 6, 8))
	reserved := false
	switch c := m.Category.(type) {
	case fields.AircraftCategorySetA:
		sym.Reach("set A")
		sym.Assert(spec.Bits(d, 1, 5) == 4, "category set A belongs to type code 4")
		sym.Eq(int64(c), cat, "category of set A")
	case fields.AircraftCategorySetB:
		sym.Reach("set B")
		sym.Assert(spec.Bits(d, 1, 5) == 3, "category set B belongs to type code 3")
		sym.Eq(int64(c), cat, "category of set B")
	case fields.AircraftCategorySetC:
		sym.Reach("set C")
		sym.Assert(spec.Bits(d, 1, 5) == 2, "category set C belongs to type code 2")
		sym.Eq(int64(c), cat, "category of set C")
		reserved = cat > 3
	case fields.AircraftCategorySetD:
		sym.Reach("set D")
		sym.Assert(spec.Bits(d, 1, 5) == 1, "category set D belongs to type code 1")
		sym.Eq(int64(c), cat, "category of set D")
		reserved = true
	default:
		sym.Assert(false, "the category belongs to one of the four sets")
	}
	if !legal || reserved {
		sym.Assert(m.CheckCoherency() != nil, "illegal characters and reserved categories are implausible")
	} else if !(spec.Bits(d, 1, 5) == 3 && cat == 5) {
		sym.Assert(m.CheckCoherency() == nil, "legal characters with an assigned category are plausible")
	}
}

// HSquitter decides identifications read from squitters.
func HSquitter() {
	d := sym.Bytes("me", 7)
	tc := spec.Bits(d, 1, 5)
	sym.Assume(tc >= 1 && tc <= 4)
	m, err := reader.ReadADSBMessage(adsb.ADSBVersion(sym.Uint("version", 8)), sym.Bool("nicA"), sym.Bool("nicC"), d)
	sym.Assert(err == nil, "an identification is decoded")
	if err != nil {
		return
	}
	v, ok := m.(*aircraft_identification_and_category.AircraftIdentificationAndCategory)
	sym.Assert(ok, "an identification is decoded as one")
	if ok {
		message(d, &v.AircraftIdentificationAndCategory)
	}
}

// HRegister08 decides register 0,8.
func HRegister08() {
	d := sym.Bytes("mb", 7)
	tc := spec.Bits(d, 1, 5)
	m, err := bds08.ReadAircraftIdentificationAndCategory(d)
	sym.Assert((err == nil) == (tc >= 1 && tc <= 4), "the register is read exactly for type codes 1 to 4")
	if err == nil {
		message(d, m)
	} else {
		sym.Reach("refused")
	}
}

// HRegister20 decides register 2,0.
func HRegister20() {
	d := sym.Bytes("mb", 7)
	m, err := bds20.ReadAircraftIdentification(d)
	sym.Assert((err == nil) == (spec.Bits(d, 1, 8) == 0x20), "the register is read exactly when it names itself")
	if err != nil {
		sym.Reach("refused")
		return
	}
	legal := text(d, m.Identification)
	sym.Assert((m.CheckCoherency() == nil) == legal, "the register is plausible exactly when every character is legal")
	sym.Reach("read")
}

// HCommB decides that a legal identification register of a Comm-B reply is reported with its text.
func HCommB() {
	d := sym.Bytes("mb", 7)
	d[0] = 0x20
	for i := 0; i < 8; i++ {
		sym.Assume(letter(spec.Bits(d, 9+6*i, 14+6*i)) != 0)
	}
	ms, err := commb.ReadCommBMessage(d)
	sym.Assert(err == nil && len(ms) == 1, "a legal identification is the one interpretation")
	if err != nil || len(ms) != 1 {
		return
	}
	v, ok := ms[0].(*bds20.AircraftIdentification)
	sym.Assert(ok, "a legal identification is read as one")
	if ok {
		text(d, v.Identification)
		sym.Reach("read")
	}
}

// HInjective decides that distinct legal codes never show the same character.
func HInjective() {
	a, b := sym.Uint("a", 6), sym.Uint("b", 6)
	sym.Assume(a != b && letter(a) != 0 && letter(b) != 0)
	da, db := []byte{0x20, byte(a) << 2, 0, 0, 0, 0, 0}, []byte{0x20, byte(b) << 2, 0, 0, 0, 0, 0}
	ma, ea := bds20.ReadAircraftIdentification(da)
	mb, eb := bds20.ReadAircraftIdentification(db)
	sym.Assert(ea == nil && eb == nil, "identification registers are read")
	if ea == nil && eb == nil {
		sym.Assert(ma.Identification[0] != mb.Identification[0], "distinct legal characters never look the same")
		sym.Reach("compared")
	}
}
