// Package c08: airborne position messages give the encoded altitude, time, parity and CPR.
package c08

import (
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/airborne_position"
	"github.com/twuillemin/modes/pkg/adsb/no_position_information"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/bds/bds05"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "all 56 content bits, versions 0 to 2 and both supplement bits symbolic, type codes 0, 9 to 18 and 20 to 22, through the squitter reader and the register reader"

func fields(d []byte, p *bds05.AirbornePosition) {
	tc := spec.Bits(d, 1, 5)
	kind, feet := spec.Altitude12(d)
	sym.Assert(kind == spec.Alt25 || kind == spec.Alt100, "an altitude field that stands for no altitude is refused")
	sym.Eq(int64(p.AltitudeInFeet), feet, "altitude in feet")
	sym.Eq(int64(p.AltitudeReportMethod), spec.B2I(kind == spec.Alt25), "altitude report method")
	sym.Eq(int64(p.AltitudeSource), spec.B2I(tc >= 20), "altitude source: height above the ellipsoid for types 20 to 22, barometric otherwise")
	sym.Eq(int64(p.FormatTypeCode), int64(tc), "type code")
	sym.Eq(int64(p.SurveillanceStatus), int64(spec.Bits(d, 6, 7)), "surveillance status")
	sym.Eq(int64(p.SingleAntennaFlag), int64(spec.Bits(d, 8, 8)), "single antenna flag or NIC supplement B")
	sym.Eq(int64(p.Time), int64(spec.Bits(d, 21, 21)), "time flag")
	sym.Eq(int64(p.CPRFormat), int64(spec.Bits(d, 22, 22)), "CPR format")
	sym.Eq(int64(p.EncodedLatitude), int64(spec.Bits(d, 23, 39)), "CPR latitude")
	sym.Eq(int64(p.EncodedLongitude), int64(spec.Bits(d, 40, 56)), "CPR longitude")
}

// HSquitter decides positions read from squitters of versions 0 to 2.
func HSquitter() {
	d := sym.Bytes("me", 7)
	tc := spec.Bits(d, 1, 5)
	sym.Assume(tc == 0 || tc >= 9 && tc <= 22 && tc != 19)
	kind, feet := spec.Altitude12(d)
	ver := sym.Uint("version", 8)
	sym.Assume(ver <= 2)
	m, err := reader.ReadADSBMessage(adsb.ADSBVersion(ver), sym.Bool("nicA"), sym.Bool("nicC"), d)
	sym.Assert((err != nil) == (kind == spec.AltNone || kind == spec.AltBad), "refused exactly when the altitude field stands for no altitude")
	if err != nil {
		sym.Reach("refused")
		return
	}
	switch v := m.(type) {
	case *no_position_information.NoPositionInformation:
		sym.Reach("no position")
		sym.Eq(int64(v.AltitudeBarometric), feet, "altitude of a message without position")
		sym.Eq(int64(v.FormatTypeCode), 0, "type code of a message without position")
	case *airborne_position.AirbornePositionType0:
		sym.Reach("type 0")
		fields(d, &v.AirbornePosition)
	case *airborne_position.AirbornePositionV0:
		sym.Reach("version 0")
		fields(d, &v.AirbornePosition)
	case *airborne_position.AirbornePositionV1:
		sym.Reach("version 1")
		fields(d, &v.AirbornePosition)
	case *airborne_position.AirbornePositionV2:
		sym.Reach("version 2")
		fields(d, &v.AirbornePosition)
		sym.Eq(int64(v.NavigationIntegrityCodeSupplementB), int64(spec.Bits(d, 8, 8)), "NIC supplement B")
	default:
		sym.Assert(false, "an airborne position is decoded as one")
	}
}

// HRegister decides register 0,5.
func HRegister() {
	d := sym.Bytes("mb", 7)
	tc := spec.Bits(d, 1, 5)
	kind, _ := spec.Altitude12(d)
	p, err := bds05.ReadAirbornePosition(d)
	want := tc >= 9 && tc <= 22 && tc != 19 && kind != spec.AltNone && kind != spec.AltBad
	sym.Assert((err == nil) == want, "the register is read exactly when its type code is a position and an altitude is present")
	if err == nil {
		sym.Reach("read")
		fields(d, p)
	}
}
