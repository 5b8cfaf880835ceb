// Package c10: velocity messages give the encoded speed, heading, climb and height offset.
package c10

import (
	"math"

	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/airborne_velocity"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/bds/bds09"
	"github.com/twuillemin/modes/pkg/bds/bds09/fields"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "all 56 content bits of type code 19 with subtypes 1 to 4, every version byte and both supplement bits symbolic; heading within 1e-4 degrees, derived speed within 1 kt of the length and derived track within 0.001 degrees of the direction of the vector, with square root and arctangent as function symbols"

// value checks a quantity coded as n: 0 no information, top at or beyond the
// end of the scale, otherwise (n-1)*step.
func value(got int64, status fields.NumericValueStatus, n, top, step int64, neg bool, label string) {
	sign := int64(1)
	if neg {
		sign = -1
	}
	switch {
	case n == 0:
		sym.Assert(status == fields.NVSNoInformation, "no information status")
		sym.Eq(got, 0, "value without information")
	case n == top:
		sym.Assert(status == fields.NVSMaximum, "maximum status")
		sym.ObserveInt("maximum", got)
		sym.Assert(got*sign > (top-2)*step && got*sign <= (top+1)*step, "a maximum is beyond the regular values and keeps its sign")
	default:
		sym.Assert(status == fields.NVSRegular, "regular status")
		sym.Assert(got == sign*(n-1)*step, label)
	}
}

func common(d []byte, tc byte, sub fields.Subtype, ic fields.IntentChange, ifr fields.IFRCapability, nuc fields.NavigationUncertaintyCategory,
	src fields.VerticalRateSource, rs fields.NumericValueStatus, rate int16, hs fields.NumericValueStatus, height int16) {
	sym.Eq(int64(tc), 19, "type code")
	sym.Eq(int64(sub), int64(spec.Bits(d, 6, 8)), "subtype")
	sym.Eq(int64(ic), int64(spec.Bits(d, 9, 9)), "intent change")
	sym.Eq(int64(ifr), int64(spec.Bits(d, 10, 10)), "IFR capability")
	sym.Eq(int64(nuc), int64(spec.Bits(d, 11, 13)), "navigation uncertainty category")
	sym.Eq(int64(src), int64(spec.Bits(d, 36, 36)), "vertical rate source")
	value(int64(rate), rs, int64(spec.Bits(d, 38, 46)), 511, 64, spec.Bit(d, 37), "vertical rate")
	value(int64(height), hs, int64(spec.Bits(d, 50, 56)), 127, 25, spec.Bit(d, 49), "height difference")
}

func ground(d []byte, step int64, de fields.DirectionEastWest, es fields.NumericValueStatus, ew uint16,
	dn fields.DirectionNorthSouth, ns fields.NumericValueStatus, vn uint16, speed uint32, serr error, track float32, terr error) {
	sym.Eq(int64(de), int64(spec.Bits(d, 14, 14)), "direction east or west")
	sym.Eq(int64(dn), int64(spec.Bits(d, 25, 25)), "direction north or south")
	e, n := int64(spec.Bits(d, 15, 24)), int64(spec.Bits(d, 26, 35))
	value(int64(ew), es, e, 1023, step, false, "east-west speed")
	value(int64(vn), ns, n, 1023, step, false, "north-south speed")
	regular := e != 0 && e != 1023 && n != 0 && n != 1023
	sym.Assert((serr == nil) == regular, "a speed is derived exactly when both components are known")
	sym.Assert((terr == nil) == regular, "a track is derived exactly when both components are known")
	if regular {
		sym.Reach("components known")
	} else {
		sym.Reach("components not both known")
	}
}

// derived checks speed and track against components that HGroundSpeed* show to be those of the message.
func derived(ew, ns uint16, west, south bool, speed uint32, serr error, track float32, terr error) {
	sym.Assert(serr == nil && terr == nil, "speed and track are derived when both components are known")
	if serr != nil || terr != nil {
		return
	}
	sym.Reach("derived")
	x, y := float64(ew), float64(ns)
	sym.Near(float64(speed), math.Sqrt(x*x+y*y), 1.001, "derived speed is the length of the velocity vector")
	if west {
		x = -x
	}
	if south {
		y = -y
	}
	deg := math.Atan2(x, y) * (180 / math.Pi)
	if deg < 0 {
		deg += 360
	}
	sym.Near(float64(track), deg, 1e-3, "derived track is the direction of the velocity vector clockwise from north")
}

// components are any components a regular message can hold.
func components(max uint64) (ew, ns uint16, de fields.DirectionEastWest, dn fields.DirectionNorthSouth, west, south bool) {
	e, n := sym.Uint("ew", 12), sym.Uint("ns", 12)
	sym.Assume(e <= max && n <= max)
	ew, ns = uint16(e), uint16(n)
	west, south = sym.Bool("west"), sym.Bool("south")
	if west {
		de = fields.DEWWest
	}
	if south {
		dn = fields.DNSSouth
	}
	return
}

// HDerived decides derived speed and track of subtype 1.
func HDerived() {
	ew, ns, de, dn, west, south := components(1021)
	v := bds09.AirborneVelocityGroundSpeedNormal{DirectionEastWest: de, DirectionNorthSouth: dn, VelocityEW: ew, VelocityNS: ns,
		VelocityEWStatus: fields.NVSRegular, VelocityNSStatus: fields.NVSRegular}
	s, serr := v.GetSpeed()
	t, terr := v.GetTrack()
	derived(ew, ns, west, south, s, serr, t, terr)
}

// HDerivedSupersonic decides derived speed and track of subtype 2.
func HDerivedSupersonic() {
	ew, ns, de, dn, west, south := components(4084)
	v := bds09.AirborneVelocityGroundSpeedSupersonic{DirectionEastWest: de, DirectionNorthSouth: dn, VelocityEW: ew, VelocityNS: ns,
		VelocityEWStatus: fields.NVSRegular, VelocityNSStatus: fields.NVSRegular}
	s, serr := v.GetSpeed()
	t, terr := v.GetTrack()
	derived(ew, ns, west, south, s, serr, t, terr)
}

func air(d []byte, step int64, hs fields.MagneticHeadingStatus, h float32, as fields.NumericValueStatus, v uint16) {
	sym.Eq(int64(hs), int64(spec.Bits(d, 14, 14)), "magnetic heading status")
	sym.Near(float64(h), float64(spec.Bits(d, 15, 24))*360/1024, 1e-4, "magnetic heading")
	value(int64(v), as, int64(spec.Bits(d, 26, 35)), 1023, step, false, "airspeed")
	sym.Reach("air speed")
}

func message(sub byte) ([]byte, bds09.AirborneVelocity) {
	d := sym.Bytes("me", 7)
	d[0] = 19<<3 | sub
	ver := sym.Uint("version", 8)
	m, err := reader.ReadADSBMessage(adsb.ADSBVersion(ver), sym.Bool("nicA"), sym.Bool("nicC"), d)
	sym.Assert(err == nil, "a velocity message is decoded")
	sym.Assume(err == nil)
	v, ok := m.(*airborne_velocity.AirborneVelocity)
	sym.Assert(ok, "a velocity message is decoded as one")
	sym.Assume(ok)
	return d, v.AirborneVelocity
}

// HGroundSpeed decides subtype 1.
func HGroundSpeed() {
	d, m := message(1)
	v, ok := m.(*bds09.AirborneVelocityGroundSpeedNormal)
	sym.Assert(ok, "subtype 1 is a ground speed")
	sym.Assume(ok)
	common(d, v.FormatTypeCode, v.Subtype, v.IntentChange, v.IFRCapability, v.NavigationUncertaintyCategory,
		v.VerticalRateSource, v.VerticalRateStatus, v.VerticalRate, v.DifferenceAltitudeGNSSBaroStatus, v.DifferenceAltitudeGNSSBaro)
	s, serr := v.GetSpeed()
	t, terr := v.GetTrack()
	ground(d, 1, v.DirectionEastWest, v.VelocityEWStatus, v.VelocityEW, v.DirectionNorthSouth, v.VelocityNSStatus, v.VelocityNS, s, serr, t, terr)
}

// HGroundSpeedSupersonic decides subtype 2.
func HGroundSpeedSupersonic() {
	d, m := message(2)
	v, ok := m.(*bds09.AirborneVelocityGroundSpeedSupersonic)
	sym.Assert(ok, "subtype 2 is a supersonic ground speed")
	sym.Assume(ok)
	common(d, v.FormatTypeCode, v.Subtype, v.IntentChange, v.IFRCapability, v.NavigationUncertaintyCategory,
		v.VerticalRateSource, v.VerticalRateStatus, v.VerticalRate, v.DifferenceAltitudeGNSSBaroStatus, v.DifferenceAltitudeGNSSBaro)
	s, serr := v.GetSpeed()
	t, terr := v.GetTrack()
	ground(d, 4, v.DirectionEastWest, v.VelocityEWStatus, v.VelocityEW, v.DirectionNorthSouth, v.VelocityNSStatus, v.VelocityNS, s, serr, t, terr)
}

// HAirSpeed decides subtype 3.
func HAirSpeed() {
	d, m := message(3)
	v, ok := m.(*bds09.AirborneVelocityAirSpeedNormal)
	sym.Assert(ok, "subtype 3 is an air speed")
	sym.Assume(ok)
	common(d, v.FormatTypeCode, v.Subtype, v.IntentChange, v.IFRCapability, v.NavigationUncertaintyCategory,
		v.VerticalRateSource, v.VerticalRateStatus, v.VerticalRate, v.HeightDifferenceFromBaroStatus, v.HeightDifferenceFromBaro)
	air(d, 1, v.MagneticHeadingStatus, v.MagneticHeading, v.AirspeedStatus, v.Airspeed)
}

// HAirSpeedSupersonic decides subtype 4.
func HAirSpeedSupersonic() {
	d, m := message(4)
	v, ok := m.(*bds09.AirborneVelocityAirSpeedSupersonic)
	sym.Assert(ok, "subtype 4 is a supersonic air speed")
	sym.Assume(ok)
	common(d, v.FormatTypeCode, v.Subtype, v.IntentChange, v.IFRCapability, v.NavigationUncertaintyCategory,
		v.VerticalRateSource, v.VerticalRateStatus, v.VerticalRate, v.HeightDifferenceFromBaroStatus, v.HeightDifferenceFromBaro)
	air(d, 4, v.MagneticHeadingStatus, v.MagneticHeading, v.AirspeedStatus, v.Airspeed)
}
