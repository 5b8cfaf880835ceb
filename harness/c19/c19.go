// Package c19: the track and heading registers give the encoded angles, rates and speeds.
package c19

import (
	"github.com/twuillemin/modes/pkg/bds/bds50"
	"github.com/twuillemin/modes/pkg/bds/bds60"
	"github.com/twuillemin/modes/pkg/bds/register"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "all 56 bits of registers 5,0 and 6,0; floating point values within 0.01 (Mach 0.0005) of the exact value, less than half a step"

func twos(d []byte, first, last int) int64 {
	n := int64(spec.Bits(d, first, last))
	if spec.Bit(d, first) {
		n -= int64(1) << uint(last-first+1)
	}
	return n
}

// HTrackAndTurn decides register 5,0.
func HTrackAndTurn() {
	d := sym.Bytes("mb", 7)
	m, err := bds50.ReadTrackAndTurnReport(d)
	sym.Assert(err == nil, "any seven bytes have the format of register 5,0")
	if err != nil {
		return
	}
	sym.Reach("read")
	sym.Assert(m.GetRegister() == register.BDS50, "register number 5,0")
	st := func(bit int, got bool, label string) { sym.Eq(spec.B2I(got), int64(spec.Bits(d, bit, bit)), label) }
	st(1, m.RollAngleStatus, "roll angle status")
	st(12, m.TrueTrackAngleStatus, "track angle status")
	st(24, m.GroundSpeedStatus, "ground speed status")
	st(35, m.TrackAngleRateStatus, "track angle rate status")
	st(46, m.TrueAirSpeedStatus, "true air speed status")
	sym.Near(float64(m.RollAngle), float64(twos(d, 2, 11)*45)/256, 0.01, "roll angle in steps of 45/256 degrees")
	sym.Near(float64(m.TrueTrackAngle), float64(twos(d, 13, 23)*90)/512, 0.01, "track angle in steps of 90/512 degrees")
	sym.Near(float64(m.TrackAngleRate), float64(twos(d, 36, 45)*8)/256, 0.01, "track angle rate in steps of 8/256 degrees per second")
	sym.Eq(int64(m.GroundSpeed), 2*int64(spec.Bits(d, 25, 34)), "ground speed in steps of 2 kt")
	sym.Eq(int64(m.TrueAirSpeed), 2*int64(spec.Bits(d, 47, 56)), "true air speed in steps of 2 kt")
}

// HHeadingAndSpeed decides register 6,0.
func HHeadingAndSpeed() {
	d := sym.Bytes("mb", 7)
	m, err := bds60.ReadHeadingAndSpeedReport(d)
	sym.Assert(err == nil, "any seven bytes have the format of register 6,0")
	if err != nil {
		return
	}
	sym.Reach("read")
	sym.Assert(m.GetRegister() == register.BDS60, "register number 6,0")
	st := func(bit int, got bool, label string) { sym.Eq(spec.B2I(got), int64(spec.Bits(d, bit, bit)), label) }
	st(1, m.MagneticHeadingStatus, "magnetic heading status")
	st(13, m.IndicatedAirSpeedStatus, "indicated air speed status")
	st(24, m.MachStatus, "Mach status")
	st(35, m.BarometricAltitudeRateStatus, "barometric altitude rate status")
	st(46, m.InitialVerticalVelocityStatus, "inertial vertical velocity status")
	sym.Near(float64(m.MagneticHeading), float64(twos(d, 2, 12)*90)/512, 0.01, "magnetic heading in steps of 90/512 degrees")
	sym.Near(float64(m.Mach), float64(int64(spec.Bits(d, 25, 34))*4)/1000, 0.0005, "Mach in steps of 0.004")
	sym.Eq(int64(m.IndicatedAirSpeed), int64(spec.Bits(d, 14, 23)), "indicated air speed in steps of 1 kt")
	sym.Eq(int64(m.BarometricAltitudeRate), 32*twos(d, 36, 45), "barometric altitude rate in steps of 32 ft/min")
	sym.Eq(int64(m.InitialVerticalVelocity), 32*twos(d, 47, 56), "inertial vertical velocity in steps of 32 ft/min")
}
