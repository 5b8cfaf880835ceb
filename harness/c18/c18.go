// Package c18: the selected vertical intention register gives the encoded targets.
package c18

import (
	"github.com/twuillemin/modes/pkg/bds/bds40"
	"github.com/twuillemin/modes/pkg/bds/register"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "all 56 bits of register 4,0"

// HVerticalIntention decides register 4,0.
func HVerticalIntention() {
	d := sym.Bytes("mb", 7)
	m, err := bds40.ReadSelectedVerticalIntention(d)
	reserved := spec.Bits(d, 40, 47) | spec.Bits(d, 52, 53)
	sym.Assert((err == nil) == (reserved == 0), "the register is read exactly when its reserved bits are zero")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("read")
	eq := func(first, last int, got int64, label string) { sym.Eq(got, int64(spec.Bits(d, first, last)), label) }
	sym.Assert(m.GetRegister() == register.BDS40, "register number 4,0")
	eq(1, 1, spec.B2I(m.MCPFCUSelectedAltitudeAvailable), "control panel altitude available")
	eq(14, 14, spec.B2I(m.FMSSelectedAltitudeAvailable), "flight management altitude available")
	eq(27, 27, spec.B2I(m.BarometricPressureSettingAvailable), "barometric setting available")
	sym.Eq(int64(m.MCPFCUSelectedAltitude), 16*int64(spec.Bits(d, 2, 13)), "control panel altitude in steps of 16 ft")
	sym.Eq(int64(m.FMSSelectedAltitude), 16*int64(spec.Bits(d, 15, 26)), "flight management altitude in steps of 16 ft")
	if m.BarometricPressureSettingAvailable {
		sym.Reach("pressure")
		sym.Near(float64(m.BarometricPressureSetting), 800+float64(spec.Bits(d, 28, 39))/10, 0.01, "barometric setting in steps of 0.1 mb from 800 mb")
	}
	eq(48, 48, int64(m.StatusOfModeBits), "status of the mode bits")
	eq(49, 49, spec.B2I(m.VNAVMode), "VNAV mode")
	eq(50, 50, spec.B2I(m.AltitudeHoldMode), "altitude hold mode")
	eq(51, 51, spec.B2I(m.ApproachMode), "approach mode")
	eq(54, 54, int64(m.StatusOfTargetAltitudeSource), "status of the target altitude source")
	eq(55, 56, int64(m.TargetAltitudeSource), "target altitude source")
}
