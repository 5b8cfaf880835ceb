// Package c13: target state messages give the encoded targets, modes and quality.
package c13

import (
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/adsb/target_state_and_status"
	"github.com/twuillemin/modes/pkg/bds/bds62"
	"github.com/twuillemin/modes/pkg/bds/bds62/fields"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "all 56 content bits of type code 29 with every version byte and both supplement bits symbolic, through the squitter reader and the register reader; barometric setting within 0.01 hPa, heading within 1e-3 degrees modulo a turn"

func f(d []byte, first, last int) int64 { return int64(spec.Bits(d, first, last)) }

func flag(d []byte, b bool, n int, label string) { sym.Eq(spec.B2I(b), f(d, n, n), label) }

func type0(d []byte, v *bds62.TargetStateAndStatus0) {
	sym.Reach("subtype 0")
	sym.Eq(int64(v.FormatTypeCode), 29, "type code 0")
	sym.Eq(int64(v.Subtype), 0, "subtype 0")
	sym.Eq(int64(v.VerticalDataAvailableSourceIndicator), f(d, 8, 9), "vertical data source")
	sym.Eq(int64(v.TargetAltitudeType), f(d, 10, 10), "target altitude type")
	sym.Eq(int64(v.TargetAltitudeCapability), f(d, 12, 13), "target altitude capability")
	sym.Eq(int64(v.VerticalModeIndicator), f(d, 14, 15), "vertical mode")
	if alt := f(d, 16, 25); alt > 1010 {
		sym.Eq(int64(v.TargetAltitudeStatus), int64(fields.NVSMaximum), "target altitude beyond the scale")
	} else {
		sym.Eq(int64(v.TargetAltitudeStatus), int64(fields.NVSRegular), "target altitude status")
		sym.Eq(int64(v.TargetAltitude), alt*100-1000, "target altitude")
	}
	sym.Eq(int64(v.HorizontalDataAvailableSourceIndicator), f(d, 26, 27), "horizontal data source")
	if h := f(d, 28, 36); h > 359 {
		sym.Eq(int64(v.TargetHeadingTrackAngleStatus), int64(fields.NVSMaximum), "target heading beyond the scale")
	} else {
		sym.Eq(int64(v.TargetHeadingTrackAngleStatus), int64(fields.NVSRegular), "target heading status")
		sym.Eq(int64(v.TargetHeadingTrackAngle), h, "target heading or track")
	}
	sym.Eq(int64(v.TargetHeadingTrackIndicator), f(d, 37, 37), "heading or track indicator")
	sym.Eq(int64(v.HorizontalModeIndicator), f(d, 38, 39), "horizontal mode")
	sym.Eq(int64(v.NavigationalAccuracyCategoryPosition), f(d, 40, 43), "accuracy category 0")
	sym.Eq(int64(v.NICBaro), f(d, 44, 44), "barometric cross check 0")
	sym.Eq(int64(v.SurveillanceIntegrityLevel), f(d, 45, 46), "integrity level 0")
	sym.Eq(int64(v.CapabilityModeCode), f(d, 52, 53), "ACAS capability and mode")
	sym.Eq(int64(v.EmergencyPriorityStatus), f(d, 54, 56), "emergency state")
}

func type1(d []byte, v *bds62.TargetStateAndStatus1) {
	sym.Reach("subtype 1")
	sym.Eq(int64(v.FormatTypeCode), 29, "type code 1")
	sym.Eq(int64(v.Subtype), 1, "subtype 1")
	sym.Eq(int64(v.SourceIntegrityLevelSupplement), f(d, 8, 8), "integrity level supplement")
	sym.Eq(int64(v.SelectedAltitudeType), f(d, 9, 9), "selected altitude source")
	if n := f(d, 10, 20); n == 0 {
		sym.Eq(int64(v.SelectedAltitudeStatus), int64(fields.NVSNoInformation), "no selected altitude")
	} else {
		sym.Eq(int64(v.SelectedAltitudeStatus), int64(fields.NVSRegular), "selected altitude status")
		sym.Eq(int64(v.SelectedAltitude), (n-1)*32, "selected altitude")
	}
	if n := f(d, 21, 29); n == 0 {
		sym.Eq(int64(v.BarometricPressureSettingStatus), int64(fields.NVSNoInformation), "no barometric setting")
	} else {
		sym.Eq(int64(v.BarometricPressureSettingStatus), int64(fields.NVSRegular), "barometric setting status")
		sym.Near(float64(v.BarometricPressureSetting), 800+float64(n-1)*0.8, 1e-2, "barometric setting")
	}
	sym.Eq(int64(v.SelectedHeadingStatus), f(d, 30, 30), "selected heading status")
	h, want := float64(v.SelectedHeading), float64(f(d, 31, 39))*180/256
	sym.ObserveFloat("selected heading", h)
	sym.Assert(sym.Close(h, want, 1e-3) || sym.Close(h, want-360, 1e-3), "selected heading")
	sym.Eq(int64(v.NavigationalAccuracyCategoryPosition), f(d, 40, 43), "accuracy category 1")
	sym.Eq(int64(v.NICBaro), f(d, 44, 44), "barometric cross check 1")
	sym.Eq(int64(v.SourceIntegrityLevel), f(d, 45, 46), "integrity level 1")
	sym.Eq(int64(v.StatusMCPFCUBits), f(d, 47, 47), "validity of the mode bits")
	flag(d, v.AutopilotEngaged, 48, "autopilot engaged")
	flag(d, v.VNAVModeEngaged, 49, "vertical navigation engaged")
	flag(d, v.AltitudeHoldModeEngaged, 50, "altitude hold engaged")
	flag(d, v.ApproachModeEngaged, 52, "approach mode engaged")
	flag(d, v.TCASACASOperational, 53, "ACAS operational")
	flag(d, v.LNAVModeEngaged, 54, "lateral navigation engaged")
}

func content(d []byte, m bds62.TargetStateAndStatus) {
	switch v := m.(type) {
	case *bds62.TargetStateAndStatus0:
		type0(d, v)
	case *bds62.TargetStateAndStatus1:
		type1(d, v)
	default:
		sym.Assert(false, "a target state is one of the two formats")
	}
}

// HSquitter decides target states read from squitters.
func HSquitter() {
	d := sym.Bytes("me", 7)
	d[0] = 29<<3 | d[0]&7
	want := spec.SquitterKind(d, 0)
	m, err := reader.ReadADSBMessage(adsb.ADSBVersion(sym.Uint("version", 8)), sym.Bool("nicA"), sym.Bool("nicC"), d)
	sym.Assert((err == nil) == (want != spec.SqRefused), "a target state is refused exactly when its subtype is reserved or a reserved bit is set")
	if err != nil {
		sym.Reach("refused")
		return
	}
	w, ok := m.(*target_state_and_status.TargetStateAndStatus)
	sym.Assert(ok, "a target state is decoded as one")
	if ok {
		sym.Assert(w.GetSubtype() == fields.Subtype(f(d, 6, 7)), "the format is that of the subtype")
		content(d, w.TargetStateAndStatus)
	}
}

// HRegister decides register 6,2.
func HRegister() {
	d := sym.Bytes("mb", 7)
	m, err := bds62.ReadTargetStateAndStatus(d)
	want := spec.SquitterKind(d, 0)
	sym.Assert((err == nil) == (want == spec.SqTarget0 || want == spec.SqTarget1), "the register is read exactly when it is a target state")
	if err == nil {
		content(d, m)
	} else {
		sym.Reach("refused")
	}
}
