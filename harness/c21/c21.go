// Package c21: resolution advisories give the encoded advisory and threat.
package c21

import (
	"github.com/twuillemin/modes/pkg/acas/ra"
	"github.com/twuillemin/modes/pkg/acas/ra/fields"
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_status"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds61"
	"github.com/twuillemin/modes/pkg/bds/register"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "all 56 bits of register 3,0 and of the status squitter of subtype 2; all 256 values of a range and of a bearing"

// check compares an advisory with bits 9 to 56 of d.
func check(d []byte, r *ra.ResolutionAdvisory) {
	u := func(first, last int, got int64, label string) { sym.Eq(got, int64(spec.Bits(d, first, last)), label) }
	f := func(bit int, got bool, label string) { u(bit, bit, spec.B2I(got), label) }
	u(27, 27, int64(r.RATerminatedIndicator), "terminated indicator")
	u(28, 28, int64(r.MultipleThreatEncounter), "multiple threat encounter")
	f(23, r.RAComplement.DoNotPassBelow, "do not pass below")
	f(24, r.RAComplement.DoNotPassAbove, "do not pass above")
	f(25, r.RAComplement.DoNotTurnLeft, "do not turn left")
	f(26, r.RAComplement.DoNotTurnRight, "do not turn right")
	one, mte := spec.Bit(d, 9), spec.Bit(d, 28)
	switch a := r.ActiveRA.(type) {
	case *fields.ActiveRAOneThreatOrSameSeparation:
		sym.Reach("one threat")
		sym.Assert(one, "an advisory of one separation has its first bit set")
		sym.Assert(a.GetType() == fields.OneThreatOrSameSeparation, "type of an advisory of one separation")
		u(10, 10, int64(a.PreventiveCorrective), "corrective")
		u(11, 11, int64(a.Sense), "sense")
		f(12, a.IsIncreasedRate, "increased rate")
		f(13, a.IsSenseReversal, "sense reversal")
		f(14, a.IsAltitudeCrossing, "altitude crossing")
		u(15, 15, int64(a.VerticalSpeedLimitOrPositive), "positive")
	case *fields.ActiveRAMultipleThreatsDifferentSeparation:
		sym.Reach("several threats")
		sym.Assert(!one && mte, "an advisory of different separations has its first bit clear and several threats")
		sym.Assert(a.GetType() == fields.MultipleThreatDifferentSeparation, "type of an advisory of different separations")
		f(10, a.RequiresCorrectionUpwardSense, "correction upward")
		f(11, a.RequiresPositiveClimb, "positive climb")
		f(12, a.RequiresCorrectionDownwardSense, "correction downward")
		f(13, a.RequiresPositiveDescend, "positive descend")
		f(14, a.RequiresCrossing, "crossing")
		f(15, a.IsSenseReversal, "sense reversal of several threats")
	case fields.ActiveRANoVerticalRAGenerated:
		sym.Reach("no vertical advisory")
		sym.Assert(!one && !mte, "no vertical advisory has its first bit clear and no second threat")
		sym.Assert(a.GetType() == fields.NoVerticalRAGenerated, "type of no vertical advisory")
	case *fields.ActiveRANoVerticalRAGenerated:
		sym.Assert(!one && !mte, "no vertical advisory has its first bit clear and no second threat")
		sym.Assert(a.GetType() == fields.NoVerticalRAGenerated, "type of no vertical advisory")
	default:
		sym.Assert(false, "an active advisory is one of the three")
	}
	tti := spec.Bits(d, 29, 30)
	sym.Eq(int64(r.ThreatTypeIndicator), int64(tti), "threat type indicator")
	sym.Assert((r.ThreatIdentityAddress != nil) == (tti == 1), "an address is given exactly for threat type 1")
	sym.Assert((r.ThreatIdentityAltitude != nil) == (tti == 2), "an altitude is given exactly for threat type 2")
	sym.Assert((r.ThreatIdentityRange != nil) == (tti == 2), "a range is given exactly for threat type 2")
	sym.Assert((r.ThreatIdentityBearing != nil) == (tti == 2), "a bearing is given exactly for threat type 2")
	if r.ThreatIdentityAddress != nil {
		sym.Reach("address")
		u(31, 54, int64(*r.ThreatIdentityAddress), "threat address")
	}
	if r.ThreatIdentityAltitude != nil {
		kind, feet := spec.ThreatAltitude(d, 9)
		sym.Assert((r.ThreatIdentityAltitude.AltitudeStatus == fields.AltitudeValid) == (kind == spec.Alt100), "the threat altitude is valid exactly when it is given")
		if kind == spec.Alt100 {
			sym.Reach("altitude")
			sym.Eq(int64(r.ThreatIdentityAltitude.AltitudeInFeet), feet, "threat altitude")
		}
	}
	if r.ThreatIdentityRange != nil {
		sym.Reach("range")
		u(44, 50, int64(*r.ThreatIdentityRange), "threat range")
	}
	if r.ThreatIdentityBearing != nil {
		sym.Reach("bearing")
		u(51, 56, int64(*r.ThreatIdentityBearing), "threat bearing")
	}
}

// HRegister decides register 3,0.
func HRegister() {
	d := sym.Bytes("mb", 7)
	m, err := bds30.ReadACASResolutionAdvisory(d)
	sym.Assert((err == nil) == (spec.Bits(d, 1, 8) == 0x30 && spec.RAMeaningful(d, 9)), "an advisory is read exactly when it names itself and its threat altitude, if any, is one")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Assert(m.GetRegister() == register.BDS30, "register number 3,0")
	check(d, &m.ResolutionAdvisory)
}

// HBroadcast decides the broadcast of an advisory in a squitter.
func HBroadcast() {
	d := sym.Bytes("me", 7)
	d[0] = 28<<3 | 2
	m, err := reader.ReadADSBMessage(adsb.ADSBVersion(sym.Uint("version", 8)), sym.Bool("nicA"), sym.Bool("nicC"), d)
	sym.Assert((err == nil) == spec.RAMeaningful(d, 9), "an advisory is read exactly when its threat altitude, if any, is one")
	if err != nil {
		sym.Reach("refused")
		return
	}
	w, ok := m.(*aircraft_status.AircraftStatus)
	sym.Assert(ok, "an aircraft status is decoded as one")
	if !ok {
		return
	}
	v, ok := w.AircraftStatus.(*bds61.AircraftStatusACAS)
	sym.Assert(ok, "an advisory broadcast is decoded as one")
	if ok {
		check(d, &v.ResolutionAdvisory)
	}
}

// HRange decides the distance a range code stands for.
func HRange() {
	n := sym.Uint("range", 8)
	got := fields.ThreatIdentityRange(n).GetRange()
	want := float64(int64(n)-1) / 10
	if n <= 1 {
		want = 0
	}
	if n >= 127 {
		want = 12.6
	}
	sym.Near(got, want, 0.001, "range in steps of 0.1 NM, 0 for less than 0.05 and 12.6 for more than 12.55")
	sym.Reach("range")
}

// HBearing decides the angle a bearing code stands for.
func HBearing() {
	n := sym.Uint("bearing", 6)
	got := fields.ThreatIdentityBearing(n).GetBearing()
	if n == 0 {
		sym.Eq(int64(got), 0, "no bearing is 0")
	} else if n <= 60 {
		sym.Reach("bearing")
		sym.Eq(int64(got), 6*int64(n)-3, "bearing in the middle of its six degrees")
	} else {
		sym.Eq(int64(got), 363, "an unassigned bearing is 363, no angle")
	}
}
