// Package c31: plausibility verdicts reject every impossible register content.
package c31

import (
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_identification_and_category"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_status"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/bds/bds00"
	"github.com/twuillemin/modes/pkg/bds/bds07"
	"github.com/twuillemin/modes/pkg/bds/bds10"
	"github.com/twuillemin/modes/pkg/bds/bds17"
	"github.com/twuillemin/modes/pkg/bds/bds20"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds40"
	"github.com/twuillemin/modes/pkg/bds/bds44"
	"github.com/twuillemin/modes/pkg/bds/bds45"
	"github.com/twuillemin/modes/pkg/bds/bds50"
	"github.com/twuillemin/modes/pkg/bds/bds60"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "all 56 bits of registers 0,0 0,7 1,0 1,7 2,0 3,0 4,0 4,4 4,5 (each format) 5,0 6,0 and of identification and status squitters at every version"

// HSimple decides the registers without status bits.
func HSimple() {
	d := sym.Bytes("mb", 7)
	if m, err := bds00.ReadNoMessageAvailable(d); err == nil {
		sym.Reach("empty")
		sym.Assert(m.CheckCoherency() == nil, "the empty register is plausible")
	}
	if m, err := bds07.ReadStatus(d); err == nil {
		sym.Reach("status")
		sym.Assert((m.CheckCoherency() == nil) == (spec.Bits(d, 1, 2) != 3), "the status register is plausible unless its rate is reserved")
	}
	if m, err := bds17.ReadCommonUsageGICBCapabilityReport(d); err == nil {
		sym.Reach("common usage")
		sym.Assert(m.CheckCoherency() == nil, "the common usage register is plausible")
	}
	if m, err := bds30.ReadACASResolutionAdvisory(d); err == nil {
		sym.Reach("advisory")
		sym.Assert(m.CheckCoherency() == nil, "a resolution advisory is plausible")
	}
}

// HCapability decides the data link capability report.
func HCapability() {
	d := sym.Bytes("mb", 7)
	m, err := bds10.ReadDataLinkCapabilityReport(d)
	if err != nil {
		return
	}
	sym.Assert((m.CheckCoherency() == nil) == spec.PlausibleCapability(d), "a capability report is plausible when it has no reserved code and, with ACAS off, no ACAS capability")
	if m.CheckCoherency() == nil {
		sym.Reach("plausible")
	} else {
		sym.Reach("implausible")
	}
}

// HIdentification decides the identification register.
func HIdentification() {
	d := sym.Bytes("mb", 7)
	d[0] = 0x20
	m, err := bds20.ReadAircraftIdentification(d)
	if err != nil {
		return
	}
	sym.Reach("read")
	sym.Assert((m.CheckCoherency() == nil) == spec.CallSignLegal(d), "an identification is plausible exactly when all its characters are legal")
}

// HSquitter decides identification and status squitters, alone and as wrapped by the dispatcher.
func HSquitter() {
	d := sym.Bytes("me", 7)
	tc := spec.Bits(d, 1, 5)
	sym.Assume(tc >= 1 && tc <= 4 || tc == 28)
	m, err := reader.ReadADSBMessage(adsb.ADSBVersion(sym.Uint("version", 8)), sym.Bool("nicA"), sym.Bool("nicC"), d)
	if err != nil {
		return
	}
	switch v := m.(type) {
	case *aircraft_identification_and_category.AircraftIdentificationAndCategory:
		sym.Reach("identification")
		cat := spec.Bits(d, 6, 8)
		ok := spec.CallSignLegal(d) && tc != 1 && !(tc == 2 && cat > 3)
		sym.Assert((v.CheckCoherency() == nil) == ok, "an identification squitter is plausible exactly when its characters are legal and its category is not reserved")
		sym.Assert((v.AircraftIdentificationAndCategory.CheckCoherency() == nil) == ok, "the identification inside is judged alike")
	case *aircraft_status.AircraftStatus:
		sym.Reach("status")
		ok := true
		switch spec.Bits(d, 6, 8) {
		case 0:
			ok = spec.Bits(d, 9, 11) == 0
		case 1:
			ok = spec.Bits(d, 9, 11) != 7
		}
		sym.Assert((v.CheckCoherency() == nil) == ok, "a status squitter is plausible exactly when its emergency state is not reserved")
		sym.Assert((v.AircraftStatus.CheckCoherency() == nil) == ok, "the status inside is judged alike")
	}
}

// HVerticalIntention decides register 4,0.
func HVerticalIntention() {
	d := sym.Bytes("mb", 7)
	m, err := bds40.ReadSelectedVerticalIntention(d)
	if err != nil {
		return
	}
	ok := spec.Plausible40(d)
	sym.Assert((m.CheckCoherency() == nil) == ok, "register 4,0 is plausible exactly when something is available and nothing unavailable is given")
	if ok {
		sym.Reach("plausible")
	}
}

// HRoutine decides register 4,4 in each format.
func HRoutine() {
	d := sym.Bytes("mb", 7)
	if m, err := bds44.ReadMeteorologicalRoutineAirReportV0(d); err == nil {
		sym.Reach("V0")
		sym.Assert((m.CheckCoherency() == nil) == spec.Plausible44V0(d), "register 4,4 in its first format is plausible exactly when it contradicts nothing")
	}
	if m, err := bds44.ReadMeteorologicalRoutineAirReportV1(d); err == nil {
		sym.Reach("V1")
		sym.Assert((m.CheckCoherency() == nil) == spec.Plausible44V1(d), "register 4,4 in its revised format is plausible exactly when it contradicts nothing")
	}
	if m, err := bds44.ReadMeteorologicalRoutineAirReportV2(d); err == nil {
		sym.Reach("V2")
		sym.Assert((m.CheckCoherency() == nil) == (spec.Plausible44V1(d) && spec.Bits(d, 1, 4) <= 4), "register 4,4 in its mixed format is plausible exactly when it contradicts nothing")
	}
}

// HHazard decides register 4,5 in each format.
func HHazard() {
	d := sym.Bytes("mb", 7)
	if m, err := bds45.ReadMeteorologicalHazardReportV0(d); err == nil {
		sym.Reach("V0")
		sym.Assert((m.CheckCoherency() == nil) == spec.Plausible45V0(d), "register 4,5 in its first format is plausible exactly when it contradicts nothing")
	}
	if m, err := bds45.ReadMeteorologicalHazardReportV1(d); err == nil {
		sym.Reach("V1")
		sym.Assert((m.CheckCoherency() == nil) == spec.Plausible45V1(d), "register 4,5 in its revised format is plausible exactly when it contradicts nothing")
	}
}

// HTrackAndTurn decides register 5,0.
func HTrackAndTurn() {
	d := sym.Bytes("mb", 7)
	m, err := bds50.ReadTrackAndTurnReport(d)
	if err != nil {
		return
	}
	ok := spec.Plausible50(d)
	sym.Assert((m.CheckCoherency() == nil) == ok, "register 5,0 is plausible exactly when it contradicts nothing")
	if ok {
		sym.Reach("plausible")
	}
}

// HHeadingAndSpeed decides register 6,0.
func HHeadingAndSpeed() {
	d := sym.Bytes("mb", 7)
	m, err := bds60.ReadHeadingAndSpeedReport(d)
	if err != nil {
		return
	}
	ok := spec.Plausible60(d)
	sym.Assert((m.CheckCoherency() == nil) == ok, "register 6,0 is plausible exactly when it contradicts nothing")
	if ok {
		sym.Reach("plausible")
	}
}
