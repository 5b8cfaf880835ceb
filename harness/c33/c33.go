// Package c33: rendered contents tell different contents apart.
package c33

import (
	"github.com/twuillemin/modes/pkg/acas/ra"
	"github.com/twuillemin/modes/pkg/acas/ra/fields"
	"github.com/twuillemin/modes/pkg/adsb/airborne_position"
	"github.com/twuillemin/modes/pkg/adsb/surface_position"
	"github.com/twuillemin/modes/pkg/bds/bds00"
	"github.com/twuillemin/modes/pkg/bds/bds05"
	"github.com/twuillemin/modes/pkg/bds/bds06"
	"github.com/twuillemin/modes/pkg/bds/bds07"
	"github.com/twuillemin/modes/pkg/bds/bds08"
	"github.com/twuillemin/modes/pkg/bds/bds09"
	"github.com/twuillemin/modes/pkg/bds/bds10"
	"github.com/twuillemin/modes/pkg/bds/bds17"
	"github.com/twuillemin/modes/pkg/bds/bds20"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds40"
	"github.com/twuillemin/modes/pkg/bds/bds44"
	"github.com/twuillemin/modes/pkg/bds/bds45"
	"github.com/twuillemin/modes/pkg/bds/bds50"
	"github.com/twuillemin/modes/pkg/bds/bds60"
	"github.com/twuillemin/modes/pkg/bds/bds61"
	"github.com/twuillemin/modes/pkg/bds/bds62"
	"github.com/twuillemin/modes/pkg/bds/bds65"
	"github.com/twuillemin/modes/pkg/modes/messages"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "every pair of plausible contents of every register format, and every pair of frames of one format, all bits symbolic"

// HBds05AirbornePosition decides what bds05.ReadAirbornePosition returns.
func HBds05AirbornePosition() {
	a, err1 := bds05.ReadAirbornePosition(sym.Bytes("a", 7))
	b, err2 := bds05.ReadAirbornePosition(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds06SurfacePosition decides what bds06.ReadSurfacePosition returns.
func HBds06SurfacePosition() {
	a, err1 := bds06.ReadSurfacePosition(sym.Bytes("a", 7))
	b, err2 := bds06.ReadSurfacePosition(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds08AircraftIdentificationAndCategory decides what bds08.ReadAircraftIdentificationAndCategory returns.
func HBds08AircraftIdentificationAndCategory() {
	a, err1 := bds08.ReadAircraftIdentificationAndCategory(sym.Bytes("a", 7))
	b, err2 := bds08.ReadAircraftIdentificationAndCategory(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds09AirborneVelocityGroundSpeedNormal decides what bds09.ReadAirborneVelocityGroundSpeedNormal returns.
func HBds09AirborneVelocityGroundSpeedNormal() {
	a, err1 := bds09.ReadAirborneVelocityGroundSpeedNormal(sym.Bytes("a", 7))
	b, err2 := bds09.ReadAirborneVelocityGroundSpeedNormal(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds09AirborneVelocityGroundSpeedSupersonic decides what bds09.ReadAirborneVelocityGroundSpeedSupersonic returns.
func HBds09AirborneVelocityGroundSpeedSupersonic() {
	a, err1 := bds09.ReadAirborneVelocityGroundSpeedSupersonic(sym.Bytes("a", 7))
	b, err2 := bds09.ReadAirborneVelocityGroundSpeedSupersonic(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds09AirborneVelocityAirSpeedNormal decides what bds09.ReadAirborneVelocityAirSpeedNormal returns.
func HBds09AirborneVelocityAirSpeedNormal() {
	a, err1 := bds09.ReadAirborneVelocityAirSpeedNormal(sym.Bytes("a", 7))
	b, err2 := bds09.ReadAirborneVelocityAirSpeedNormal(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds09AirborneVelocityAirSpeedSupersonic decides what bds09.ReadAirborneVelocityAirSpeedSupersonic returns.
func HBds09AirborneVelocityAirSpeedSupersonic() {
	a, err1 := bds09.ReadAirborneVelocityAirSpeedSupersonic(sym.Bytes("a", 7))
	b, err2 := bds09.ReadAirborneVelocityAirSpeedSupersonic(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds61AircraftStatusNoInformation decides what bds61.ReadAircraftStatusNoInformation returns.
func HBds61AircraftStatusNoInformation() {
	a, err1 := bds61.ReadAircraftStatusNoInformation(sym.Bytes("a", 7))
	b, err2 := bds61.ReadAircraftStatusNoInformation(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds61AircraftStatusEmergency decides what bds61.ReadAircraftStatusEmergency returns.
func HBds61AircraftStatusEmergency() {
	a, err1 := bds61.ReadAircraftStatusEmergency(sym.Bytes("a", 7))
	b, err2 := bds61.ReadAircraftStatusEmergency(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds61AircraftStatusACAS decides what bds61.ReadAircraftStatusACAS returns.
func HBds61AircraftStatusACAS() {
	a, err1 := bds61.ReadAircraftStatusACAS(sym.Bytes("a", 7))
	b, err2 := bds61.ReadAircraftStatusACAS(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || same(&a.ResolutionAdvisory, &b.ResolutionAdvisory), "different contents have different texts")
}

// HBds62TargetStateAndStatus0 decides what bds62.ReadTargetStateAndStatus0 returns.
func HBds62TargetStateAndStatus0() {
	a, err1 := bds62.ReadTargetStateAndStatus0(sym.Bytes("a", 7))
	b, err2 := bds62.ReadTargetStateAndStatus0(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds62TargetStateAndStatus1 decides what bds62.ReadTargetStateAndStatus1 returns.
func HBds62TargetStateAndStatus1() {
	a, err1 := bds62.ReadTargetStateAndStatus1(sym.Bytes("a", 7))
	b, err2 := bds62.ReadTargetStateAndStatus1(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds65AircraftOperationalStatusADSB0 decides what bds65.ReadAircraftOperationalStatusADSB0 returns.
func HBds65AircraftOperationalStatusADSB0() {
	a, err1 := bds65.ReadAircraftOperationalStatusADSB0(sym.Bytes("a", 7))
	b, err2 := bds65.ReadAircraftOperationalStatusADSB0(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds65AircraftOperationalStatusAirborneADSB1 decides what bds65.ReadAircraftOperationalStatusAirborneADSB1 returns.
func HBds65AircraftOperationalStatusAirborneADSB1() {
	a, err1 := bds65.ReadAircraftOperationalStatusAirborneADSB1(sym.Bytes("a", 7))
	b, err2 := bds65.ReadAircraftOperationalStatusAirborneADSB1(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds65AircraftOperationalStatusAirborneADSB2 decides what bds65.ReadAircraftOperationalStatusAirborneADSB2 returns.
func HBds65AircraftOperationalStatusAirborneADSB2() {
	a, err1 := bds65.ReadAircraftOperationalStatusAirborneADSB2(sym.Bytes("a", 7))
	b, err2 := bds65.ReadAircraftOperationalStatusAirborneADSB2(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds65AircraftOperationalStatusSurfaceADSB1 decides what bds65.ReadAircraftOperationalStatusSurfaceADSB1 returns.
func HBds65AircraftOperationalStatusSurfaceADSB1() {
	a, err1 := bds65.ReadAircraftOperationalStatusSurfaceADSB1(sym.Bytes("a", 7))
	b, err2 := bds65.ReadAircraftOperationalStatusSurfaceADSB1(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds65AircraftOperationalStatusSurfaceADSB2 decides what bds65.ReadAircraftOperationalStatusSurfaceADSB2 returns.
func HBds65AircraftOperationalStatusSurfaceADSB2() {
	a, err1 := bds65.ReadAircraftOperationalStatusSurfaceADSB2(sym.Bytes("a", 7))
	b, err2 := bds65.ReadAircraftOperationalStatusSurfaceADSB2(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds00NoMessageAvailable decides what bds00.ReadNoMessageAvailable returns.
func HBds00NoMessageAvailable() {
	a, err1 := bds00.ReadNoMessageAvailable(sym.Bytes("a", 7))
	b, err2 := bds00.ReadNoMessageAvailable(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds07Status decides what bds07.ReadStatus returns.
func HBds07Status() {
	a, err1 := bds07.ReadStatus(sym.Bytes("a", 7))
	b, err2 := bds07.ReadStatus(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds10DataLinkCapabilityReport decides what bds10.ReadDataLinkCapabilityReport returns.
func HBds10DataLinkCapabilityReport() {
	a, err1 := bds10.ReadDataLinkCapabilityReport(sym.Bytes("a", 7))
	b, err2 := bds10.ReadDataLinkCapabilityReport(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds17CommonUsageGICBCapabilityReport decides what bds17.ReadCommonUsageGICBCapabilityReport returns.
func HBds17CommonUsageGICBCapabilityReport() {
	a, err1 := bds17.ReadCommonUsageGICBCapabilityReport(sym.Bytes("a", 7))
	b, err2 := bds17.ReadCommonUsageGICBCapabilityReport(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds20AircraftIdentification decides what bds20.ReadAircraftIdentification returns.
func HBds20AircraftIdentification() {
	a, err1 := bds20.ReadAircraftIdentification(sym.Bytes("a", 7))
	b, err2 := bds20.ReadAircraftIdentification(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds30ACASResolutionAdvisory decides what bds30.ReadACASResolutionAdvisory returns.
func HBds30ACASResolutionAdvisory() {
	a, err1 := bds30.ReadACASResolutionAdvisory(sym.Bytes("a", 7))
	b, err2 := bds30.ReadACASResolutionAdvisory(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || same(&a.ResolutionAdvisory, &b.ResolutionAdvisory), "different contents have different texts")
}

// HBds40SelectedVerticalIntention decides what bds40.ReadSelectedVerticalIntention returns.
func HBds40SelectedVerticalIntention() {
	a, err1 := bds40.ReadSelectedVerticalIntention(sym.Bytes("a", 7))
	b, err2 := bds40.ReadSelectedVerticalIntention(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds44MeteorologicalRoutineAirReportV0 decides what bds44.ReadMeteorologicalRoutineAirReportV0 returns.
func HBds44MeteorologicalRoutineAirReportV0() {
	a, err1 := bds44.ReadMeteorologicalRoutineAirReportV0(sym.Bytes("a", 7))
	b, err2 := bds44.ReadMeteorologicalRoutineAirReportV0(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds44MeteorologicalRoutineAirReportV1 decides what bds44.ReadMeteorologicalRoutineAirReportV1 returns.
func HBds44MeteorologicalRoutineAirReportV1() {
	a, err1 := bds44.ReadMeteorologicalRoutineAirReportV1(sym.Bytes("a", 7))
	b, err2 := bds44.ReadMeteorologicalRoutineAirReportV1(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds44MeteorologicalRoutineAirReportV2 decides what bds44.ReadMeteorologicalRoutineAirReportV2 returns.
func HBds44MeteorologicalRoutineAirReportV2() {
	a, err1 := bds44.ReadMeteorologicalRoutineAirReportV2(sym.Bytes("a", 7))
	b, err2 := bds44.ReadMeteorologicalRoutineAirReportV2(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds45MeteorologicalHazardReportV0 decides what bds45.ReadMeteorologicalHazardReportV0 returns.
func HBds45MeteorologicalHazardReportV0() {
	a, err1 := bds45.ReadMeteorologicalHazardReportV0(sym.Bytes("a", 7))
	b, err2 := bds45.ReadMeteorologicalHazardReportV0(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds45MeteorologicalHazardReportV1 decides what bds45.ReadMeteorologicalHazardReportV1 returns.
func HBds45MeteorologicalHazardReportV1() {
	a, err1 := bds45.ReadMeteorologicalHazardReportV1(sym.Bytes("a", 7))
	b, err2 := bds45.ReadMeteorologicalHazardReportV1(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds50TrackAndTurnReport decides what bds50.ReadTrackAndTurnReport returns.
func HBds50TrackAndTurnReport() {
	a, err1 := bds50.ReadTrackAndTurnReport(sym.Bytes("a", 7))
	b, err2 := bds50.ReadTrackAndTurnReport(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HBds60HeadingAndSpeedReport decides what bds60.ReadHeadingAndSpeedReport returns.
func HBds60HeadingAndSpeedReport() {
	a, err1 := bds60.ReadHeadingAndSpeedReport(sym.Bytes("a", 7))
	b, err2 := bds60.ReadHeadingAndSpeedReport(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// same compares two advisories.
func same(a, b *ra.ResolutionAdvisory) bool {
	switch x := a.ActiveRA.(type) {
	case *fields.ActiveRAOneThreatOrSameSeparation:
		if y, ok := b.ActiveRA.(*fields.ActiveRAOneThreatOrSameSeparation); !ok || *x != *y {
			return false
		}
	case *fields.ActiveRAMultipleThreatsDifferentSeparation:
		if y, ok := b.ActiveRA.(*fields.ActiveRAMultipleThreatsDifferentSeparation); !ok || *x != *y {
			return false
		}
	default:
		if a.ActiveRA != b.ActiveRA {
			return false
		}
	}
	if a.RAComplement != b.RAComplement || a.RATerminatedIndicator != b.RATerminatedIndicator ||
		a.MultipleThreatEncounter != b.MultipleThreatEncounter || a.ThreatTypeIndicator != b.ThreatTypeIndicator {
		return false
	}
	switch a.ThreatTypeIndicator {
	case fields.ThreatTypeModeS:
		return *a.ThreatIdentityAddress == *b.ThreatIdentityAddress
	case fields.ThreatTypeAltitudeRangeBearing:
		return *a.ThreatIdentityAltitude == *b.ThreatIdentityAltitude && *a.ThreatIdentityRange == *b.ThreatIdentityRange && *a.ThreatIdentityBearing == *b.ThreatIdentityBearing
	}
	return true
}

// HAdvisory decides resolution advisories.
func HAdvisory() {
	a, err1 := ra.ReadResolutionAdvisory(sym.Bytes("a", 6))
	b, err2 := ra.ReadResolutionAdvisory(sym.Bytes("b", 6))
	if err1 != nil || err2 != nil {
		return
	}
	sym.Reach("two advisories")
	sym.Assert(a.ToString() != b.ToString() || same(a, b), "different contents have different texts")
}

// HAirbornePositionV0 decides AirbornePositionV0.
func HAirbornePositionV0() {
	a, err1 := airborne_position.ReadAirbornePositionV0(sym.Bytes("a", 7))
	b, err2 := airborne_position.ReadAirbornePositionV0(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HAirbornePositionV1 decides AirbornePositionV1.
func HAirbornePositionV1() {
	a, err1 := airborne_position.ReadAirbornePositionV1(sym.Bytes("a", 7), sym.Bool("nicAa"))
	b, err2 := airborne_position.ReadAirbornePositionV1(sym.Bytes("b", 7), sym.Bool("nicAb"))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HAirbornePositionV2 decides AirbornePositionV2.
func HAirbornePositionV2() {
	a, err1 := airborne_position.ReadAirbornePositionV2(sym.Bytes("a", 7), sym.Bool("nicAa"))
	b, err2 := airborne_position.ReadAirbornePositionV2(sym.Bytes("b", 7), sym.Bool("nicAb"))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HSurfacePositionV0 decides SurfacePositionV0.
func HSurfacePositionV0() {
	a, err1 := surface_position.ReadSurfacePositionV0(sym.Bytes("a", 7))
	b, err2 := surface_position.ReadSurfacePositionV0(sym.Bytes("b", 7))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HSurfacePositionV1 decides SurfacePositionV1.
func HSurfacePositionV1() {
	a, err1 := surface_position.ReadSurfacePositionV1(sym.Bytes("a", 7), sym.Bool("nicAa"))
	b, err2 := surface_position.ReadSurfacePositionV1(sym.Bytes("b", 7), sym.Bool("nicAb"))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// HSurfacePositionV2 decides SurfacePositionV2.
func HSurfacePositionV2() {
	a, err1 := surface_position.ReadSurfacePositionV2(sym.Bytes("a", 7), sym.Bool("nicAa"), sym.Bool("nicCa"))
	b, err2 := surface_position.ReadSurfacePositionV2(sym.Bytes("b", 7), sym.Bool("nicAb"), sym.Bool("nicCb"))
	if err1 != nil || err2 != nil || a.CheckCoherency() != nil || b.CheckCoherency() != nil {
		return
	}
	sym.Reach("two contents")
	sym.Assert(a.ToString() != b.ToString() || *a == *b, "different contents have different texts")
}

// same2 compares two lists of bytes.
func same2(a, b []byte) bool {
	ok := len(a) == len(b)
	for i := range a {
		ok = ok && a[i] == b[i]
	}
	return ok
}

// frames reads two frames of a format.
func frames(df byte, n int) (messages.ModeSMessage, messages.ModeSMessage) {
	f, g := sym.Bytes("a", n), sym.Bytes("b", n)
	if df == 24 {
		sym.Assume(f[0]>>6 == 3 && g[0]>>6 == 3)
	} else {
		sym.Assume(f[0]>>3 == df && g[0]>>3 == df)
	}
	a, err1 := modesreader.ReadMessage(f)
	b, err2 := modesreader.ReadMessage(g)
	if err1 != nil || err2 != nil {
		return nil, nil
	}
	sym.Reach("two frames")
	return a, b
}

// HFrame0 decides frames of downlink format 0.
func HFrame0() {
	p, q := frames(0, 7)
	a, ok1 := p.(*messages.MessageDF0)
	b, ok2 := q.(*messages.MessageDF0)
	if ok1 && ok2 {
		sym.Assert(p.ToString() != q.ToString() || a.VerticalStatus == b.VerticalStatus && a.CrossLinkCapability == b.CrossLinkCapability && a.SensitivityLevel == b.SensitivityLevel && a.ReplyInformation == b.ReplyInformation && a.AltitudeReportMethod == b.AltitudeReportMethod && a.Altitude == b.Altitude, "different frames have different texts")
	}
}

// HFrame4 decides frames of downlink format 4.
func HFrame4() {
	p, q := frames(4, 7)
	a, ok1 := p.(*messages.MessageDF4)
	b, ok2 := q.(*messages.MessageDF4)
	if ok1 && ok2 {
		sym.Assert(p.ToString() != q.ToString() || a.FlightStatus == b.FlightStatus && a.DownlinkRequest == b.DownlinkRequest && a.UtilityMessage == b.UtilityMessage && a.AltitudeReportMethod == b.AltitudeReportMethod && a.Altitude == b.Altitude, "different frames have different texts")
	}
}

// HFrame5 decides frames of downlink format 5.
func HFrame5() {
	p, q := frames(5, 7)
	a, ok1 := p.(*messages.MessageDF5)
	b, ok2 := q.(*messages.MessageDF5)
	if ok1 && ok2 {
		sym.Assert(p.ToString() != q.ToString() || a.FlightStatus == b.FlightStatus && a.DownlinkRequest == b.DownlinkRequest && a.UtilityMessage == b.UtilityMessage && a.Identity == b.Identity, "different frames have different texts")
	}
}

// HFrame11 decides frames of downlink format 11.
func HFrame11() {
	p, q := frames(11, 7)
	a, ok1 := p.(*messages.MessageDF11)
	b, ok2 := q.(*messages.MessageDF11)
	if ok1 && ok2 {
		sym.Assert(p.ToString() != q.ToString() || a.Capability == b.Capability && a.AddressAnnounced == b.AddressAnnounced, "different frames have different texts")
	}
}

// HFrame16 decides frames of downlink format 16.
func HFrame16() {
	p, q := frames(16, 14)
	a, ok1 := p.(*messages.MessageDF16)
	b, ok2 := q.(*messages.MessageDF16)
	if ok1 && ok2 {
		sym.Assert(p.ToString() != q.ToString() || a.VerticalStatus == b.VerticalStatus && a.SensitivityLevel == b.SensitivityLevel && a.ReplyInformation == b.ReplyInformation && a.AltitudeReportMethod == b.AltitudeReportMethod && a.Altitude == b.Altitude && same2(a.MessageACAS[:], b.MessageACAS[:]), "different frames have different texts")
	}
}

// HFrame17 decides frames of downlink format 17.
func HFrame17() {
	p, q := frames(17, 14)
	a, ok1 := p.(*messages.MessageDF17)
	b, ok2 := q.(*messages.MessageDF17)
	if ok1 && ok2 {
		sym.Assert(p.ToString() != q.ToString() || a.Capability == b.Capability && a.AddressAnnounced == b.AddressAnnounced && same2(a.MessageExtendedSquitter[:], b.MessageExtendedSquitter[:]), "different frames have different texts")
	}
}

// HFrame18 decides frames of downlink format 18.
func HFrame18() {
	p, q := frames(18, 14)
	a, ok1 := p.(*messages.MessageDF18)
	b, ok2 := q.(*messages.MessageDF18)
	if ok1 && ok2 {
		sym.Assert(p.ToString() != q.ToString() || a.ControlField == b.ControlField && a.AddressAnnounced == b.AddressAnnounced && same2(a.MessageExtendedSquitter[:], b.MessageExtendedSquitter[:]), "different frames have different texts")
	}
}

// HFrame19 decides frames of downlink format 19.
func HFrame19() {
	p, q := frames(19, 14)
	a, ok1 := p.(*messages.MessageDF19)
	b, ok2 := q.(*messages.MessageDF19)
	if ok1 && ok2 {
		sym.Assert(p.ToString() != q.ToString() || a.ApplicationField == b.ApplicationField, "different frames have different texts")
	}
}

// HFrame20 decides frames of downlink format 20.
func HFrame20() {
	p, q := frames(20, 14)
	a, ok1 := p.(*messages.MessageDF20)
	b, ok2 := q.(*messages.MessageDF20)
	if ok1 && ok2 {
		sym.Assert(p.ToString() != q.ToString() || a.FlightStatus == b.FlightStatus && a.DownlinkRequest == b.DownlinkRequest && a.UtilityMessage == b.UtilityMessage && a.AltitudeReportMethod == b.AltitudeReportMethod && a.Altitude == b.Altitude && same2(a.MessageCommB[:], b.MessageCommB[:]), "different frames have different texts")
	}
}

// HFrame21 decides frames of downlink format 21.
func HFrame21() {
	p, q := frames(21, 14)
	a, ok1 := p.(*messages.MessageDF21)
	b, ok2 := q.(*messages.MessageDF21)
	if ok1 && ok2 {
		sym.Assert(p.ToString() != q.ToString() || a.FlightStatus == b.FlightStatus && a.DownlinkRequest == b.DownlinkRequest && a.UtilityMessage == b.UtilityMessage && a.Identity == b.Identity && same2(a.MessageCommB[:], b.MessageCommB[:]), "different frames have different texts")
	}
}

// HFrame24 decides frames of downlink format 24.
func HFrame24() {
	p, q := frames(24, 14)
	a, ok1 := p.(*messages.MessageDF24)
	b, ok2 := q.(*messages.MessageDF24)
	if ok1 && ok2 {
		sym.Assert(p.ToString() != q.ToString() || a.ControlELM == b.ControlELM && a.NumberOfDSegment == b.NumberOfDSegment && same2(a.MessageCommD[:], b.MessageCommD[:]), "different frames have different texts")
	}
}
