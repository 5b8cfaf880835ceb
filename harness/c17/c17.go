// Package c17: status and capability registers give the encoded bits.
package c17

import (
	"github.com/twuillemin/modes/pkg/bds/bds00"
	"github.com/twuillemin/modes/pkg/bds/bds07"
	"github.com/twuillemin/modes/pkg/bds/bds10"
	"github.com/twuillemin/modes/pkg/bds/bds17"
	"github.com/twuillemin/modes/pkg/bds/register"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "all 56 bits of registers 0,0 0,7 1,0 and 1,7"

func bits(d []byte, first, last int, got int64, label string) {
	sym.Eq(got, int64(spec.Bits(d, first, last)), label)
}

// HEmpty decides the empty register.
func HEmpty() {
	d := sym.Bytes("mb", 7)
	m, err := bds00.ReadNoMessageAvailable(d)
	sym.Assert((err == nil) == (spec.Bits(d, 1, 56) == 0), "the empty register is read exactly when all bits are zero")
	if err == nil {
		sym.Reach("empty")
		sym.Assert(m.GetRegister() == register.BDS00, "register number 0,0")
	} else {
		sym.Reach("refused")
	}
}

// HStatus decides the status register.
func HStatus() {
	d := sym.Bytes("mb", 7)
	m, err := bds07.ReadStatus(d)
	sym.Assert((err == nil) == (spec.Bits(d, 4, 56) == 0), "the status register is read exactly when its reserved bits are zero")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("status")
	sym.Assert(m.GetRegister() == register.BDS07, "register number 0,7")
	bits(d, 1, 2, int64(m.TransmissionRateSubfield), "transmission rate")
	bits(d, 3, 3, int64(m.AltitudeTypeSubfield), "altitude type")
}

// HCapability decides the data link capability report.
func HCapability() {
	d := sym.Bytes("mb", 7)
	m, err := bds10.ReadDataLinkCapabilityReport(d)
	sym.Assert((err == nil) == (spec.Bits(d, 1, 8) == 0x10 && spec.Bits(d, 10, 14) == 0), "the capability report is read exactly when it names itself and its reserved bits are zero")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("capability")
	sym.Assert(m.GetRegister() == register.BDS10, "register number 1,0")
	bits(d, 9, 9, int64(m.ContinuationFlag), "continuation flag")
	bits(d, 15, 15, int64(m.OverlayCommandCapability), "overlay command capability")
	bits(d, 16, 16, int64(m.ACASStatus), "ACAS status")
	bits(d, 17, 23, int64(m.ModeSSubnetworkVersion), "subnetwork version")
	bits(d, 24, 24, int64(m.TransponderEnhancedProtocolIndicator), "enhanced protocol")
	bits(d, 25, 25, int64(m.ModeSSpecificServicesCapability), "specific services")
	bits(d, 26, 28, int64(m.UplinkELMThroughputCapability), "uplink throughput")
	bits(d, 29, 32, int64(m.DownlinkELMThroughputCapability), "downlink throughput")
	bits(d, 33, 33, int64(m.AircraftIdentificationCapability), "identification capability")
	bits(d, 34, 34, int64(m.SquitterCapabilitySubfield), "squitter capability")
	bits(d, 35, 35, int64(m.SurveillanceIdentifierCode), "surveillance identifier code")
	bits(d, 36, 36, int64(m.CommonUsageGICBCapability), "common usage capability")
	bits(d, 37, 37, int64(m.ACASHybridSurveillanceCapability), "hybrid surveillance")
	bits(d, 38, 38, int64(m.ACASGenerationCapability), "advisory generation")
	bits(d, 39, 40, int64(m.ACASApplicableDocument), "applicable document")
	bits(d, 41, 56, int64(m.DTESubAddressStatuses), "terminal sub-addresses")
}

// HCommonUsage decides the common usage capability report.
func HCommonUsage() {
	d := sym.Bytes("mb", 7)
	m, err := bds17.ReadCommonUsageGICBCapabilityReport(d)
	sym.Assert((err == nil) == (spec.Bits(d, 30, 56) == 0), "the common usage report is read exactly when its reserved bits are zero")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("common usage")
	sym.Assert(m.GetRegister() == register.BDS17, "register number 1,7")
	flag := func(n int, b bool, label string) { bits(d, n, n, spec.B2I(b), label) }
	flag(1, m.ExtendedSquitterAirbornePosition, "airborne position")
	flag(2, m.ExtendedSquitterSurfacePosition, "surface position")
	flag(3, m.ExtendedSquitterStatus, "squitter status")
	flag(4, m.ExtendedSquitterIdentificationAndCategory, "identification and category")
	flag(5, m.ExtendedSquitterAirborneVelocityInformation, "airborne velocity")
	flag(6, m.ExtendedSquitterEventDrivenInformation, "event driven information")
	flag(7, m.AircraftIdentification, "aircraft identification")
	flag(8, m.AircraftRegistrationNumber, "registration number")
	flag(9, m.SelectedVerticalIntention, "selected vertical intention")
	flag(10, m.NextWaypointIdentifier, "next waypoint identifier")
	flag(11, m.NextWaypointPosition, "next waypoint position")
	flag(12, m.NextWaypointInformation, "next waypoint information")
	flag(13, m.MeteorologicalRoutineReport, "meteorological routine report")
	flag(14, m.MeteorologicalHazardReport, "meteorological hazard report")
	flag(15, m.VHFChannelReport, "VHF channel report")
	flag(16, m.TrackAndTurnReport, "track and turn report")
	flag(17, m.PositionCoarse, "position coarse")
	flag(18, m.PositionFine, "position fine")
	flag(19, m.AirReferencedStateVector, "air referenced state vector")
	flag(20, m.Waypoint1, "waypoint 1")
	flag(21, m.Waypoint2, "waypoint 2")
	flag(22, m.Waypoint3, "waypoint 3")
	flag(23, m.QuasiStaticParameterMonitoring, "quasi-static parameter monitoring")
	flag(24, m.HeadingAndSpeedReport, "heading and speed report")
	flag(29, m.MilitaryApplications, "military applications")
}
