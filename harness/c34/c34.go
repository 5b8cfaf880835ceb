// Package c34: a labelled line shows the value its label names.
package c34

import (
	"fmt"

	"github.com/twuillemin/modes/pkg/acas/ra"
	"github.com/twuillemin/modes/pkg/acas/ra/fields"
	"github.com/twuillemin/modes/pkg/adsb/airborne_position"
	"github.com/twuillemin/modes/pkg/adsb/surface_position"
	"github.com/twuillemin/modes/pkg/bds/bds00"
	"github.com/twuillemin/modes/pkg/bds/bds05"
	"github.com/twuillemin/modes/pkg/bds/bds06"
	"github.com/twuillemin/modes/pkg/bds/bds07"
	"github.com/twuillemin/modes/pkg/bds/bds08"
	"github.com/twuillemin/modes/pkg/bds/bds09"
	"github.com/twuillemin/modes/pkg/bds/bds10"
	"github.com/twuillemin/modes/pkg/bds/bds17"
	"github.com/twuillemin/modes/pkg/bds/bds20"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds40"
	"github.com/twuillemin/modes/pkg/bds/bds44"
	"github.com/twuillemin/modes/pkg/bds/bds45"
	"github.com/twuillemin/modes/pkg/bds/bds50"
	"github.com/twuillemin/modes/pkg/bds/bds60"
	"github.com/twuillemin/modes/pkg/bds/bds61"
	"github.com/twuillemin/modes/pkg/bds/bds62"
	"github.com/twuillemin/modes/pkg/bds/bds65"
	"github.com/twuillemin/modes/pkg/modes/messages"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "every plausible content of every register format and every frame of each downlink format, all bits symbolic"

// shows decides that the line with this label shows the value, or the first
// line of a value of several lines.
func shows(text, label, value string) {
	got, ok := sym.Labelled(text, label)
	first, _ := sym.Labelled(value, "")
	sym.Assert(ok && got == first, "line "+label)
}

func frame(df byte, n int) messages.ModeSMessage {
	f := sym.Bytes("a", n)
	if df == 24 {
		sym.Assume(f[0]>>6 == 3)
	} else {
		sym.Assume(f[0]>>3 == df)
	}
	m, err := modesreader.ReadMessage(f)
	if err != nil {
		return nil
	}
	sym.Reach("a frame")
	return m
}

// HBds05AirbornePosition decides what bds05.ReadAirbornePosition returns.
func HBds05AirbornePosition() {
	a, err := bds05.ReadAirbornePosition(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Format Type Code:", fmt.Sprint(a.FormatTypeCode))
	shows(t, "Surveillance Status:", a.SurveillanceStatus.ToString())
	shows(t, "Single Antenna Flag:", a.SingleAntennaFlag.ToString())
	shows(t, "Altitude Source:", a.AltitudeSource.ToString())
	shows(t, "Altitude Report Method:", a.AltitudeReportMethod.ToString())
	shows(t, "Altitude (feet):", fmt.Sprint(a.AltitudeInFeet))
	shows(t, "Time:", a.Time.ToString())
	shows(t, "Compact Position Reporting Format:", a.CPRFormat.ToString())
	shows(t, "Encoded Latitude:", fmt.Sprint(a.EncodedLatitude))
	shows(t, "Encoded Longitude:", fmt.Sprint(a.EncodedLongitude))
}

// HBds06SurfacePosition decides what bds06.ReadSurfacePosition returns.
func HBds06SurfacePosition() {
	a, err := bds06.ReadSurfacePosition(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Format Type Code:", fmt.Sprint(a.FormatTypeCode))
	shows(t, "Movement Status:", a.MovementStatus.ToString())
	shows(t, "Movement Speed (knots):", fmt.Sprint(a.MovementSpeed))
	shows(t, "Ground Track Status:", fmt.Sprint(a.GroundTrackStatus))
	shows(t, "Ground Track (degrees):", fmt.Sprint(a.GroundTrack))
	shows(t, "Time:", a.Time.ToString())
	shows(t, "Compact Position Reporting Format:", a.CPRFormat.ToString())
	shows(t, "Encoded Latitude:", fmt.Sprint(a.EncodedLatitude))
	shows(t, "Encoded Longitude:", fmt.Sprint(a.EncodedLongitude))
}

// HBds08AircraftIdentificationAndCategory decides what bds08.ReadAircraftIdentificationAndCategory returns.
func HBds08AircraftIdentificationAndCategory() {
	a, err := bds08.ReadAircraftIdentificationAndCategory(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Format Type Code:", fmt.Sprint(a.FormatTypeCode))
	shows(t, "Category:", a.Category.ToString())
	shows(t, "Identification:", fmt.Sprint(a.Identification))
}

// HBds09AirborneVelocityGroundSpeedNormal decides what bds09.ReadAirborneVelocityGroundSpeedNormal returns.
func HBds09AirborneVelocityGroundSpeedNormal() {
	a, err := bds09.ReadAirborneVelocityGroundSpeedNormal(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Subtype:", a.Subtype.ToString())
	shows(t, "Intent Change:", a.IntentChange.ToString())
	shows(t, "IFR Capability:", a.IFRCapability.ToString())
	shows(t, "Navigation Uncertainty Category:", a.NavigationUncertaintyCategory.ToString())
	shows(t, "Direction EW:", a.DirectionEastWest.ToString())
	shows(t, "Velocity EW Status:", a.VelocityEWStatus.ToString())
	shows(t, "Velocity EW (knots):", fmt.Sprint(a.VelocityEW))
	shows(t, "Direction NS:", a.DirectionNorthSouth.ToString())
	shows(t, "Velocity NS Status:", a.VelocityNSStatus.ToString())
	shows(t, "Velocity NS (knots):", fmt.Sprint(a.VelocityNS))
	shows(t, "Vertical Rate Source:", a.VerticalRateSource.ToString())
	shows(t, "Vertical Rate Status:", a.VerticalRateStatus.ToString())
	shows(t, "Vertical Rate (ft/min):", fmt.Sprint(a.VerticalRate))
	shows(t, "Difference Alt. GNSS Baro Status:", a.DifferenceAltitudeGNSSBaroStatus.ToString())
	shows(t, "Difference Alt. GNSS Baro (ft):", fmt.Sprint(a.DifferenceAltitudeGNSSBaro))
}

// HBds09AirborneVelocityGroundSpeedSupersonic decides what bds09.ReadAirborneVelocityGroundSpeedSupersonic returns.
func HBds09AirborneVelocityGroundSpeedSupersonic() {
	a, err := bds09.ReadAirborneVelocityGroundSpeedSupersonic(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Subtype:", a.Subtype.ToString())
	shows(t, "Intent Change:", a.IntentChange.ToString())
	shows(t, "IFR Capability:", a.IFRCapability.ToString())
	shows(t, "Navigation Uncertainty Category:", a.NavigationUncertaintyCategory.ToString())
	shows(t, "Direction EW:", a.DirectionEastWest.ToString())
	shows(t, "Velocity EW Status:", a.VelocityEWStatus.ToString())
	shows(t, "Velocity EW (knots):", fmt.Sprint(a.VelocityEW))
	shows(t, "Direction NS:", a.DirectionNorthSouth.ToString())
	shows(t, "Velocity NS Status:", a.VelocityNSStatus.ToString())
	shows(t, "Velocity NS (knots):", fmt.Sprint(a.VelocityNS))
	shows(t, "Vertical Rate Source:", a.VerticalRateSource.ToString())
	shows(t, "Vertical Rate Status:", a.VerticalRateStatus.ToString())
	shows(t, "Vertical Rate (ft/min):", fmt.Sprint(a.VerticalRate))
	shows(t, "Difference Alt. GNSS Baro Status:", a.DifferenceAltitudeGNSSBaroStatus.ToString())
	shows(t, "Difference Alt. GNSS Baro (ft):", fmt.Sprint(a.DifferenceAltitudeGNSSBaro))
}

// HBds09AirborneVelocityAirSpeedNormal decides what bds09.ReadAirborneVelocityAirSpeedNormal returns.
func HBds09AirborneVelocityAirSpeedNormal() {
	a, err := bds09.ReadAirborneVelocityAirSpeedNormal(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Subtype:", a.Subtype.ToString())
	shows(t, "Intent Change:", a.IntentChange.ToString())
	shows(t, "IFR Capability:", a.IFRCapability.ToString())
	shows(t, "Navigation Uncertainty Category:", a.NavigationUncertaintyCategory.ToString())
	shows(t, "Magnetic Heading Status:", a.MagneticHeadingStatus.ToString())
	shows(t, "Magnetic Heading (degrees):", fmt.Sprint(a.MagneticHeading))
	shows(t, "Air Speed Status:", a.AirspeedStatus.ToString())
	shows(t, "Air Speed (knots):", fmt.Sprint(a.Airspeed))
	shows(t, "Vertical Rate Source:", a.VerticalRateSource.ToString())
	shows(t, "Vertical Rate Status:", a.VerticalRateStatus.ToString())
	shows(t, "Vertical Rate (ft/min):", fmt.Sprint(a.VerticalRate))
	shows(t, "Geom. Height Diff. From Baro Status:", a.HeightDifferenceFromBaroStatus.ToString())
	shows(t, "Geom. Height Diff. From Baro (ft):", fmt.Sprint(a.HeightDifferenceFromBaro))
}

// HBds09AirborneVelocityAirSpeedSupersonic decides what bds09.ReadAirborneVelocityAirSpeedSupersonic returns.
func HBds09AirborneVelocityAirSpeedSupersonic() {
	a, err := bds09.ReadAirborneVelocityAirSpeedSupersonic(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Subtype:", a.Subtype.ToString())
	shows(t, "Intent Change:", a.IntentChange.ToString())
	shows(t, "IFR Capability:", a.IFRCapability.ToString())
	shows(t, "Navigation Uncertainty Category:", a.NavigationUncertaintyCategory.ToString())
	shows(t, "Magnetic Heading Status:", a.MagneticHeadingStatus.ToString())
	shows(t, "Magnetic Heading (degrees):", fmt.Sprint(a.MagneticHeading))
	shows(t, "Air Speed Status:", a.AirspeedStatus.ToString())
	shows(t, "Air Speed (knots):", fmt.Sprint(a.Airspeed))
	shows(t, "Vertical Rate Source:", a.VerticalRateSource.ToString())
	shows(t, "Vertical Rate Status:", a.VerticalRateStatus.ToString())
	shows(t, "Vertical Rate (ft/min):", fmt.Sprint(a.VerticalRate))
	shows(t, "Geom. Height Diff. From Baro Status:", a.HeightDifferenceFromBaroStatus.ToString())
	shows(t, "Geom. Height Diff. From Baro (ft):", fmt.Sprint(a.HeightDifferenceFromBaro))
}

// HBds61AircraftStatusNoInformation decides what bds61.ReadAircraftStatusNoInformation returns.
func HBds61AircraftStatusNoInformation() {
	a, err := bds61.ReadAircraftStatusNoInformation(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Subtype:", a.Subtype.ToString())
	shows(t, "Emergency State:", a.EmergencyPriorityStatus.ToString())
}

// HBds61AircraftStatusEmergency decides what bds61.ReadAircraftStatusEmergency returns.
func HBds61AircraftStatusEmergency() {
	a, err := bds61.ReadAircraftStatusEmergency(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Subtype:", a.Subtype.ToString())
	shows(t, "Emergeny State:", a.EmergencyPriorityStatus.ToString())
	shows(t, "Mode A Code:", fmt.Sprint(a.ModeACode))
}

// HBds61AircraftStatusACAS decides what bds61.ReadAircraftStatusACAS returns.
func HBds61AircraftStatusACAS() {
	a, err := bds61.ReadAircraftStatusACAS(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Subtype:", a.Subtype.ToString())
}

// HBds62TargetStateAndStatus0 decides what bds62.ReadTargetStateAndStatus0 returns.
func HBds62TargetStateAndStatus0() {
	a, err := bds62.ReadTargetStateAndStatus0(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Subtype:", a.GetSubtype().ToString())
	shows(t, "Vertical Data Available / Source Indicator:", a.VerticalDataAvailableSourceIndicator.ToString())
	shows(t, "Target Altitude Type:", a.TargetAltitudeType.ToString())
	shows(t, "Target Altitude Capability:", a.TargetAltitudeCapability.ToString())
	shows(t, "Vertical Mode Indicator:", a.VerticalModeIndicator.ToString())
	shows(t, "Target Altitude Status:", a.TargetAltitudeStatus.ToString())
	shows(t, "Target Altitude:", fmt.Sprint(a.TargetAltitude))
	shows(t, "Horizontal Data Available / Source Indicator:", a.HorizontalDataAvailableSourceIndicator.ToString())
	shows(t, "Target Heading / Track Angle Status:", a.TargetHeadingTrackAngleStatus.ToString())
	shows(t, "Target Heading / Track Angle:", fmt.Sprint(a.TargetHeadingTrackAngle))
	shows(t, "Target Heading / Track Indicator:", a.TargetHeadingTrackIndicator.ToString())
	shows(t, "Horizontal Mode Indicator:", a.HorizontalModeIndicator.ToString())
	shows(t, "Navigation Accuracy Category - Position:", a.NavigationalAccuracyCategoryPosition.ToString())
	shows(t, "Navigation Integrity Category - Baro:", a.NICBaro.ToString())
	shows(t, "Surveillance Integrity ReaderLevel:", a.SurveillanceIntegrityLevel.ToString())
	shows(t, "Capability / Mode Codes:", a.CapabilityModeCode.ToString())
	shows(t, "Emergency / Priority Status:", a.EmergencyPriorityStatus.ToString())
}

// HBds62TargetStateAndStatus1 decides what bds62.ReadTargetStateAndStatus1 returns.
func HBds62TargetStateAndStatus1() {
	a, err := bds62.ReadTargetStateAndStatus1(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Subtype:", a.GetSubtype().ToString())
	shows(t, "Selected Altitude Type:", a.SelectedAltitudeType.ToString())
	shows(t, "Selected Altitude Status:", a.SelectedAltitudeStatus.ToString())
	shows(t, "Selected Altitude:", fmt.Sprint(a.SelectedAltitude))
	shows(t, "Barometric Pressure Setting Status:", a.BarometricPressureSettingStatus.ToString())
	shows(t, "Barometric Pressure Setting:", fmt.Sprint(a.BarometricPressureSetting))
	shows(t, "Selected Heading Status:", a.SelectedHeadingStatus.ToString())
	shows(t, "Selected Heading :", fmt.Sprint(a.SelectedHeading))
	shows(t, "Navigation Accuracy Category - Position:", a.NavigationalAccuracyCategoryPosition.ToString())
	shows(t, "Navigation Integrity Category - Baro:", a.NICBaro.ToString())
	shows(t, "Source Integrity ReaderLevel:", a.SourceIntegrityLevel.ToString())
	shows(t, "Source Integrity ReaderLevel Supplement:", a.SourceIntegrityLevelSupplement.ToString())
	shows(t, "Status of MCP/FPU Mode Bits:", a.StatusMCPFCUBits.ToString())
	shows(t, "Autopilot Engaged:", fmt.Sprint(a.AutopilotEngaged))
	shows(t, "VNAV Mode Engaged:", fmt.Sprint(a.VNAVModeEngaged))
	shows(t, "Altitude Hold Mode Engaged:", fmt.Sprint(a.AltitudeHoldModeEngaged))
	shows(t, "Approach Mode Engaged:", fmt.Sprint(a.ApproachModeEngaged))
	shows(t, "LNAV Mode Engaged:", fmt.Sprint(a.LNAVModeEngaged))
	shows(t, "TCAS / ACAS Operational :", fmt.Sprint(a.TCASACASOperational))
}

// HBds65AircraftOperationalStatusADSB0 decides what bds65.ReadAircraftOperationalStatusADSB0 returns.
func HBds65AircraftOperationalStatusADSB0() {
	a, err := bds65.ReadAircraftOperationalStatusADSB0(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "En Route Operational Capabilities:", a.EnRouteOperationalCapabilities.ToString())
	shows(t, "En Route Operational Capability Status:", a.EnRouteOperationalCapabilityStatus.ToString())
	shows(t, "Terminal Area Operational Capabilities:", a.TerminalAreaOperationalCapabilities.ToString())
	shows(t, "Terminal Area Operational Capability Status:", a.TerminalAreaOperationalCapabilityStatus.ToString())
	shows(t, "Approach/Landing Operational Capabilities:", a.ApproachLandingOperationalCapabilities.ToString())
	shows(t, "Approach/Landing Operational Capability Status:", a.ApproachLandingOperationalCapabilityStatus.ToString())
	shows(t, "SubtypeSurface Operational Capabilities:", a.SurfaceOperationalCapabilities.ToString())
	shows(t, "SubtypeSurface Operational Capability Status:", a.SurfaceOperationalCapabilityStatus.ToString())
}

// HBds65AircraftOperationalStatusAirborneADSB1 decides what bds65.ReadAircraftOperationalStatusAirborneADSB1 returns.
func HBds65AircraftOperationalStatusAirborneADSB1() {
	a, err := bds65.ReadAircraftOperationalStatusAirborneADSB1(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Subtype:", a.Subtype.ToString())
	shows(t, "ADSB Version Number:", a.VersionNumber.ToString())
	shows(t, "NIC Supplement:", a.NICSupplement.ToString())
	shows(t, "Navigational Accuracy Category Position:", a.NavigationalAccuracyCategoryPosition.ToString())
	shows(t, "NIC Baro:", a.NICBaro.ToString())
	shows(t, "Horizontal Reference Direction:", a.HorizontalReferenceDirection.ToString())
	shows(t, "Not ACAS Status:", a.AirborneCapabilityClass.NotACASStatus.ToString())
	shows(t, "Cockpit Display Of Traffic Information Status:", a.AirborneCapabilityClass.CockpitDisplayOfTrafficInformationStatus.ToString())
	shows(t, "Air Referenced Velocity Report Capability:", a.AirborneCapabilityClass.AirReferencedVelocityReportCapability.ToString())
	shows(t, "Target State Report Capability:", a.AirborneCapabilityClass.TargetStateReportCapability.ToString())
	shows(t, "Target Change Report Capability:", a.AirborneCapabilityClass.TargetChangeReportCapability.ToString())
	shows(t, "ACAS Resolution Advisory Active:", a.OperationalMode.ACASResolutionAdvisoryActive.ToString())
	shows(t, "Ident Switch Active:", a.OperationalMode.IdentSwitchActive.ToString())
	shows(t, "Receiving ATC Services:", a.OperationalMode.ReceivingATCServices.ToString())
}

// HBds65AircraftOperationalStatusAirborneADSB2 decides what bds65.ReadAircraftOperationalStatusAirborneADSB2 returns.
func HBds65AircraftOperationalStatusAirborneADSB2() {
	a, err := bds65.ReadAircraftOperationalStatusAirborneADSB2(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Subtype:", a.Subtype.ToString())
	shows(t, "ADSB Version Number:", a.VersionNumber.ToString())
	shows(t, "NIC Supplement:", a.NICSupplementA.ToString())
	shows(t, "Navigational Accuracy Category Position:", a.NavigationalAccuracyCategoryPosition.ToString())
	shows(t, "Geometric Vertical Accuracy:", a.GeometricVerticalAccuracy.ToString())
	shows(t, "Source Integrity ReaderLevel:", a.SourceIntegrityLevel.ToString())
	shows(t, "Source Integrity ReaderLevel Supplement:", a.SourceIntegrityLevelSupplement.ToString())
	shows(t, "NIC Baro:", a.NICBaro.ToString())
	shows(t, "Horizontal Reference Direction:", a.HorizontalReferenceDirection.ToString())
	shows(t, "ACAS Operational:", a.AirborneCapabilityClass.ACASOperational.ToString())
	shows(t, "1090ES IN (1090 MHz Extended Squitter):", a.AirborneCapabilityClass.ExtendedSquitterIn.ToString())
	shows(t, "ARV (Air-Referenced Velocity Report Capability):", a.AirborneCapabilityClass.AirReferencedVelocityReportCapability.ToString())
	shows(t, "Target State Report Capability:", a.AirborneCapabilityClass.TargetStateReportCapability.ToString())
	shows(t, "Target Change Report Capability:", a.AirborneCapabilityClass.TargetChangeReportCapability.ToString())
	shows(t, "UAT IN (Universal Access Transceiver):", a.AirborneCapabilityClass.UniversalAccessTransceiverCapability.ToString())
	shows(t, "ACAS Resolution Advisory Active:", a.OperationalMode.ACASResolutionAdvisoryActive.ToString())
	shows(t, "Ident Switch Active:", a.OperationalMode.IdentSwitchActive.ToString())
	shows(t, "Single Antenna Flag:", a.OperationalMode.SingleAntennaFlag.ToString())
	shows(t, "System Design Assurance:", a.OperationalMode.SystemDesignAssurance.ToString())
}

// HBds65AircraftOperationalStatusSurfaceADSB1 decides what bds65.ReadAircraftOperationalStatusSurfaceADSB1 returns.
func HBds65AircraftOperationalStatusSurfaceADSB1() {
	a, err := bds65.ReadAircraftOperationalStatusSurfaceADSB1(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Subtype:", a.Subtype.ToString())
	shows(t, "Aircraft Length And Width", a.LengthAndWidth.ToString())
	shows(t, "ADSB Version Number:", a.VersionNumber.ToString())
	shows(t, "NIC Supplement:", a.NICSupplement.ToString())
	shows(t, "Navigational Accuracy Category Position:", a.NavigationalAccuracyCategoryPosition.ToString())
	_, ok := sym.Labelled(t, "SubtypeSurface Capability Class:")
	sym.Assert(ok, "capability class of a surface subtype")
	shows(t, "Track Angle/Heading:", a.TrackAngleHeading.ToString())
	shows(t, "Horizontal Reference Direction:", a.HorizontalReferenceDirection.ToString())
	shows(t, "Position Offset Applied:", a.SurfaceCapabilityClass.PositionOffsetApplied.ToString())
	shows(t, "Cockpit Display Of Traffic Information Status:", a.SurfaceCapabilityClass.CockpitDisplayOfTrafficInformationStatus.ToString())
	shows(t, "B2Low:", a.SurfaceCapabilityClass.B2Low.ToString())
	shows(t, "ACAS Resolution Advisory Active:", a.OperationalMode.ACASResolutionAdvisoryActive.ToString())
	shows(t, "Ident Switch Active:", a.OperationalMode.IdentSwitchActive.ToString())
	shows(t, "Receiving ATC Services:", a.OperationalMode.ReceivingATCServices.ToString())
}

// HBds65AircraftOperationalStatusSurfaceADSB2 decides what bds65.ReadAircraftOperationalStatusSurfaceADSB2 returns.
func HBds65AircraftOperationalStatusSurfaceADSB2() {
	a, err := bds65.ReadAircraftOperationalStatusSurfaceADSB2(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Subtype:", a.Subtype.ToString())
	shows(t, "Aircraft Length And Width", a.LengthAndWidth.ToString())
	shows(t, "ADSB Version Number:", a.VersionNumber.ToString())
	shows(t, "NIC Supplement:", a.NICSupplementA.ToString())
	shows(t, "Navigational Accuracy Category Position:", a.NavigationalAccuracyCategoryPosition.ToString())
	shows(t, "Source Integrity ReaderLevel:", a.SourceIntegrityLevel.ToString())
	shows(t, "Source Integrity ReaderLevel Supplement:", a.SourceIntegrityLevelSupplement.ToString())
	_, ok := sym.Labelled(t, "SubtypeSurface Capability Class:")
	sym.Assert(ok, "capability class of a surface subtype")
	shows(t, "Track Angle/Heading:", a.TrackAngleHeading.ToString())
	shows(t, "Horizontal Reference Direction:", a.HorizontalReferenceDirection.ToString())
	shows(t, "1090ES IN (1090 MHz Extended Squitter):", a.SurfaceCapabilityClass.ExtendedSquitterIn.ToString())
	shows(t, "B2 Low (Class B2 Transmit Power Less Than 70 Watts):", a.SurfaceCapabilityClass.B2Low.ToString())
	shows(t, "UAT IN (Universal Access Transceiver):", a.SurfaceCapabilityClass.UniversalAccessTransceiverCapability.ToString())
	shows(t, "NACV (Navigation Accuracy Category for Velocity):", a.SurfaceCapabilityClass.NavigationAccuracyCategoryVelocity.ToString())
	shows(t, "NIC Supplement-C (NIC Supplement for use on the Surface):", a.SurfaceCapabilityClass.NICSupplementC.ToString())
	shows(t, "ACAS Resolution Advisory Active:", a.OperationalMode.ACASResolutionAdvisoryActive.ToString())
	shows(t, "Ident Switch Active:", a.OperationalMode.IdentSwitchActive.ToString())
	shows(t, "Single Antenna Flag:", a.OperationalMode.SingleAntennaFlag.ToString())
	shows(t, "System Design Assurance:", a.OperationalMode.SystemDesignAssurance.ToString())
	gps, _ := sym.Labelled(t, "GPS Antenna:")
	shows(gps, "Lateral Axis GPS Antenna:", a.OperationalMode.GPSAntenna.GPSAntennaLateral.ToString())
	shows(t, "Longitudinal Axis GPS Antenna:", a.OperationalMode.GPSAntenna.GPSAntennaLongitudinal.ToString())
}

// HBds00NoMessageAvailable decides what bds00.ReadNoMessageAvailable returns.
func HBds00NoMessageAvailable() {
	a, err := bds00.ReadNoMessageAvailable(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
}

// HBds07Status decides what bds07.ReadStatus returns.
func HBds07Status() {
	a, err := bds07.ReadStatus(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Transmission Rate Subfield:", a.TransmissionRateSubfield.ToString())
	shows(t, "Altitude Type Subfield", a.AltitudeTypeSubfield.ToString())
}

// HBds10DataLinkCapabilityReport decides what bds10.ReadDataLinkCapabilityReport returns.
func HBds10DataLinkCapabilityReport() {
	a, err := bds10.ReadDataLinkCapabilityReport(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Continuation Flag:", a.ContinuationFlag.ToString())
	shows(t, "Overlay Command Capability", a.OverlayCommandCapability.ToString())
	shows(t, "ACAS Status", a.ACASStatus.ToString())
	shows(t, "ModeS Subnetwork Version", a.ModeSSubnetworkVersion.ToString())
	shows(t, "Transponder Enhanced Protocol Indicator", a.TransponderEnhancedProtocolIndicator.ToString())
	shows(t, "ModeS Specific Services Capability", a.ModeSSpecificServicesCapability.ToString())
	shows(t, "Uplink ELM Throughput Capability", a.UplinkELMThroughputCapability.ToString())
	shows(t, "Downlink ELM Throughput Capability", a.DownlinkELMThroughputCapability.ToString())
	shows(t, "Aircraft Identification Capability", a.AircraftIdentificationCapability.ToString())
	shows(t, "Squitter Capability Subfield", a.SquitterCapabilitySubfield.ToString())
	shows(t, "Surveillance Identifier Code", a.SurveillanceIdentifierCode.ToString())
	shows(t, "Common Usage GICB Capability", a.CommonUsageGICBCapability.ToString())
	shows(t, "ACAS Hybrid Surveillance Capability", a.ACASHybridSurveillanceCapability.ToString())
	shows(t, "ACAS Generation Capability", a.ACASGenerationCapability.ToString())
	shows(t, "ACAS Applicable Document", a.ACASApplicableDocument.ToString())
	shows(t, "DTE SubAddress Statuses", a.DTESubAddressStatuses.ToString())
}

// HBds17CommonUsageGICBCapabilityReport decides what bds17.ReadCommonUsageGICBCapabilityReport returns.
func HBds17CommonUsageGICBCapabilityReport() {
	a, err := bds17.ReadCommonUsageGICBCapabilityReport(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "0,5 Extended squitter airborne position:", fmt.Sprint(a.ExtendedSquitterAirbornePosition))
	shows(t, "0,6 Extended squitter surface position:", fmt.Sprint(a.ExtendedSquitterSurfacePosition))
	shows(t, "0,7 Extended squitter status:", fmt.Sprint(a.ExtendedSquitterStatus))
	shows(t, "0,8 Extended squitter identification and category:", fmt.Sprint(a.ExtendedSquitterIdentificationAndCategory))
	shows(t, "0,9 Extended squitter airborne velocity information:", fmt.Sprint(a.ExtendedSquitterAirborneVelocityInformation))
	shows(t, "0,A Extended squitter event-driven information:", fmt.Sprint(a.ExtendedSquitterEventDrivenInformation))
	shows(t, "2,0 Aircraft identification:", fmt.Sprint(a.AircraftIdentification))
	shows(t, "2,l Aircraft registration number:", fmt.Sprint(a.AircraftRegistrationNumber))
	shows(t, "4,0 Selected vertical intention:", fmt.Sprint(a.SelectedVerticalIntention))
	shows(t, "4,l Next waypoint identifier:", fmt.Sprint(a.NextWaypointIdentifier))
	shows(t, "4,2 Next waypoint position:", fmt.Sprint(a.NextWaypointPosition))
	shows(t, "4,3 Next waypoint information:", fmt.Sprint(a.NextWaypointInformation))
	shows(t, "4,4 Meteorological routine report:", fmt.Sprint(a.MeteorologicalRoutineReport))
	shows(t, "4,5 Meteorological hazard report:", fmt.Sprint(a.MeteorologicalHazardReport))
	shows(t, "4.8 VHF channel report:", fmt.Sprint(a.VHFChannelReport))
	shows(t, "5,0 Track and turn report:", fmt.Sprint(a.TrackAndTurnReport))
	shows(t, "5,1 Position coarse:", fmt.Sprint(a.PositionCoarse))
	shows(t, "5,2 Position fine:", fmt.Sprint(a.PositionFine))
	shows(t, "5,3 Air-referenced state vector:", fmt.Sprint(a.AirReferencedStateVector))
	shows(t, "5,4 Waypoint 1:", fmt.Sprint(a.Waypoint1))
	shows(t, "5,5 Waypoint 2:", fmt.Sprint(a.Waypoint2))
	shows(t, "5,6 Waypoint 3:", fmt.Sprint(a.Waypoint3))
	shows(t, "5,F Quasi-static parameter monitoring:", fmt.Sprint(a.QuasiStaticParameterMonitoring))
	shows(t, "6,0 Heading and speed report:", fmt.Sprint(a.HeadingAndSpeedReport))
	shows(t, "F,1 Military applications:", fmt.Sprint(a.MilitaryApplications))
}

// HBds20AircraftIdentification decides what bds20.ReadAircraftIdentification returns.
func HBds20AircraftIdentification() {
	a, err := bds20.ReadAircraftIdentification(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Identification:", fmt.Sprint(a.Identification))
}

// HBds30ACASResolutionAdvisory decides what bds30.ReadACASResolutionAdvisory returns.
func HBds30ACASResolutionAdvisory() {
	a, err := bds30.ReadACASResolutionAdvisory(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
}

// HBds40SelectedVerticalIntention decides what bds40.ReadSelectedVerticalIntention returns.
func HBds40SelectedVerticalIntention() {
	a, err := bds40.ReadSelectedVerticalIntention(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "MCP/FCU Selected Altitude Available:", fmt.Sprint(a.MCPFCUSelectedAltitudeAvailable))
	shows(t, "MCP/FCU Selected Altitude:", fmt.Sprint(a.MCPFCUSelectedAltitude))
	shows(t, "FMS Selected Altitude Available:", fmt.Sprint(a.FMSSelectedAltitudeAvailable))
	shows(t, "FMS Selected Altitude:", fmt.Sprint(a.FMSSelectedAltitude))
	shows(t, "Barometric Pressure Setting Available:", fmt.Sprint(a.BarometricPressureSettingAvailable))
	shows(t, "Barometric Pressure Setting:", fmt.Sprint(a.BarometricPressureSetting))
	shows(t, "Status Of Mode Bits:", a.StatusOfModeBits.ToString())
	shows(t, "VNAV Mode:", fmt.Sprint(a.VNAVMode))
	shows(t, "Altitude Hold Mode:", fmt.Sprint(a.AltitudeHoldMode))
	shows(t, "Approach Mode:", fmt.Sprint(a.ApproachMode))
	shows(t, "Status Of Target Altitude Source:", a.StatusOfTargetAltitudeSource.ToString())
	shows(t, "Target Altitude Source:", a.TargetAltitudeSource.ToString())
}

// HBds44MeteorologicalRoutineAirReportV0 decides what bds44.ReadMeteorologicalRoutineAirReportV0 returns.
func HBds44MeteorologicalRoutineAirReportV0() {
	a, err := bds44.ReadMeteorologicalRoutineAirReportV0(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Source:", a.Source.ToString())
	shows(t, "Wind Speed Status:", fmt.Sprint(a.WindSpeedStatus))
	shows(t, "Wind Speed (knot):", fmt.Sprint(a.WindSpeed))
	shows(t, "Wind Direction Status:", fmt.Sprint(a.WindDirectionStatus))
	shows(t, "Wind Direction (degrees):", fmt.Sprint(a.WindDirection))
	shows(t, "Static Air Temperature (degrees C):", fmt.Sprint(a.StaticAirTemperature))
	shows(t, "Average Static Pressure Status:", fmt.Sprint(a.AverageStaticPressureStatus))
	shows(t, "Average Static Pressure (hPa):", fmt.Sprint(a.AverageStaticPressure))
	shows(t, "Turbulence Status:", fmt.Sprint(a.TurbulenceStatus))
	shows(t, "Turbulence:", a.Turbulence.ToString())
	shows(t, "Humidity Status:", fmt.Sprint(a.HumidityStatus))
	shows(t, "Humidity (%):", fmt.Sprint(a.Humidity))
}

// HBds44MeteorologicalRoutineAirReportV1 decides what bds44.ReadMeteorologicalRoutineAirReportV1 returns.
func HBds44MeteorologicalRoutineAirReportV1() {
	a, err := bds44.ReadMeteorologicalRoutineAirReportV1(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Wind Speed Status:", fmt.Sprint(a.WindSpeedStatus))
	shows(t, "Wind Speed (knot):", fmt.Sprint(a.WindSpeed))
	shows(t, "Wind Direction Status:", fmt.Sprint(a.WindDirectionStatus))
	shows(t, "Wind Direction (degrees):", fmt.Sprint(a.WindDirection))
	shows(t, "Static Air Temperature Status:", fmt.Sprint(a.StaticAirTemperatureStatus))
	shows(t, "Static Air Temperature (degrees C):", fmt.Sprint(a.StaticAirTemperature))
	shows(t, "Average Static Pressure Status:", fmt.Sprint(a.AverageStaticPressureStatus))
	shows(t, "Average Static Pressure (hPa):", fmt.Sprint(a.AverageStaticPressure))
	shows(t, "Turbulence Flag:", a.TurbulenceFlag.ToString())
	shows(t, "Humidity Status:", fmt.Sprint(a.HumidityStatus))
	shows(t, "Humidity (%):", fmt.Sprint(a.Humidity))
}

// HBds44MeteorologicalRoutineAirReportV2 decides what bds44.ReadMeteorologicalRoutineAirReportV2 returns.
func HBds44MeteorologicalRoutineAirReportV2() {
	a, err := bds44.ReadMeteorologicalRoutineAirReportV2(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Source:", a.Source.ToString())
	shows(t, "Wind Speed Status:", fmt.Sprint(a.WindSpeedStatus))
	shows(t, "Wind Speed (knot):", fmt.Sprint(a.WindSpeed))
	shows(t, "Wind Direction Status:", fmt.Sprint(a.WindDirectionStatus))
	shows(t, "Wind Direction (degrees):", fmt.Sprint(a.WindDirection))
	shows(t, "Static Air Temperature Status:", fmt.Sprint(a.StaticAirTemperatureStatus))
	shows(t, "Static Air Temperature (degrees C):", fmt.Sprint(a.StaticAirTemperature))
	shows(t, "Average Static Pressure Status:", fmt.Sprint(a.AverageStaticPressureStatus))
	shows(t, "Average Static Pressure (hPa):", fmt.Sprint(a.AverageStaticPressure))
	shows(t, "Turbulence Flag:", a.TurbulenceFlag.ToString())
	shows(t, "Humidity Status:", fmt.Sprint(a.HumidityStatus))
	shows(t, "Humidity (%):", fmt.Sprint(a.Humidity))
}

// HBds45MeteorologicalHazardReportV0 decides what bds45.ReadMeteorologicalHazardReportV0 returns.
func HBds45MeteorologicalHazardReportV0() {
	a, err := bds45.ReadMeteorologicalHazardReportV0(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Turbulence Status:", fmt.Sprint(a.TurbulenceStatus))
	shows(t, "Turbulence:", a.Turbulence.ToString())
	shows(t, "Wind Shear Status:", fmt.Sprint(a.WindShearStatus))
	shows(t, "Wind Shear:", a.WindShear.ToString())
	shows(t, "Micro Burst Status:", fmt.Sprint(a.MicroBurstStatus))
	shows(t, "Micro Burst:", a.MicroBurst.ToString())
	shows(t, "Icing Status:", fmt.Sprint(a.IcingStatus))
	shows(t, "Icing:", a.Icing.ToString())
	shows(t, "Wake Vortex Status:", fmt.Sprint(a.WakeVortexStatus))
	shows(t, "Wake Vortex:", a.WakeVortex.ToString())
	shows(t, "Static Air Temperature Status:", fmt.Sprint(a.StaticAirTemperatureStatus))
	shows(t, "Static Air Temperature (degrees C):", fmt.Sprint(a.StaticAirTemperature))
	shows(t, "Average Static Pressure Status:", fmt.Sprint(a.AverageStaticPressureStatus))
	shows(t, "Average Static Pressure (hPa):", fmt.Sprint(a.AverageStaticPressure))
	shows(t, "Radio Height Status:", fmt.Sprint(a.RadioHeightStatus))
	shows(t, "Radio Height (feet):", fmt.Sprint(a.RadioHeight))
}

// HBds45MeteorologicalHazardReportV1 decides what bds45.ReadMeteorologicalHazardReportV1 returns.
func HBds45MeteorologicalHazardReportV1() {
	a, err := bds45.ReadMeteorologicalHazardReportV1(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Wind Shear Status:", fmt.Sprint(a.WindShearStatus))
	shows(t, "Wind Shear:", a.WindShear.ToString())
	shows(t, "Micro Burst Status:", fmt.Sprint(a.MicroBurstStatus))
	shows(t, "Micro Burst:", a.MicroBurst.ToString())
	shows(t, "Icing Status:", fmt.Sprint(a.IcingStatus))
	shows(t, "Icing:", a.Icing.ToString())
	shows(t, "Wake Vortex Status:", fmt.Sprint(a.WakeVortexStatus))
	shows(t, "Wake Vortex:", a.WakeVortex.ToString())
	shows(t, "Static Air Temperature Status:", fmt.Sprint(a.StaticAirTemperatureStatus))
	shows(t, "Static Air Temperature (degrees C):", fmt.Sprint(a.StaticAirTemperature))
	shows(t, "Average Static Pressure Status:", fmt.Sprint(a.AverageStaticPressureStatus))
	shows(t, "Average Static Pressure (hPa):", fmt.Sprint(a.AverageStaticPressure))
	shows(t, "Radio Height Status:", fmt.Sprint(a.RadioHeightStatus))
	shows(t, "Radio Height (feet):", fmt.Sprint(a.RadioHeight))
	shows(t, "Turbulence Status:", fmt.Sprint(a.TurbulenceStatus))
	shows(t, "Average Turbulence EDR Metric", fmt.Sprint(a.TurbulenceAverageEDR))
	shows(t, "Peak Turbulence EDR Metric:", fmt.Sprint(a.TurbulencePeakEDR))
	shows(t, "Turbulence Peak Delay Interval (min):", fmt.Sprint(a.TurbulencePeakDelayInterval))
}

// HBds50TrackAndTurnReport decides what bds50.ReadTrackAndTurnReport returns.
func HBds50TrackAndTurnReport() {
	a, err := bds50.ReadTrackAndTurnReport(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Roll Angle Status:", fmt.Sprint(a.RollAngleStatus))
	shows(t, "Roll Angle (degrees):", fmt.Sprint(a.RollAngle))
	shows(t, "True Track Angle Status:", fmt.Sprint(a.TrueTrackAngleStatus))
	shows(t, "True Track (degrees):", fmt.Sprint(a.TrueTrackAngle))
	shows(t, "Ground Speed Status:", fmt.Sprint(a.GroundSpeedStatus))
	shows(t, "Ground Speed (knots):", fmt.Sprint(a.GroundSpeed))
	shows(t, "Track Angle Rate Status:", fmt.Sprint(a.TrackAngleRateStatus))
	shows(t, "Track Angle Rate (degrees/second):", fmt.Sprint(a.TrackAngleRate))
	shows(t, "True Air Speed Status:", fmt.Sprint(a.TrueAirSpeedStatus))
	shows(t, "True Air Speed (knots):", fmt.Sprint(a.TrueAirSpeed))
}

// HBds60HeadingAndSpeedReport decides what bds60.ReadHeadingAndSpeedReport returns.
func HBds60HeadingAndSpeedReport() {
	a, err := bds60.ReadHeadingAndSpeedReport(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Magnetic Heading Status:", fmt.Sprint(a.MagneticHeadingStatus))
	shows(t, "Magnetic Heading (degrees):", fmt.Sprint(a.MagneticHeading))
	shows(t, "Indicated Air Speed Status:", fmt.Sprint(a.IndicatedAirSpeedStatus))
	shows(t, "Indicated Air Speed (knots):", fmt.Sprint(a.IndicatedAirSpeed))
	shows(t, "Mach Status:", fmt.Sprint(a.MachStatus))
	shows(t, "Mach:", fmt.Sprint(a.Mach))
	shows(t, "Barometric Altitude Rate Status:", fmt.Sprint(a.BarometricAltitudeRateStatus))
	shows(t, "Barometric Altitude Rate (feet/minute):", fmt.Sprint(a.BarometricAltitudeRate))
	shows(t, "Inertial Vertical Velocity Status:", fmt.Sprint(a.InitialVerticalVelocityStatus))
	shows(t, "Inertial Vertical Velocity (feet/minute):", fmt.Sprint(a.InitialVerticalVelocity))
}

// HAirbornePositionV0 decides what airborne_position.ReadAirbornePositionV0 returns.
func HAirbornePositionV0() {
	a, err := airborne_position.ReadAirbornePositionV0(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Format Type Code:", fmt.Sprint(a.FormatTypeCode))
	shows(t, "Surveillance Status:", a.SurveillanceStatus.ToString())
	shows(t, "Single Antenna Flag:", a.SingleAntennaFlag.ToString())
	shows(t, "Altitude Source:", a.AltitudeSource.ToString())
	shows(t, "Altitude Report Method:", a.AltitudeReportMethod.ToString())
	shows(t, "Altitude (feet):", fmt.Sprint(a.AltitudeInFeet))
	shows(t, "Time:", a.Time.ToString())
	shows(t, "Compact Position Reporting Format:", a.CPRFormat.ToString())
	shows(t, "Encoded Latitude:", fmt.Sprint(a.EncodedLatitude))
	shows(t, "Encoded Longitude:", fmt.Sprint(a.EncodedLongitude))
	shows(t, "Horizontal Protection Limit:", a.HorizontalProtectionLimit.ToString())
	shows(t, "Containment Radius:", a.ContainmentRadius.ToString())
}

// HAirbornePositionV1 decides what airborne_position.ReadAirbornePositionV1 returns.
func HAirbornePositionV1() {
	nicA := sym.Bool("nicA")
	a, err := airborne_position.ReadAirbornePositionV1(sym.Bytes("a", 7), nicA)
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Format Type Code:", fmt.Sprint(a.FormatTypeCode))
	shows(t, "Surveillance Status:", a.SurveillanceStatus.ToString())
	shows(t, "Single Antenna Flag:", a.SingleAntennaFlag.ToString())
	shows(t, "Altitude Source:", a.AltitudeSource.ToString())
	shows(t, "Altitude Report Method:", a.AltitudeReportMethod.ToString())
	shows(t, "Altitude (feet):", fmt.Sprint(a.AltitudeInFeet))
	shows(t, "Time:", a.Time.ToString())
	shows(t, "Compact Position Reporting Format:", a.CPRFormat.ToString())
	shows(t, "Encoded Latitude:", fmt.Sprint(a.EncodedLatitude))
	shows(t, "Encoded Longitude:", fmt.Sprint(a.EncodedLongitude))
	shows(t, "Navigation Integrity Code A:", fmt.Sprint(a.NavigationIntegrityCodeSupplementA))
	shows(t, "Horizontal Containment Radius:", a.HorizontalContainmentRadius.ToString())
	shows(t, "Navigation Integrity Category:", fmt.Sprint(a.NavigationIntegrityCategory))
}

// HAirbornePositionV2 decides what airborne_position.ReadAirbornePositionV2 returns.
func HAirbornePositionV2() {
	nicA := sym.Bool("nicA")
	a, err := airborne_position.ReadAirbornePositionV2(sym.Bytes("a", 7), nicA)
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Format Type Code:", fmt.Sprint(a.FormatTypeCode))
	shows(t, "Surveillance Status:", a.SurveillanceStatus.ToString())
	shows(t, "Single Antenna Flag:", a.SingleAntennaFlag.ToString())
	shows(t, "Altitude Source:", a.AltitudeSource.ToString())
	shows(t, "Altitude Report Method:", a.AltitudeReportMethod.ToString())
	shows(t, "Altitude (feet):", fmt.Sprint(a.AltitudeInFeet))
	shows(t, "Time:", a.Time.ToString())
	shows(t, "Compact Position Reporting Format:", a.CPRFormat.ToString())
	shows(t, "Encoded Latitude:", fmt.Sprint(a.EncodedLatitude))
	shows(t, "Encoded Longitude:", fmt.Sprint(a.EncodedLongitude))
	shows(t, "Navigation Integrity Code A:", fmt.Sprint(a.NavigationIntegrityCodeSupplementA))
	shows(t, "Navigation Integrity Code B:", a.NavigationIntegrityCodeSupplementB.ToString())
	shows(t, "Horizontal Containment Radius:", a.HorizontalContainmentRadius.ToString())
	shows(t, "Navigation Integrity Category:", fmt.Sprint(a.NavigationIntegrityCategory))
}

// HSurfacePositionV0 decides what surface_position.ReadSurfacePositionV0 returns.
func HSurfacePositionV0() {
	a, err := surface_position.ReadSurfacePositionV0(sym.Bytes("a", 7))
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Format Type Code:", fmt.Sprint(a.FormatTypeCode))
	shows(t, "Movement Status:", a.MovementStatus.ToString())
	shows(t, "Movement Speed (knots):", fmt.Sprint(a.MovementSpeed))
	shows(t, "Ground Track Status:", fmt.Sprint(a.GroundTrackStatus))
	shows(t, "Ground Track (degrees):", fmt.Sprint(a.GroundTrack))
	shows(t, "Time:", a.Time.ToString())
	shows(t, "Compact Position Reporting Format:", a.CPRFormat.ToString())
	shows(t, "Encoded Latitude:", fmt.Sprint(a.EncodedLatitude))
	shows(t, "Encoded Longitude:", fmt.Sprint(a.EncodedLongitude))
	shows(t, "Horizontal Protection Limit:", a.HorizontalProtectionLimit.ToString())
	shows(t, "Containment Radius:", a.ContainmentRadius.ToString())
}

// HSurfacePositionV1 decides what surface_position.ReadSurfacePositionV1 returns.
func HSurfacePositionV1() {
	nicA := sym.Bool("nicA")
	a, err := surface_position.ReadSurfacePositionV1(sym.Bytes("a", 7), nicA)
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Format Type Code:", fmt.Sprint(a.FormatTypeCode))
	shows(t, "Movement Status:", a.MovementStatus.ToString())
	shows(t, "Movement Speed (knots):", fmt.Sprint(a.MovementSpeed))
	shows(t, "Ground Track Status:", fmt.Sprint(a.GroundTrackStatus))
	shows(t, "Ground Track (degrees):", fmt.Sprint(a.GroundTrack))
	shows(t, "Time:", a.Time.ToString())
	shows(t, "Compact Position Reporting Format:", a.CPRFormat.ToString())
	shows(t, "Encoded Latitude:", fmt.Sprint(a.EncodedLatitude))
	shows(t, "Encoded Longitude:", fmt.Sprint(a.EncodedLongitude))
	shows(t, "Navigation Integrity Code A:", fmt.Sprint(nicA))
	shows(t, "Horizontal Containment Limit:", a.HorizontalContainmentRadius.ToString())
	shows(t, "Navigation Integrity Category:", fmt.Sprint(a.NavigationIntegrityCategory))
}

// HSurfacePositionV2 decides what surface_position.ReadSurfacePositionV2 returns.
func HSurfacePositionV2() {
	nicA := sym.Bool("nicA")
	nicC := sym.Bool("nicC")
	a, err := surface_position.ReadSurfacePositionV2(sym.Bytes("a", 7), nicA, nicC)
	if err != nil || a.CheckCoherency() != nil {
		return
	}
	sym.Reach("a content")
	t := a.ToString()
	shows(t, "Message:", a.GetRegister().ToString())
	shows(t, "Format Type Code:", fmt.Sprint(a.FormatTypeCode))
	shows(t, "Movement Status:", a.MovementStatus.ToString())
	shows(t, "Movement Speed (knots):", fmt.Sprint(a.MovementSpeed))
	shows(t, "Ground Track Status:", fmt.Sprint(a.GroundTrackStatus))
	shows(t, "Ground Track (degrees):", fmt.Sprint(a.GroundTrack))
	shows(t, "Time:", a.Time.ToString())
	shows(t, "Compact Position Reporting Format:", a.CPRFormat.ToString())
	shows(t, "Encoded Latitude:", fmt.Sprint(a.EncodedLatitude))
	shows(t, "Encoded Longitude:", fmt.Sprint(a.EncodedLongitude))
	shows(t, "Navigation Integrity Code A:", fmt.Sprint(nicA))
	shows(t, "Navigation Integrity Code C:", fmt.Sprint(nicC))
	shows(t, "Horizontal Containment Limit:", a.HorizontalContainmentRadius.ToString())
	shows(t, "Navigation Integrity Category:", fmt.Sprint(a.NavigationIntegrityCategory))
}

// HFrame0 decides frames of downlink format 0.
func HFrame0() {
	p := frame(0, 7)
	if a, ok := p.(*messages.MessageDF0); ok {
		t := p.ToString()
		shows(t, "VerticalStatus:", a.VerticalStatus.ToString())
		shows(t, "CrossLinkCapability:", a.CrossLinkCapability.ToString())
		shows(t, "SensitivityLevel:", a.SensitivityLevel.ToString())
		shows(t, "ReplyInformation:", a.ReplyInformation.ToString())
		shows(t, "AltitudeReportMethod:", a.AltitudeReportMethod.ToString())
		shows(t, "Altitude:", fmt.Sprint(a.Altitude))
	}
}

// HFrame4 decides frames of downlink format 4.
func HFrame4() {
	p := frame(4, 7)
	if a, ok := p.(*messages.MessageDF4); ok {
		t := p.ToString()
		shows(t, "FlightStatus:", a.FlightStatus.ToString())
		shows(t, "DownlinkRequest:", a.DownlinkRequest.ToString())
		shows(t, "UtilityMessage:", a.UtilityMessage.ToString())
		shows(t, "AltitudeReportMethod:", a.AltitudeReportMethod.ToString())
		shows(t, "Altitude:", fmt.Sprint(a.Altitude))
	}
}

// HFrame5 decides frames of downlink format 5.
func HFrame5() {
	p := frame(5, 7)
	if a, ok := p.(*messages.MessageDF5); ok {
		t := p.ToString()
		shows(t, "FlightStatus:", a.FlightStatus.ToString())
		shows(t, "DownlinkRequest:", a.DownlinkRequest.ToString())
		shows(t, "UtilityMessage:", a.UtilityMessage.ToString())
		shows(t, "Identity:", a.Identity.ToString())
	}
}

// HFrame11 decides frames of downlink format 11.
func HFrame11() {
	p := frame(11, 7)
	if a, ok := p.(*messages.MessageDF11); ok {
		t := p.ToString()
		shows(t, "Capability:", a.Capability.ToString())
		shows(t, "AddressAnnounced:", a.AddressAnnounced.ToString())
	}
}

// HFrame16 decides frames of downlink format 16.
func HFrame16() {
	p := frame(16, 14)
	if a, ok := p.(*messages.MessageDF16); ok {
		t := p.ToString()
		shows(t, "VerticalStatus:", a.VerticalStatus.ToString())
		shows(t, "SensitivityLevel:", a.SensitivityLevel.ToString())
		shows(t, "ReplyInformation:", a.ReplyInformation.ToString())
		shows(t, "AltitudeReportMethod:", a.AltitudeReportMethod.ToString())
		shows(t, "Altitude:", fmt.Sprint(a.Altitude))
		shows(t, "Message ACAS:", a.MessageACAS.ToString())
	}
}

// HFrame17 decides frames of downlink format 17.
func HFrame17() {
	p := frame(17, 14)
	if a, ok := p.(*messages.MessageDF17); ok {
		t := p.ToString()
		shows(t, "Capability:", a.Capability.ToString())
		shows(t, "AddressAnnounced:", a.AddressAnnounced.ToString())
		shows(t, "MessageExtendedSquitter:", a.MessageExtendedSquitter.ToString())
	}
}

// HFrame18 decides frames of downlink format 18.
func HFrame18() {
	p := frame(18, 14)
	if a, ok := p.(*messages.MessageDF18); ok {
		t := p.ToString()
		shows(t, "ControlField:", a.ControlField.ToString())
		shows(t, "AddressAnnounced:", a.AddressAnnounced.ToString())
		shows(t, "MessageExtendedSquitter:", a.MessageExtendedSquitter.ToString())
	}
}

// HFrame19 decides frames of downlink format 19.
func HFrame19() {
	p := frame(19, 14)
	if a, ok := p.(*messages.MessageDF19); ok {
		t := p.ToString()
		shows(t, "ApplicationField:", a.ApplicationField.ToString())
	}
}

// HFrame20 decides frames of downlink format 20.
func HFrame20() {
	p := frame(20, 14)
	if a, ok := p.(*messages.MessageDF20); ok {
		t := p.ToString()
		shows(t, "FlightStatus:", a.FlightStatus.ToString())
		shows(t, "DownlinkRequest:", a.DownlinkRequest.ToString())
		shows(t, "UtilityMessage:", a.UtilityMessage.ToString())
		shows(t, "AltitudeReportMethod:", a.AltitudeReportMethod.ToString())
		shows(t, "Altitude:", fmt.Sprint(a.Altitude))
		shows(t, "MessageCommB:", a.MessageCommB.ToString())
	}
}

// HFrame21 decides frames of downlink format 21.
func HFrame21() {
	p := frame(21, 14)
	if a, ok := p.(*messages.MessageDF21); ok {
		t := p.ToString()
		shows(t, "FlightStatus:", a.FlightStatus.ToString())
		shows(t, "DownlinkRequest:", a.DownlinkRequest.ToString())
		shows(t, "UtilityMessage:", a.UtilityMessage.ToString())
		shows(t, "Identity:", a.Identity.ToString())
		shows(t, "MessageCommB:", a.MessageCommB.ToString())
	}
}

// HFrame24 decides frames of downlink format 24.
func HFrame24() {
	p := frame(24, 14)
	if a, ok := p.(*messages.MessageDF24); ok {
		t := p.ToString()
		shows(t, "ControlELM:", a.ControlELM.ToString())
		shows(t, "NumberOfDSegment:", a.NumberOfDSegment.ToString())
		shows(t, "MessageCommD:", a.MessageCommD.ToString())
	}
}

// HResolutionAdvisory decides what ra.ReadResolutionAdvisory returns.
func HResolutionAdvisory() {
	a, err := ra.ReadResolutionAdvisory(sym.Bytes("a", 6))
	if err != nil {
		return
	}
	sym.Reach("an advisory")
	t := a.ToString()
	shows(t, "Active Resolution Advisory Terminated Indicator:", a.RATerminatedIndicator.ToString())
	shows(t, "Multiple Threat Encounter:", a.MultipleThreatEncounter.ToString())
	shows(t, "Threat Type Indicator:", a.ThreatTypeIndicator.ToString())
	shows(t, "Do not pass below:", fmt.Sprint(a.RAComplement.DoNotPassBelow))
	shows(t, "Do not pass above:", fmt.Sprint(a.RAComplement.DoNotPassAbove))
	shows(t, "Do not turn left:", fmt.Sprint(a.RAComplement.DoNotTurnLeft))
	shows(t, "Do not turn right:", fmt.Sprint(a.RAComplement.DoNotTurnRight))
	switch r := a.ActiveRA.(type) {
	case *fields.ActiveRAOneThreatOrSameSeparation:
		shows(t, "Preventive/Corrective:", r.PreventiveCorrective.ToString())
		shows(t, "Sense generated:", r.Sense.ToString())
		shows(t, "Is increased rate:", fmt.Sprint(r.IsIncreasedRate))
		shows(t, "Is sense reversal:", fmt.Sprint(r.IsSenseReversal))
		shows(t, "Is altitude crossing:", fmt.Sprint(r.IsAltitudeCrossing))
		shows(t, "Vertical Speed Limit/Positive:", r.VerticalSpeedLimitOrPositive.ToString())
	case *fields.ActiveRAMultipleThreatsDifferentSeparation:
		shows(t, "Require a correction in the upward sense:", fmt.Sprint(r.RequiresCorrectionUpwardSense))
		shows(t, "Requires a positive climb:", fmt.Sprint(r.RequiresPositiveClimb))
		shows(t, "Requires a correction in the downward sense:", fmt.Sprint(r.RequiresCorrectionDownwardSense))
		shows(t, "Requires a positive descend:", fmt.Sprint(r.RequiresPositiveDescend))
		shows(t, "Requires a crossing:", fmt.Sprint(r.RequiresCrossing))
		shows(t, "Is a sense reversal:", fmt.Sprint(r.IsSenseReversal))
	}
	switch a.ThreatTypeIndicator {
	case fields.ThreatTypeModeS:
		shows(t, "Threat Mode-S Identity:", a.ThreatIdentityAddress.ToString())
	case fields.ThreatTypeAltitudeRangeBearing:
		shows(t, "Threat Altitude:", a.ThreatIdentityAltitude.ToString())
		shows(t, "Threat Range:", a.ThreatIdentityRange.ToString())
		shows(t, "Threat Bearing:", a.ThreatIdentityBearing.ToString())
	}
}
