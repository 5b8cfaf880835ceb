// Package c14: operational status messages give the encoded capabilities and version.
package c14

import (
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_operational_status"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/bds/bds65"
	"github.com/twuillemin/modes/pkg/bds/bds65/fields"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "all 56 content bits of type code 31 with every version byte (of earlier messages) and both supplement bits symbolic, through the squitter reader and the register reader"

func bits(d []byte, first, last int, got int64, label string) {
	sym.Eq(got, int64(spec.Bits(d, first, last)), label)
}

func head(d []byte, tc byte, sub fields.Subtype, ver fields.VersionNumber) {
	bits(d, 1, 5, int64(tc), "type code")
	bits(d, 6, 8, int64(sub), "subtype")
	bits(d, 41, 43, int64(ver), "version number")
}

func mode1(d []byte, m fields.OperationalMode) {
	bits(d, 27, 27, int64(m.ACASResolutionAdvisoryActive), "advisory active (version 1)")
	bits(d, 28, 28, int64(m.IdentSwitchActive), "ident switch (version 1)")
	bits(d, 29, 29, int64(m.ReceivingATCServices), "receiving ATC services")
}

func content(d []byte, m bds65.AircraftOperationalStatus) {
	kind := spec.SquitterKind(d, 0)
	sym.Eq(int64(m.GetADSBLevel()), int64(spec.Bits(d, 41, 43)), "the message reports the version it encodes")
	switch v := m.(type) {
	case *bds65.AircraftOperationalStatusADSB0:
		sym.Reach("version 0")
		sym.Assert(kind == spec.SqOperV0, "format of version 0")
		bits(d, 1, 5, int64(v.FormatTypeCode), "type code of version 0")
		bits(d, 6, 8, int64(v.Subtype), "subtype of version 0")
		bits(d, 9, 12, int64(v.EnRouteOperationalCapabilities), "en route capabilities")
		bits(d, 13, 16, int64(v.TerminalAreaOperationalCapabilities), "terminal area capabilities")
		bits(d, 17, 20, int64(v.ApproachLandingOperationalCapabilities), "approach and landing capabilities")
		bits(d, 21, 24, int64(v.SurfaceOperationalCapabilities), "surface capabilities")
		bits(d, 25, 28, int64(v.EnRouteOperationalCapabilityStatus), "en route status")
		bits(d, 29, 32, int64(v.TerminalAreaOperationalCapabilityStatus), "terminal area status")
		bits(d, 33, 36, int64(v.ApproachLandingOperationalCapabilityStatus), "approach and landing status")
		bits(d, 37, 40, int64(v.SurfaceOperationalCapabilityStatus), "surface status")
	case *bds65.AircraftOperationalStatusAirborneADSB1:
		sym.Reach("airborne version 1")
		sym.Assert(kind == spec.SqOperAirborneV1, "format of airborne version 1")
		head(d, v.FormatTypeCode, v.Subtype, v.VersionNumber)
		c := v.AirborneCapabilityClass
		bits(d, 11, 11, int64(c.NotACASStatus), "not ACAS")
		bits(d, 12, 12, int64(c.CockpitDisplayOfTrafficInformationStatus), "traffic display (airborne)")
		bits(d, 15, 15, int64(c.AirReferencedVelocityReportCapability), "air referenced velocity (version 1)")
		bits(d, 16, 16, int64(c.TargetStateReportCapability), "target state reports (version 1)")
		bits(d, 17, 18, int64(c.TargetChangeReportCapability), "target change reports (version 1)")
		mode1(d, v.OperationalMode)
		bits(d, 44, 44, int64(v.NICSupplement), "NIC supplement (airborne version 1)")
		bits(d, 45, 48, int64(v.NavigationalAccuracyCategoryPosition), "accuracy (airborne version 1)")
		bits(d, 51, 52, int64(v.SurveillanceIntegrityLevel), "integrity level (airborne version 1)")
		bits(d, 53, 53, int64(v.NICBaro), "barometric cross check (version 1)")
		bits(d, 54, 54, int64(v.HorizontalReferenceDirection), "heading reference (airborne version 1)")
	case *bds65.AircraftOperationalStatusSurfaceADSB1:
		sym.Reach("surface version 1")
		sym.Assert(kind == spec.SqOperSurfaceV1, "format of surface version 1")
		head(d, v.FormatTypeCode, v.Subtype, v.VersionNumber)
		c := v.SurfaceCapabilityClass
		bits(d, 11, 11, int64(c.PositionOffsetApplied), "position offset")
		bits(d, 12, 12, int64(c.CockpitDisplayOfTrafficInformationStatus), "traffic display (surface)")
		bits(d, 15, 15, int64(c.B2Low), "low transmit power (version 1)")
		bits(d, 21, 24, int64(v.LengthAndWidth), "length and width (version 1)")
		mode1(d, v.OperationalMode)
		bits(d, 44, 44, int64(v.NICSupplement), "NIC supplement (surface version 1)")
		bits(d, 45, 48, int64(v.NavigationalAccuracyCategoryPosition), "accuracy (surface version 1)")
		bits(d, 51, 52, int64(v.SurveillanceIntegrityLevel), "integrity level (surface version 1)")
		bits(d, 53, 53, int64(v.TrackAngleHeading), "track or heading (version 1)")
		bits(d, 54, 54, int64(v.HorizontalReferenceDirection), "heading reference (surface version 1)")
	case *bds65.AircraftOperationalStatusAirborneADSB2:
		sym.Reach("airborne version 2")
		sym.Assert(kind == spec.SqOperAirborneV2, "format of airborne version 2")
		head(d, v.FormatTypeCode, v.Subtype, v.VersionNumber)
		c := v.AirborneCapabilityClass
		bits(d, 11, 11, int64(c.ACASOperational), "ACAS operational")
		bits(d, 12, 12, int64(c.ExtendedSquitterIn), "extended squitter in (airborne)")
		bits(d, 15, 15, int64(c.AirReferencedVelocityReportCapability), "air referenced velocity (version 2)")
		bits(d, 16, 16, int64(c.TargetStateReportCapability), "target state reports (version 2)")
		bits(d, 17, 18, int64(c.TargetChangeReportCapability), "target change reports (version 2)")
		bits(d, 19, 19, int64(c.UniversalAccessTransceiverCapability), "universal access transceiver (airborne)")
		o := v.OperationalMode
		bits(d, 27, 27, int64(o.ACASResolutionAdvisoryActive), "advisory active (airborne version 2)")
		bits(d, 28, 28, int64(o.IdentSwitchActive), "ident switch (airborne version 2)")
		bits(d, 30, 30, int64(o.SingleAntennaFlag), "single antenna (airborne)")
		bits(d, 31, 32, int64(o.SystemDesignAssurance), "design assurance (airborne)")
		bits(d, 44, 44, int64(v.NICSupplementA), "NIC supplement (airborne version 2)")
		bits(d, 45, 48, int64(v.NavigationalAccuracyCategoryPosition), "accuracy (airborne version 2)")
		bits(d, 49, 50, int64(v.GeometricVerticalAccuracy), "vertical accuracy")
		bits(d, 51, 52, int64(v.SourceIntegrityLevel), "integrity level (airborne version 2)")
		bits(d, 53, 53, int64(v.NICBaro), "barometric cross check (version 2)")
		bits(d, 54, 54, int64(v.HorizontalReferenceDirection), "heading reference (airborne version 2)")
		bits(d, 55, 55, int64(v.SourceIntegrityLevelSupplement), "integrity level supplement (airborne)")
	case *bds65.AircraftOperationalStatusSurfaceADSB2:
		sym.Reach("surface version 2")
		sym.Assert(kind == spec.SqOperSurfaceV2, "format of surface version 2")
		head(d, v.FormatTypeCode, v.Subtype, v.VersionNumber)
		c := v.SurfaceCapabilityClass
		bits(d, 12, 12, int64(c.ExtendedSquitterIn), "extended squitter in (surface)")
		bits(d, 15, 15, int64(c.B2Low), "low transmit power (version 2)")
		bits(d, 16, 16, int64(c.UniversalAccessTransceiverCapability), "universal access transceiver (surface)")
		bits(d, 17, 19, int64(c.NavigationAccuracyCategoryVelocity), "velocity accuracy")
		bits(d, 20, 20, int64(c.NICSupplementC), "NIC supplement C")
		bits(d, 21, 24, int64(v.LengthAndWidth), "length and width (version 2)")
		o := v.OperationalMode
		bits(d, 27, 27, int64(o.ACASResolutionAdvisoryActive), "advisory active (surface version 2)")
		bits(d, 28, 28, int64(o.IdentSwitchActive), "ident switch (surface version 2)")
		bits(d, 30, 30, int64(o.SingleAntennaFlag), "single antenna (surface)")
		bits(d, 31, 32, int64(o.SystemDesignAssurance), "design assurance (surface)")
		bits(d, 33, 35, int64(o.GPSAntenna.GPSAntennaLateral), "lateral antenna offset")
		bits(d, 36, 40, int64(o.GPSAntenna.GPSAntennaLongitudinal), "longitudinal antenna offset")
		bits(d, 44, 44, int64(v.NICSupplementA), "NIC supplement (surface version 2)")
		bits(d, 45, 48, int64(v.NavigationalAccuracyCategoryPosition), "accuracy (surface version 2)")
		bits(d, 51, 52, int64(v.SourceIntegrityLevel), "integrity level (surface version 2)")
		bits(d, 53, 53, int64(v.TrackAngleHeading), "track or heading (version 2)")
		bits(d, 54, 54, int64(v.HorizontalReferenceDirection), "heading reference (surface version 2)")
		bits(d, 55, 55, int64(v.SourceIntegrityLevelSupplement), "integrity level supplement (surface)")
	default:
		sym.Assert(false, "an operational status is one of the five formats")
	}
}

// HSquitter decides operational status squitters.
func HSquitter() {
	d := sym.Bytes("me", 7)
	d[0] = 31<<3 | d[0]&7
	want := spec.SquitterKind(d, 0)
	m, err := reader.ReadADSBMessage(adsb.ADSBVersion(sym.Uint("version", 8)), sym.Bool("nicA"), sym.Bool("nicC"), d)
	sym.Assert((err == nil) == (want != spec.SqRefused), "an operational status is refused exactly when its version or subtype is unknown or a reserved bit is set")
	if err != nil {
		sym.Reach("refused")
		return
	}
	w, ok := m.(*aircraft_operational_status.AircraftOperationalStatus)
	sym.Assert(ok, "an operational status is decoded as one")
	if ok {
		sym.Eq(int64(m.GetADSBVersion()), int64(spec.Bits(d, 41, 43)), "the squitter reports the version it encodes")
		content(d, w.AircraftOperationalStatus)
	}
}

// HRegister decides register 6,5.
func HRegister() {
	d := sym.Bytes("mb", 7)
	d[0] = 31<<3 | d[0]&7
	want := spec.SquitterKind(d, 0)
	m, err := bds65.ReadAircraftOperationalStatus(d)
	sym.Assert((err == nil) == (want != spec.SqRefused), "the register is read exactly when it has a known format")
	if err == nil {
		content(d, m)
	} else {
		sym.Reach("refused")
	}
}
