// Package c07: squitter contents are interpreted by type code, subtype and version.
package c07

import (
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/airborne_position"
	"github.com/twuillemin/modes/pkg/adsb/airborne_velocity"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_identification_and_category"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_operational_status"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_status"
	"github.com/twuillemin/modes/pkg/adsb/no_position_information"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/adsb/surface_position"
	"github.com/twuillemin/modes/pkg/adsb/target_state_and_status"
	"github.com/twuillemin/modes/pkg/bds/bds09"
	"github.com/twuillemin/modes/pkg/bds/bds61"
	"github.com/twuillemin/modes/pkg/bds/bds62"
	"github.com/twuillemin/modes/pkg/bds/bds65"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "all 56 content bits, the version byte (0 to 255) and both supplement bits symbolic; every other content length from 0 to 16 bytes, and nil"

func kind(m adsb.Message) int {
	switch v := m.(type) {
	case *no_position_information.NoPositionInformation:
		return spec.SqNoPosition
	case *airborne_position.AirbornePositionType0:
		return spec.SqAirborneType0
	case *aircraft_identification_and_category.AircraftIdentificationAndCategory:
		return spec.SqIdentification
	case *surface_position.SurfacePositionV0:
		return spec.SqSurfaceV0
	case *surface_position.SurfacePositionV1:
		return spec.SqSurfaceV1
	case *surface_position.SurfacePositionV2:
		return spec.SqSurfaceV2
	case *airborne_position.AirbornePositionV0:
		return spec.SqAirborneV0
	case *airborne_position.AirbornePositionV1:
		return spec.SqAirborneV1
	case *airborne_position.AirbornePositionV2:
		return spec.SqAirborneV2
	case *airborne_velocity.AirborneVelocity:
		switch v.AirborneVelocity.(type) {
		case *bds09.AirborneVelocityGroundSpeedNormal:
			return spec.SqGroundSpeed
		case *bds09.AirborneVelocityGroundSpeedSupersonic:
			return spec.SqGroundSpeedSupersonic
		case *bds09.AirborneVelocityAirSpeedNormal:
			return spec.SqAirSpeed
		case *bds09.AirborneVelocityAirSpeedSupersonic:
			return spec.SqAirSpeedSupersonic
		}
	case *aircraft_status.AircraftStatus:
		switch v.AircraftStatus.(type) {
		case *bds61.AircraftStatusNoInformation:
			return spec.SqStatusNone
		case *bds61.AircraftStatusEmergency:
			return spec.SqStatusEmergency
		case *bds61.AircraftStatusACAS:
			return spec.SqStatusRA
		}
	case *target_state_and_status.TargetStateAndStatus:
		switch v.TargetStateAndStatus.(type) {
		case *bds62.TargetStateAndStatus0:
			return spec.SqTarget0
		case *bds62.TargetStateAndStatus1:
			return spec.SqTarget1
		}
	case *aircraft_operational_status.AircraftOperationalStatus:
		switch v.AircraftOperationalStatus.(type) {
		case *bds65.AircraftOperationalStatusADSB0:
			return spec.SqOperV0
		case *bds65.AircraftOperationalStatusAirborneADSB1:
			return spec.SqOperAirborneV1
		case *bds65.AircraftOperationalStatusSurfaceADSB1:
			return spec.SqOperSurfaceV1
		case *bds65.AircraftOperationalStatusAirborneADSB2:
			return spec.SqOperAirborneV2
		case *bds65.AircraftOperationalStatusSurfaceADSB2:
			return spec.SqOperSurfaceV2
		}
	}
	return -1
}

func version(m adsb.Message) int64 { return int64(m.GetADSBVersion()) }

// HDispatch decides the interpretation of all contents of 7 bytes.
func HDispatch() {
	d := sym.Bytes("me", 7)
	ver := sym.Uint("version", 8)
	m, err := reader.ReadADSBMessage(adsb.ADSBVersion(ver), sym.Bool("nicA"), sym.Bool("nicC"), d)
	want := spec.SquitterKind(d, ver)
	sym.Assert((err == nil) == (want != spec.SqRefused), "contents are refused exactly when they have no interpretation")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("decoded")
	sym.Eq(int64(kind(m)), int64(want), "the interpretation is that of type code, subtype and version")
	if want >= spec.SqOperV0 {
		return
	}
	sym.Eq(version(m), int64(ver), "the sender's version is kept")
}

// HLengths decides contents of any other length.
func HLengths() {
	ver := adsb.ADSBVersion(sym.Uint("version", 8))
	_, err := reader.ReadADSBMessage(ver, sym.Bool("nicA"), sym.Bool("nicC"), nil)
	sym.Assert(err != nil, "empty contents are refused")
	for n := 0; n <= 16; n++ {
		if n == 7 {
			continue
		}
		_, err := reader.ReadADSBMessage(ver, sym.Bool("nicA"), sym.Bool("nicC"), sym.Bytes("me", n))
		sym.Assert(err != nil, "contents that are not 7 bytes long are refused")
	}
	sym.Reach("end")
}
