// Package c22: decoding any bytes ends with exactly one of a result and an error.
package c22

import (
	"github.com/twuillemin/modes/pkg/acas/ra"
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/airborne_position"
	"github.com/twuillemin/modes/pkg/adsb/airborne_velocity"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_identification_and_category"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_operational_status"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_status"
	"github.com/twuillemin/modes/pkg/adsb/no_position_information"
	adsbreader "github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/adsb/surface_position"
	"github.com/twuillemin/modes/pkg/adsb/target_state_and_status"
	"github.com/twuillemin/modes/pkg/bds"
	"github.com/twuillemin/modes/pkg/bds/bds00"
	"github.com/twuillemin/modes/pkg/bds/bds05"
	"github.com/twuillemin/modes/pkg/bds/bds06"
	"github.com/twuillemin/modes/pkg/bds/bds07"
	"github.com/twuillemin/modes/pkg/bds/bds08"
	"github.com/twuillemin/modes/pkg/bds/bds09"
	"github.com/twuillemin/modes/pkg/bds/bds10"
	"github.com/twuillemin/modes/pkg/bds/bds17"
	"github.com/twuillemin/modes/pkg/bds/bds20"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds40"
	"github.com/twuillemin/modes/pkg/bds/bds44"
	"github.com/twuillemin/modes/pkg/bds/bds45"
	"github.com/twuillemin/modes/pkg/bds/bds50"
	"github.com/twuillemin/modes/pkg/bds/bds60"
	"github.com/twuillemin/modes/pkg/bds/bds61"
	"github.com/twuillemin/modes/pkg/bds/bds62"
	"github.com/twuillemin/modes/pkg/bds/bds65"
	"github.com/twuillemin/modes/pkg/commb"
	"github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/messages"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "every frame reader, squitter reader, Comm-B reader, register reader and advisory reader, on nil and on byte strings of every length from 0 to 32, all bits symbolic; version byte 0 to 255 and both supplement bits symbolic; the parity check on every decoded frame with an allow-list of any one or two entries"

const (
	each   = "exactly one of a result and an error is returned"
	wrong  = "data of a length that does not exist is refused"
	longer = 32
)

// inputs is nil and one symbolic string of every length up to 32.
func inputs() [][]byte {
	in := [][]byte{nil}
	for n := 0; n <= longer; n++ {
		in = append(in, sym.Bytes("data", n))
	}
	return in
}

// one decides one call.
func one(d []byte, size int, none bool, err error) {
	sym.Assert(none == (err != nil), each)
	if len(d) != size {
		sym.Assert(err != nil, wrong)
		return
	}
	if err == nil {
		sym.Reach("read")
	}
}

func frame(m messages.ModeSMessage) (common.MessageData, bool) {
	switch v := m.(type) {
	case nil:
		return common.MessageData{}, true
	case *messages.MessageDF0:
		return v.MessageData, v == nil
	case *messages.MessageDF4:
		return v.MessageData, v == nil
	case *messages.MessageDF5:
		return v.MessageData, v == nil
	case *messages.MessageDF11:
		return v.MessageData, v == nil
	case *messages.MessageDF16:
		return v.MessageData, v == nil
	case *messages.MessageDF17:
		return v.MessageData, v == nil
	case *messages.MessageDF18:
		return v.MessageData, v == nil
	case *messages.MessageDF19:
		return v.MessageData, v == nil
	case *messages.MessageDF20:
		return v.MessageData, v == nil
	case *messages.MessageDF21:
		return v.MessageData, v == nil
	case *messages.MessageDF24:
		return v.MessageData, v == nil
	}
	return common.MessageData{}, false
}

// HFrames decides the frame reader and the parity check of what it returns.
func HFrames() {
	for _, d := range inputs() {
		m, err := modesreader.ReadMessage(d)
		none := m == nil
		sym.Assert(none == (err != nil), each)
		if len(d) != 7 && len(d) != 14 {
			sym.Assert(err != nil, wrong)
			continue
		}
		if err != nil {
			continue
		}
		sym.Reach("frame")
		_, typedNil := frame(m)
		sym.Assert(!typedNil, "a decoded frame is a message")
		allow := map[common.ICAOAddress]bool{common.ICAOAddress(sym.Uint("allowed", 24)): true}
		a, cerr := modesreader.CheckCRC(m, d, nil, allow)
		sym.Assert(cerr == nil || a == 0, "a refused parity check gives no address")
		a, cerr = modesreader.CheckCRC(m, d, allow, nil)
		sym.Assert(cerr == nil || a == 0, "a refused parity check gives no address")
	}
}

func noSquitter(m adsb.Message) bool {
	switch v := m.(type) {
	case nil:
		return true
	case *no_position_information.NoPositionInformation:
		return v == nil
	case *airborne_position.AirbornePositionType0:
		return v == nil
	case *airborne_position.AirbornePositionV0:
		return v == nil
	case *airborne_position.AirbornePositionV1:
		return v == nil
	case *airborne_position.AirbornePositionV2:
		return v == nil
	case *surface_position.SurfacePositionV0:
		return v == nil
	case *surface_position.SurfacePositionV1:
		return v == nil
	case *surface_position.SurfacePositionV2:
		return v == nil
	case *aircraft_identification_and_category.AircraftIdentificationAndCategory:
		return v == nil
	case *airborne_velocity.AirborneVelocity:
		return v == nil
	case *aircraft_status.AircraftStatus:
		return v == nil
	case *target_state_and_status.TargetStateAndStatus:
		return v == nil
	case *aircraft_operational_status.AircraftOperationalStatus:
		return v == nil
	}
	return false
}

func noRegister(m bds.Message) bool {
	switch v := m.(type) {
	case nil:
		return true
	case *bds00.NoMessageAvailable:
		return v == nil
	case *bds07.Status:
		return v == nil
	case *bds09.AirborneVelocityGroundSpeedNormal:
		return v == nil
	case *bds09.AirborneVelocityGroundSpeedSupersonic:
		return v == nil
	case *bds09.AirborneVelocityAirSpeedNormal:
		return v == nil
	case *bds09.AirborneVelocityAirSpeedSupersonic:
		return v == nil
	case *bds10.DataLinkCapabilityReport:
		return v == nil
	case *bds17.CommonUsageGICBCapabilityReport:
		return v == nil
	case *bds20.AircraftIdentification:
		return v == nil
	case *bds30.ACASResolutionAdvisory:
		return v == nil
	case *bds40.SelectedVerticalIntention:
		return v == nil
	case *bds44.MeteorologicalRoutineAirReportV0:
		return v == nil
	case *bds44.MeteorologicalRoutineAirReportV1:
		return v == nil
	case *bds44.MeteorologicalRoutineAirReportV2:
		return v == nil
	case *bds45.MeteorologicalHazardReportV0:
		return v == nil
	case *bds45.MeteorologicalHazardReportV1:
		return v == nil
	case *bds50.TrackAndTurnReport:
		return v == nil
	case *bds60.HeadingAndTrackReport:
		return v == nil
	case *bds61.AircraftStatusNoInformation:
		return v == nil
	case *bds61.AircraftStatusEmergency:
		return v == nil
	case *bds61.AircraftStatusACAS:
		return v == nil
	case *bds62.TargetStateAndStatus0:
		return v == nil
	case *bds62.TargetStateAndStatus1:
		return v == nil
	case *bds65.AircraftOperationalStatusADSB0:
		return v == nil
	case *bds65.AircraftOperationalStatusAirborneADSB1:
		return v == nil
	case *bds65.AircraftOperationalStatusAirborneADSB2:
		return v == nil
	case *bds65.AircraftOperationalStatusSurfaceADSB1:
		return v == nil
	case *bds65.AircraftOperationalStatusSurfaceADSB2:
		return v == nil
	}
	return false
}

// HSquitters decides the squitter reader.
func HSquitters() {
	ver := adsb.ADSBVersion(sym.Uint("version", 8))
	a, c := sym.Bool("nicA"), sym.Bool("nicC")
	for _, d := range inputs() {
		m, err := adsbreader.ReadADSBMessage(ver, a, c, d)
		one(d, 7, noSquitter(m), err)
	}
}

// HCommB decides the Comm-B reader.
func HCommB() {
	for _, d := range inputs() {
		l, err := commb.ReadCommBMessage(d)
		one(d, 7, l == nil, err)
		for _, m := range l {
			sym.Assert(!noRegister(m), "every reported interpretation is a register")
		}
	}
}

// HSquitterKinds decides the readers of the squitter kinds.
func HSquitterKinds() {
	ver := adsb.ADSBVersion(sym.Uint("version", 8))
	a, c := sym.Bool("nicA"), sym.Bool("nicC")
	for _, d := range inputs() {
		{
			m, err := airborne_position.ReadAirbornePositionV0(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := airborne_position.ReadAirbornePositionV1(d, a)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := airborne_position.ReadAirbornePositionV2(d, a)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := airborne_position.ReadAirbornePositionType0(ver, d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := surface_position.ReadSurfacePositionV0(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := surface_position.ReadSurfacePositionV1(d, a)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := surface_position.ReadSurfacePositionV2(d, a, c)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := no_position_information.ReadNoPositionInformation(ver, d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := aircraft_identification_and_category.ReadAircraftIdentificationAndCategory(ver, d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := airborne_velocity.ReadAirborneVelocity(ver, d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := aircraft_status.ReadAircraftStatus(ver, d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := target_state_and_status.ReadTargetStateAndStatus(ver, d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := aircraft_operational_status.ReadAircraftOperationalStatus(ver, d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := airborne_position.ReadAirbornePosition(ver, d, a)
			one(d, 7, noSquitter(m), err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := surface_position.ReadSurfacePosition(ver, d, a, c)
			one(d, 7, noSquitter(m), err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
	}
}

// HSquitterRegisters decides the readers of the registers that squitters carry.
func HSquitterRegisters() {
	for _, d := range inputs() {
		{
			m, err := bds05.ReadAirbornePosition(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds06.ReadSurfacePosition(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds08.ReadAircraftIdentificationAndCategory(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds09.ReadAirborneVelocityGroundSpeedNormal(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds09.ReadAirborneVelocityGroundSpeedSupersonic(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds09.ReadAirborneVelocityAirSpeedNormal(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds09.ReadAirborneVelocityAirSpeedSupersonic(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds09.ReadAirborneVelocity(d)
			one(d, 7, noRegister(m), err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds61.ReadAircraftStatusNoInformation(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds61.ReadAircraftStatusEmergency(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds61.ReadAircraftStatusACAS(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds61.ReadAircraftStatus(d)
			one(d, 7, noRegister(m), err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds62.ReadTargetStateAndStatus0(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds62.ReadTargetStateAndStatus1(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds62.ReadTargetStateAndStatus(d)
			one(d, 7, noRegister(m), err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds65.ReadAircraftOperationalStatusADSB0(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds65.ReadAircraftOperationalStatusAirborneADSB1(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds65.ReadAircraftOperationalStatusAirborneADSB2(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds65.ReadAircraftOperationalStatusSurfaceADSB1(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds65.ReadAircraftOperationalStatusSurfaceADSB2(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds65.ReadAircraftOperationalStatus(d)
			one(d, 7, noRegister(m), err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
	}
}

// HCommBRegisters decides the readers of the registers that Comm-B replies carry.
func HCommBRegisters() {
	for _, d := range inputs() {
		{
			m, err := bds00.ReadNoMessageAvailable(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds07.ReadStatus(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds10.ReadDataLinkCapabilityReport(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds17.ReadCommonUsageGICBCapabilityReport(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds20.ReadAircraftIdentification(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds30.ReadACASResolutionAdvisory(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds40.ReadSelectedVerticalIntention(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds44.ReadMeteorologicalRoutineAirReportV0(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds44.ReadMeteorologicalRoutineAirReportV1(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds44.ReadMeteorologicalRoutineAirReportV2(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds44.ReadMeteorologicalRoutineAirReport(d)
			one(d, 7, noRegister(m), err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds45.ReadMeteorologicalHazardReportV0(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds45.ReadMeteorologicalHazardReportV1(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds45.ReadMeteorologicalHazardReport(d)
			one(d, 7, noRegister(m), err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds50.ReadTrackAndTurnReport(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
		{
			m, err := bds60.ReadHeadingAndSpeedReport(d)
			one(d, 7, m == nil, err)
			if err == nil {
				sym.ObserveInt("judged", spec.B2I(m.CheckCoherency() == nil))
			}
		}
	}
}

// HAdvisory decides the reader of resolution advisories.
func HAdvisory() {
	for _, d := range inputs() {
		m, err := ra.ReadResolutionAdvisory(d)
		one(d, 6, m == nil, err)
	}
}
