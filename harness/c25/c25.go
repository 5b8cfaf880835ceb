// Package c25: decoding is a pure function of its arguments.
package c25

import (
	"github.com/twuillemin/modes/pkg/acas/ra"
	"github.com/twuillemin/modes/pkg/adsb"
	adsbreader "github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/bds/bds00"
	"github.com/twuillemin/modes/pkg/bds/bds05"
	"github.com/twuillemin/modes/pkg/bds/bds06"
	"github.com/twuillemin/modes/pkg/bds/bds07"
	"github.com/twuillemin/modes/pkg/bds/bds08"
	"github.com/twuillemin/modes/pkg/bds/bds09"
	"github.com/twuillemin/modes/pkg/bds/bds10"
	"github.com/twuillemin/modes/pkg/bds/bds17"
	"github.com/twuillemin/modes/pkg/bds/bds20"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds40"
	"github.com/twuillemin/modes/pkg/bds/bds44"
	"github.com/twuillemin/modes/pkg/bds/bds45"
	"github.com/twuillemin/modes/pkg/bds/bds50"
	"github.com/twuillemin/modes/pkg/bds/bds60"
	"github.com/twuillemin/modes/pkg/bds/bds61"
	"github.com/twuillemin/modes/pkg/bds/bds62"
	"github.com/twuillemin/modes/pkg/bds/bds65"
	"github.com/twuillemin/modes/pkg/commb"
	"github.com/twuillemin/modes/pkg/geo"
	"github.com/twuillemin/modes/pkg/modes/common"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "histories of three decodings - first input, second input, first input again - at every entry point, all bits of both inputs, versions, supplement bits and allow-lists symbolic"

// result is what a decoding returned: its text, and the text of its error.
type result struct {
	render func() string
	err    string
}

func (r result) text() string {
	if r.render == nil {
		return ""
	}
	return r.render()
}

// history decodes the first input, the second, and the first again.
func history(n1, n2 int, decode func(which int, d []byte) result) {
	a, b := sym.Bytes("first", n1), sym.Bytes("second", n2)
	a0, b0 := clone(a), clone(b)
	r1 := decode(1, a)
	t1 := r1.text()
	sym.Assert(same(a, a0), "decoding leaves its input as it was")
	r2 := decode(2, b)
	t2 := r2.text()
	sym.Assert(same(a, a0), "decoding leaves an earlier input as it was")
	sym.Assert(same(b, b0), "decoding leaves its input as it was")
	sym.Assert(r1.text() == t1, "later decoding leaves an earlier result as it was")
	r3 := decode(1, a)
	sym.Assert(r3.err == r1.err, "decoding again ends in the same way")
	sym.Assert(r3.text() == t1, "decoding again gives the same result")
	sym.Assert(r2.text() == t2, "later decoding leaves an earlier result as it was")
	sym.Reach("history")
}

func clone(d []byte) []byte { return append([]byte{}, d...) }

func same(a, b []byte) bool {
	ok := len(a) == len(b)
	for i := range a {
		ok = ok && a[i] == b[i]
	}
	return ok
}

func frame(_ int, d []byte) result {
	m, err := modesreader.ReadMessage(d)
	if err != nil {
		return result{err: err.Error()}
	}
	return result{render: m.ToString}
}

// HFrames decides the frame reader, short and long frames mixed.
func HFrames77() { history(7, 7, frame) }

// HFrames714 decides the frame reader.
func HFrames714() { history(7, 14, frame) }

// HFrames147 decides the frame reader.
func HFrames147() { history(14, 7, frame) }

// HFrames1414 decides the frame reader.
func HFrames1414() { history(14, 14, frame) }

func parity(n1, n2 int) {
	d := [][]byte{sym.Bytes("first", n1), sym.Bytes("second", n2)}
	keep := [][]byte{clone(d[0]), clone(d[1])}
	var addr [3]common.ICAOAddress
	var text [3]string
	x, y := common.ICAOAddress(sym.Uint("x", 24)), common.ICAOAddress(sym.Uint("y", 24))
	filter := sym.Bool("filter")
	la, li := map[common.ICAOAddress]bool{}, map[common.ICAOAddress]bool{}
	if filter {
		la[x] = true
		li[y] = true
	}
	for i := 0; i < 3; i++ {
		m, err := modesreader.ReadMessage(d[i%2])
		if err != nil {
			return
		}
		a, err := modesreader.CheckCRC(m, d[i%2], la, li)
		addr[i] = a
		if err != nil {
			text[i] = err.Error()
		}
		sym.Assert(same(d[0], keep[0]) && same(d[1], keep[1]), "the parity check leaves the frames as they were")
		if filter {
			sym.Assert(len(la) == 1 && len(li) == 1 && la[x] && li[y], "the parity check leaves the lists as they were")
		} else {
			sym.Assert(len(la) == 0 && len(li) == 0, "the parity check leaves the lists as they were")
		}
	}
	sym.Assert(text[0] == text[2] && addr[0] == addr[2], "the parity check depends on its arguments alone")
	sym.Reach("history")
}

// HParity77 decides the parity check.
func HParity77() { parity(7, 7) }

// HParity714 decides the parity check.
func HParity714() { parity(7, 14) }

// HParity147 decides the parity check.
func HParity147() { parity(14, 7) }

// HParity1414 decides the parity check.
func HParity1414() { parity(14, 14) }

// HSquitters decides the squitter reader.
func HSquitters() {
	v := []adsb.ADSBVersion{adsb.ADSBVersion(sym.Uint("version1", 8)), adsb.ADSBVersion(sym.Uint("version2", 8))}
	a := []bool{sym.Bool("nicA1"), sym.Bool("nicA2")}
	c := []bool{sym.Bool("nicC1"), sym.Bool("nicC2")}
	history(7, 7, func(w int, d []byte) result {
		m, err := adsbreader.ReadADSBMessage(v[w-1], a[w-1], c[w-1], d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HCommB decides the Comm-B reader.
func HCommB() {
	history(7, 7, func(_ int, d []byte) result {
		l, err := commb.ReadCommBMessage(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: func() string {
			s := ""
			for _, m := range l {
				s += m.ToString() + "\n"
			}
			return s
		}}
	})
}

// HAdvisory decides the advisory reader.
func HAdvisory() {
	history(6, 6, func(_ int, d []byte) result {
		m, err := ra.ReadResolutionAdvisory(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds05AirbornePosition decides bds05.ReadAirbornePosition.
func HBds05AirbornePosition() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds05.ReadAirbornePosition(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds06SurfacePosition decides bds06.ReadSurfacePosition.
func HBds06SurfacePosition() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds06.ReadSurfacePosition(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds08AircraftIdentificationAndCategory decides bds08.ReadAircraftIdentificationAndCategory.
func HBds08AircraftIdentificationAndCategory() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds08.ReadAircraftIdentificationAndCategory(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds09AirborneVelocityGroundSpeedNormal decides bds09.ReadAirborneVelocityGroundSpeedNormal.
func HBds09AirborneVelocityGroundSpeedNormal() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds09.ReadAirborneVelocityGroundSpeedNormal(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds09AirborneVelocityGroundSpeedSupersonic decides bds09.ReadAirborneVelocityGroundSpeedSupersonic.
func HBds09AirborneVelocityGroundSpeedSupersonic() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds09.ReadAirborneVelocityGroundSpeedSupersonic(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds09AirborneVelocityAirSpeedNormal decides bds09.ReadAirborneVelocityAirSpeedNormal.
func HBds09AirborneVelocityAirSpeedNormal() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds09.ReadAirborneVelocityAirSpeedNormal(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds09AirborneVelocityAirSpeedSupersonic decides bds09.ReadAirborneVelocityAirSpeedSupersonic.
func HBds09AirborneVelocityAirSpeedSupersonic() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds09.ReadAirborneVelocityAirSpeedSupersonic(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds61AircraftStatusNoInformation decides bds61.ReadAircraftStatusNoInformation.
func HBds61AircraftStatusNoInformation() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds61.ReadAircraftStatusNoInformation(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds61AircraftStatusEmergency decides bds61.ReadAircraftStatusEmergency.
func HBds61AircraftStatusEmergency() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds61.ReadAircraftStatusEmergency(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds61AircraftStatusACAS decides bds61.ReadAircraftStatusACAS.
func HBds61AircraftStatusACAS() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds61.ReadAircraftStatusACAS(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds62TargetStateAndStatus0 decides bds62.ReadTargetStateAndStatus0.
func HBds62TargetStateAndStatus0() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds62.ReadTargetStateAndStatus0(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds62TargetStateAndStatus1 decides bds62.ReadTargetStateAndStatus1.
func HBds62TargetStateAndStatus1() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds62.ReadTargetStateAndStatus1(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds65AircraftOperationalStatusADSB0 decides bds65.ReadAircraftOperationalStatusADSB0.
func HBds65AircraftOperationalStatusADSB0() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds65.ReadAircraftOperationalStatusADSB0(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds65AircraftOperationalStatusAirborneADSB1 decides bds65.ReadAircraftOperationalStatusAirborneADSB1.
func HBds65AircraftOperationalStatusAirborneADSB1() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds65.ReadAircraftOperationalStatusAirborneADSB1(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds65AircraftOperationalStatusAirborneADSB2 decides bds65.ReadAircraftOperationalStatusAirborneADSB2.
func HBds65AircraftOperationalStatusAirborneADSB2() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds65.ReadAircraftOperationalStatusAirborneADSB2(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds65AircraftOperationalStatusSurfaceADSB1 decides bds65.ReadAircraftOperationalStatusSurfaceADSB1.
func HBds65AircraftOperationalStatusSurfaceADSB1() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds65.ReadAircraftOperationalStatusSurfaceADSB1(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds65AircraftOperationalStatusSurfaceADSB2 decides bds65.ReadAircraftOperationalStatusSurfaceADSB2.
func HBds65AircraftOperationalStatusSurfaceADSB2() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds65.ReadAircraftOperationalStatusSurfaceADSB2(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds00NoMessageAvailable decides bds00.ReadNoMessageAvailable.
func HBds00NoMessageAvailable() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds00.ReadNoMessageAvailable(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds07Status decides bds07.ReadStatus.
func HBds07Status() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds07.ReadStatus(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds10DataLinkCapabilityReport decides bds10.ReadDataLinkCapabilityReport.
func HBds10DataLinkCapabilityReport() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds10.ReadDataLinkCapabilityReport(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds17CommonUsageGICBCapabilityReport decides bds17.ReadCommonUsageGICBCapabilityReport.
func HBds17CommonUsageGICBCapabilityReport() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds17.ReadCommonUsageGICBCapabilityReport(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds20AircraftIdentification decides bds20.ReadAircraftIdentification.
func HBds20AircraftIdentification() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds20.ReadAircraftIdentification(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds30ACASResolutionAdvisory decides bds30.ReadACASResolutionAdvisory.
func HBds30ACASResolutionAdvisory() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds30.ReadACASResolutionAdvisory(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds40SelectedVerticalIntention decides bds40.ReadSelectedVerticalIntention.
func HBds40SelectedVerticalIntention() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds40.ReadSelectedVerticalIntention(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds44MeteorologicalRoutineAirReportV0 decides bds44.ReadMeteorologicalRoutineAirReportV0.
func HBds44MeteorologicalRoutineAirReportV0() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds44.ReadMeteorologicalRoutineAirReportV0(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds44MeteorologicalRoutineAirReportV1 decides bds44.ReadMeteorologicalRoutineAirReportV1.
func HBds44MeteorologicalRoutineAirReportV1() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds44.ReadMeteorologicalRoutineAirReportV1(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds44MeteorologicalRoutineAirReportV2 decides bds44.ReadMeteorologicalRoutineAirReportV2.
func HBds44MeteorologicalRoutineAirReportV2() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds44.ReadMeteorologicalRoutineAirReportV2(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds45MeteorologicalHazardReportV0 decides bds45.ReadMeteorologicalHazardReportV0.
func HBds45MeteorologicalHazardReportV0() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds45.ReadMeteorologicalHazardReportV0(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds45MeteorologicalHazardReportV1 decides bds45.ReadMeteorologicalHazardReportV1.
func HBds45MeteorologicalHazardReportV1() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds45.ReadMeteorologicalHazardReportV1(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds50TrackAndTurnReport decides bds50.ReadTrackAndTurnReport.
func HBds50TrackAndTurnReport() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds50.ReadTrackAndTurnReport(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HBds60HeadingAndSpeedReport decides bds60.ReadHeadingAndSpeedReport.
func HBds60HeadingAndSpeedReport() {
	history(7, 7, func(_ int, d []byte) result {
		m, err := bds60.ReadHeadingAndSpeedReport(d)
		if err != nil {
			return result{err: err.Error()}
		}
		return result{render: m.ToString}
	})
}

// HAirborneGlobal decides the position functions.
func HAirborneGlobal() {
	decode := func(k string) (float64, float64, bool) {
		lat, lon, err := geo.GetCPRAirborneGlobalPosition(uint32(sym.Uint("elat"+k, 17)), uint32(sym.Uint("elon"+k, 17)), uint32(sym.Uint("olat"+k, 17)), uint32(sym.Uint("olon"+k, 17)), sym.Bool("last"+k))
		return lat, lon, err == nil
	}
	lat1, lon1, ok1 := decode("1")
	decode("2")
	lat3, lon3, ok3 := decode("1")
	sym.Assert(ok1 == ok3 && (!ok1 || alike(lat1, lat3) && alike(lon1, lon3)), "computing again gives the same result")
	sym.Reach("history")
}

// HSurfaceGlobal decides the position functions.
func HSurfaceGlobal() {
	decode := func(k string) (float64, float64, bool) {
		lat, lon, err := geo.GetCPRSurfaceGlobalPosition(uint32(sym.Uint("elat"+k, 17)), uint32(sym.Uint("elon"+k, 17)), uint32(sym.Uint("olat"+k, 17)), uint32(sym.Uint("olon"+k, 17)), sym.Bool("last"+k), sym.Real("rlat"+k, -90, 90), sym.Real("rlon"+k, -180, 180))
		return lat, lon, err == nil
	}
	lat1, lon1, ok1 := decode("1")
	decode("2")
	lat3, lon3, ok3 := decode("1")
	sym.Assert(ok1 == ok3 && (!ok1 || alike(lat1, lat3) && alike(lon1, lon3)), "computing again gives the same result")
	sym.Reach("history")
}

// HAirborneLocal decides the position functions.
func HAirborneLocal() {
	decode := func(k string) (float64, float64, bool) {
		lat, lon := geo.GetCPRAirborneLocalPosition(uint32(sym.Uint("lat"+k, 17)), uint32(sym.Uint("lon"+k, 17)), sym.Real("rlat"+k, -90, 90), sym.Real("rlon"+k, -180, 180), sym.Bool("odd"+k))
		return lat, lon, true
	}
	lat1, lon1, ok1 := decode("1")
	decode("2")
	lat3, lon3, ok3 := decode("1")
	sym.Assert(ok1 == ok3 && (!ok1 || alike(lat1, lat3) && alike(lon1, lon3)), "computing again gives the same result")
	sym.Reach("history")
}

// HSurfaceLocal decides the position functions.
func HSurfaceLocal() {
	decode := func(k string) (float64, float64, bool) {
		lat, lon := geo.GetCPRSurfaceLocalPosition(uint32(sym.Uint("lat"+k, 17)), uint32(sym.Uint("lon"+k, 17)), sym.Real("rlat"+k, -90, 90), sym.Real("rlon"+k, -180, 180), sym.Bool("odd"+k))
		return lat, lon, true
	}
	lat1, lon1, ok1 := decode("1")
	decode("2")
	lat3, lon3, ok3 := decode("1")
	sym.Assert(ok1 == ok3 && (!ok1 || alike(lat1, lat3) && alike(lon1, lon3)), "computing again gives the same result")
	sym.Reach("history")
}

// HDistance decides the position functions.
func HDistance() {
	decode := func(k string) (float64, float64, bool) {
		return geo.ComputeGroundDistance(sym.Real("lat1"+k, -90, 90), sym.Real("lon1"+k, -180, 180), sym.Real("lat2"+k, -90, 90), sym.Real("lon2"+k, -180, 180)), 0, true
	}
	lat1, lon1, ok1 := decode("1")
	decode("2")
	lat3, lon3, ok3 := decode("1")
	sym.Assert(ok1 == ok3 && (!ok1 || alike(lat1, lat3) && alike(lon1, lon3)), "computing again gives the same result")
	sym.Reach("history")
}

// alike compares two numbers.
func alike(a, b float64) bool { return a == b || a != a && b != b }
