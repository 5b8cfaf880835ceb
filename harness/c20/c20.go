// Package c20: the meteorological registers give the encoded weather.
package c20

import (
	"github.com/twuillemin/modes/pkg/bds/bds44"
	"github.com/twuillemin/modes/pkg/bds/bds45"
	"github.com/twuillemin/modes/pkg/bds/register"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "all 56 bits of registers 4,4 and 4,5 in each of their formats; floating point values within 0.01 of the exact value, less than half a step"

type bits struct{ d []byte }

func (b bits) u(first, last int, got int64, label string) {
	sym.Eq(got, int64(spec.Bits(b.d, first, last)), label)
}

func (b bits) st(n int, got bool, label string) { b.u(n, n, spec.B2I(got), label) }

func twos(d []byte, first, last int) int64 {
	n := int64(spec.Bits(d, first, last))
	if spec.Bit(d, first) {
		n -= int64(1) << uint(last-first+1)
	}
	return n
}

func checkV0(d []byte, m *bds44.MeteorologicalRoutineAirReportV0) {
	b := bits{d}
	sym.Assert(m.GetRegister() == register.BDS44, "V0: register number 4,4")
	b.u(1, 4, int64(m.Source), "V0: source")
	b.u(1, 4, int64(m.GetSource()), "V0: reported source")
	b.st(5, m.WindSpeedStatus, "V0: wind speed status")
	b.st(5, m.WindDirectionStatus, "V0: wind direction status")
	b.u(6, 14, int64(m.WindSpeed), "V0: wind speed in steps of 1 kt")
	sym.Near(float64(m.WindDirection), float64(int64(spec.Bits(d, 15, 23))*180)/256, 0.01, "V0: wind direction in steps of 180/256 degrees")
	sym.Near(float64(m.StaticAirTemperature), float64(twos(d, 24, 34))/4, 0.01, "V0: temperature in steps of 0.25 degrees")
	b.st(35, m.AverageStaticPressureStatus, "V0: pressure status")
	b.u(36, 46, int64(m.AverageStaticPressure), "V0: pressure in steps of 1 hPa")
	b.st(47, m.TurbulenceStatus, "V0: turbulence status")
	b.u(48, 49, int64(m.Turbulence), "V0: turbulence")
	b.st(50, m.HumidityStatus, "V0: humidity status")
	sym.Near(float64(m.Humidity), float64(int64(spec.Bits(d, 51, 56))*100)/64, 0.01, "V0: humidity in steps of 100/64 percent")
}

func checkV1(d []byte, m *bds44.MeteorologicalRoutineAirReportV1) {
	b := bits{d}
	sym.Assert(m.GetRegister() == register.BDS44, "V1: register number 4,4")
	sym.Eq(int64(m.GetSource()), 0, "V1: no source")
	b.st(5, m.WindSpeedStatus, "V1: wind speed status")
	b.u(6, 14, int64(m.WindSpeed), "V1: wind speed in steps of 1 kt")
	b.st(15, m.WindDirectionStatus, "V1: wind direction status")
	sym.Near(float64(m.WindDirection), float64(int64(spec.Bits(d, 16, 23))*180)/128, 0.01, "V1: wind direction in steps of 180/128 degrees")
	b.st(24, m.StaticAirTemperatureStatus, "V1: temperature status")
	sym.Near(float64(m.StaticAirTemperature), float64(twos(d, 25, 35))/8, 0.01, "V1: temperature in steps of 0.125 degrees")
	b.st(36, m.AverageStaticPressureStatus, "V1: pressure status")
	b.u(37, 47, int64(m.AverageStaticPressure), "V1: pressure in steps of 1 hPa")
	b.u(48, 48, int64(m.TurbulenceFlag), "V1: turbulence flag")
	b.st(49, m.HumidityStatus, "V1: humidity status")
	sym.Near(float64(m.Humidity), float64(spec.Bits(d, 50, 56)), 0.01, "V1: humidity in steps of 1 percent")
}

func checkV2(d []byte, m *bds44.MeteorologicalRoutineAirReportV2) {
	b := bits{d}
	sym.Assert(m.GetRegister() == register.BDS44, "V2: register number 4,4")
	b.u(1, 4, int64(m.Source), "V2: source")
	sym.Except("C20-V2-source", spec.Bits(d, 1, 4) != 0 && m.GetSource() == 0, int64(m.GetSource()) == int64(spec.Bits(d, 1, 4)), "V2: reported source")
	b.st(5, m.WindSpeedStatus, "V2: wind speed status")
	b.u(6, 14, int64(m.WindSpeed), "V2: wind speed in steps of 1 kt")
	b.st(15, m.WindDirectionStatus, "V2: wind direction status")
	sym.Near(float64(m.WindDirection), float64(int64(spec.Bits(d, 16, 23))*180)/128, 0.01, "V2: wind direction in steps of 180/128 degrees")
	b.st(24, m.StaticAirTemperatureStatus, "V2: temperature status")
	sym.Near(float64(m.StaticAirTemperature), float64(twos(d, 25, 35))/8, 0.01, "V2: temperature in steps of 0.125 degrees")
	b.st(36, m.AverageStaticPressureStatus, "V2: pressure status")
	b.u(37, 47, int64(m.AverageStaticPressure), "V2: pressure in steps of 1 hPa")
	b.u(48, 48, int64(m.TurbulenceFlag), "V2: turbulence flag")
	b.st(49, m.HumidityStatus, "V2: humidity status")
	sym.Near(float64(m.Humidity), float64(spec.Bits(d, 50, 56)), 0.01, "V2: humidity in steps of 1 percent")
}

// HRoutineV0 decides the first format of register 4,4.
func HRoutineV0() {
	d := sym.Bytes("mb", 7)
	m, err := bds44.ReadMeteorologicalRoutineAirReportV0(d)
	sym.Assert(err == nil, "any seven bytes have the first format")
	if err == nil {
		sym.Reach("read")
		checkV0(d, m)
	}
}

// HRoutineV1 decides the revised format of register 4,4.
func HRoutineV1() {
	d := sym.Bytes("mb", 7)
	m, err := bds44.ReadMeteorologicalRoutineAirReportV1(d)
	sym.Assert((err == nil) == (spec.Bits(d, 1, 4) == 0), "the revised format has its reserved bits zero")
	if err == nil {
		sym.Reach("read")
		checkV1(d, m)
	} else {
		sym.Reach("refused")
	}
}

// HRoutineV2 decides the mixed format of register 4,4.
func HRoutineV2() {
	d := sym.Bytes("mb", 7)
	m, err := bds44.ReadMeteorologicalRoutineAirReportV2(d)
	sym.Assert(err == nil, "any seven bytes have the mixed format")
	if err == nil {
		sym.Reach("read")
		checkV2(d, m)
	}
}

// HRoutine decides which format register 4,4 is read in.
func HRoutine() {
	d := sym.Bytes("mb", 7)
	m, err := bds44.ReadMeteorologicalRoutineAirReport(d)
	src := spec.Bits(d, 1, 4)
	sym.Assert((err == nil) == (src <= 4), "a reserved source is refused, anything else read")
	if err != nil {
		sym.Reach("refused")
		return
	}
	switch x := m.(type) {
	case *bds44.MeteorologicalRoutineAirReportV1:
		sym.Reach("without source")
		sym.Assert(src == 0, "the revised format has no source")
		checkV1(d, x)
	case *bds44.MeteorologicalRoutineAirReportV2:
		sym.Reach("with source")
		sym.Assert(src != 0, "the mixed format has a source")
		checkV2(d, x)
	default:
		sym.Assert(false, "register 4,4 is read in its revised or mixed format")
	}
}

func hazardV0(d []byte, m *bds45.MeteorologicalHazardReportV0) {
	b := bits{d}
	sym.Assert(m.GetRegister() == register.BDS45, "V0: register number 4,5")
	b.st(1, m.TurbulenceStatus, "V0: turbulence status")
	b.st(1, m.GetTurbulenceStatus(), "V0: reported turbulence status")
	b.u(2, 3, int64(m.Turbulence), "V0: turbulence")
	b.st(4, m.WindShearStatus, "V0: wind shear status")
	b.u(5, 6, int64(m.WindShear), "V0: wind shear")
	b.st(7, m.MicroBurstStatus, "V0: microburst status")
	b.u(8, 9, int64(m.MicroBurst), "V0: microburst")
	b.st(10, m.IcingStatus, "V0: icing status")
	b.u(11, 12, int64(m.Icing), "V0: icing")
	b.st(13, m.WakeVortexStatus, "V0: wake vortex status")
	b.u(14, 15, int64(m.WakeVortex), "V0: wake vortex")
	b.st(16, m.StaticAirTemperatureStatus, "V0: temperature status")
	sym.Near(float64(m.StaticAirTemperature), float64(twos(d, 17, 26))/4, 0.01, "V0: temperature in steps of 0.25 degrees")
	b.st(27, m.AverageStaticPressureStatus, "V0: pressure status")
	b.u(28, 38, int64(m.AverageStaticPressure), "V0: pressure in steps of 1 hPa")
	b.st(39, m.RadioHeightStatus, "V0: radio height status")
	sym.Eq(int64(m.RadioHeight), 16*int64(spec.Bits(d, 40, 51)), "V0: radio height in steps of 16 ft")
}

func hazardV1(d []byte, m *bds45.MeteorologicalHazardReportV1) {
	b := bits{d}
	sym.Assert(m.GetRegister() == register.BDS45, "V1: register number 4,5")
	b.st(1, m.WindShearStatus, "V1: wind shear status")
	b.u(2, 3, int64(m.WindShear), "V1: wind shear")
	b.st(4, m.MicroBurstStatus, "V1: microburst status")
	b.u(5, 6, int64(m.MicroBurst), "V1: microburst")
	b.st(7, m.IcingStatus, "V1: icing status")
	b.u(8, 9, int64(m.Icing), "V1: icing")
	b.st(10, m.WakeVortexStatus, "V1: wake vortex status")
	b.u(11, 12, int64(m.WakeVortex), "V1: wake vortex")
	b.st(13, m.StaticAirTemperatureStatus, "V1: temperature status")
	sym.Near(float64(m.StaticAirTemperature), float64(twos(d, 14, 24))/8, 0.01, "V1: temperature in steps of 0.125 degrees")
	sym.Assert(!m.AverageStaticPressureStatus && m.AverageStaticPressure == 0, "V1: the format carries no pressure")
	b.st(25, m.RadioHeightStatus, "V1: radio height status")
	sym.Eq(int64(m.RadioHeight), 2*int64(spec.Bits(d, 26, 37)), "V1: radio height in steps of 2 ft")
	b.st(38, m.TurbulenceStatus, "V1: turbulence status")
	b.st(38, m.GetTurbulenceStatus(), "V1: reported turbulence status")
	sym.Near(float64(m.TurbulenceAverageEDR), float64(int64(spec.Bits(d, 39, 44))*2)/100, 0.005, "V1: average turbulence in steps of 0.02")
	sym.Near(float64(m.TurbulencePeakEDR), float64(int64(spec.Bits(d, 45, 50))*2)/100, 0.005, "V1: peak turbulence in steps of 0.02")
	b.u(51, 54, int64(m.TurbulencePeakDelayInterval), "V1: peak delay interval")
}

// HHazardV0 decides the first format of register 4,5.
func HHazardV0() {
	d := sym.Bytes("mb", 7)
	m, err := bds45.ReadMeteorologicalHazardReportV0(d)
	sym.Assert((err == nil) == (spec.Bits(d, 52, 56) == 0), "the first format has its reserved bits zero")
	if err == nil {
		sym.Reach("read")
		hazardV0(d, m)
	} else {
		sym.Reach("refused")
	}
}

// HHazardV1 decides the revised format of register 4,5.
func HHazardV1() {
	d := sym.Bytes("mb", 7)
	m, err := bds45.ReadMeteorologicalHazardReportV1(d)
	sym.Assert((err == nil) == (spec.Bits(d, 55, 56) == 0), "the revised format has its reserved bits zero")
	if err == nil {
		sym.Reach("read")
		hazardV1(d, m)
	} else {
		sym.Reach("refused")
	}
}

// HHazard decides which format register 4,5 is read in.
func HHazard() {
	d := sym.Bytes("mb", 7)
	m, err := bds45.ReadMeteorologicalHazardReport(d)
	sym.Assert((err == nil) == (spec.Bits(d, 55, 56) == 0), "the register is read exactly when one of its formats fits")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("read")
	switch x := m.(type) {
	case *bds45.MeteorologicalHazardReportV0:
		sym.Assert(spec.Bits(d, 52, 56) == 0, "the first format has its reserved bits zero")
		hazardV0(d, x)
	case *bds45.MeteorologicalHazardReportV1:
		sym.Reach("revised format")
		hazardV1(d, x)
	default:
		sym.Assert(false, "register 4,5 is read in one of its formats")
	}
}
