// Package c03: altitude codes decode to the altitude they stand for.
package c03

import (
	"github.com/twuillemin/modes/pkg/bitutils"
	"github.com/twuillemin/modes/pkg/modes/fields"
	"github.com/twuillemin/modes/pkg/modes/messages"
	"github.com/twuillemin/modes/pkg/modes/reader"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "all 8192 altitude codes of DF 0, 4, 16 and 20 with every other bit of the frame symbolic; all 4096 Gillham codes; all pairs of Gillham codes"

func check(df byte, n int) {
	d := sym.Bytes("msg", n)
	d[0] = df<<3 | d[0]&7
	m, err := reader.ReadMessage(d)
	kind, feet := spec.Altitude13(d, 20)
	sym.Assert((err != nil) == (kind == spec.AltBad), "an error is reported exactly when no altitude has the code")
	if err != nil {
		sym.Reach("no such altitude")
		return
	}
	var alt int32
	var method fields.AltitudeReportMethod
	switch v := m.(type) {
	case *messages.MessageDF0:
		alt, method = v.Altitude, v.AltitudeReportMethod
	case *messages.MessageDF4:
		alt, method = v.Altitude, v.AltitudeReportMethod
	case *messages.MessageDF16:
		alt, method = v.Altitude, v.AltitudeReportMethod
	case *messages.MessageDF20:
		alt, method = v.Altitude, v.AltitudeReportMethod
	}
	sym.Eq(int64(method), int64(kind), "report method")
	sym.Eq(int64(alt), feet, "altitude in feet")
	if kind == spec.Alt25 {
		sym.Reach("25 ft")
	}
	if kind == spec.Alt100 {
		sym.Reach("100 ft")
	}
	if kind == spec.AltMetric {
		sym.Reach("metric")
	}
	if kind == spec.AltNone {
		sym.Reach("none")
	}
}

// HDF0 decides DF0.
func HDF0() { check(0, 7) }

// HDF4 decides DF4.
func HDF4() { check(4, 7) }

// HDF16 decides DF16.
func HDF16() { check(16, 14) }

// HDF20 decides DF20.
func HDF20() { check(20, 14) }

func gillham(v uint64) (int32, error) {
	b := func(i uint) bool { return v>>i&1 == 1 }
	return bitutils.GillhamToAltitude(b(11), b(10), b(9), b(8), b(7), b(6), b(5), b(4), b(3), b(2), b(1), b(0))
}

// HGillham decides every Gillham code.
func HGillham() {
	v := sym.Uint("code", 12)
	alt, err := gillham(v)
	want, ok := spec.Gillham(v>>3, v&7)
	sym.Assert((err == nil) == ok, "error exactly for the C patterns 000, 101 and 111")
	if err == nil {
		sym.Reach("valid")
		sym.Eq(int64(alt), want, "altitude of the code")
	} else {
		sym.Reach("invalid")
	}
}

// HUnitDistance: distinct codes give distinct altitudes, and altitudes 100 ft apart have codes one bit apart.
func HUnitDistance() {
	v, w := sym.Uint("first", 12), sym.Uint("second", 12)
	a, err := gillham(v)
	sym.Assume(err == nil)
	b, err := gillham(w)
	sym.Assume(err == nil)
	sym.Reach("two valid codes")
	sym.Assert(v == w || a != b, "no two codes share an altitude")
	if b == a+100 {
		sym.Reach("neighbours")
		x := v ^ w
		sym.Assert(x != 0 && x&(x-1) == 0, "codes of neighbouring altitudes differ in one bit")
	}
}
