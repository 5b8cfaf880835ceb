// Package c09: surface position messages give the encoded speed, track and CPR.
package c09

import (
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/adsb/surface_position"
	"github.com/twuillemin/modes/pkg/bds/bds06"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "all 56 content bits, versions 0 to 2 and both supplement bits symbolic, type codes 5 to 8 through the squitter reader, all type codes through the register reader; single precision values within 1e-4"

// speed8 is eight times the ground speed in knots of a movement code.
func speed8(n int64) int64 {
	switch {
	case n <= 1 || n > 124:
		return 0
	case n <= 8:
		return n - 1
	case n <= 12:
		return 8 + 2*(n-9)
	case n <= 38:
		return 16 + 4*(n-13)
	case n <= 93:
		return 8 * (15 + n - 39)
	case n <= 108:
		return 8 * (70 + 2*(n-94))
	case n <= 123:
		return 8 * (100 + 5*(n-109))
	}
	return 8 * 175
}

func fields(d []byte, p *bds06.SurfacePosition) {
	mov := int64(spec.Bits(d, 6, 12))
	sym.Eq(int64(p.FormatTypeCode), int64(spec.Bits(d, 1, 5)), "type code")
	sym.Eq(int64(p.MovementStatus), mov, "movement status is the movement code")
	sym.Near(float64(p.MovementSpeed), float64(speed8(mov))/8, 1e-4, "ground speed of the movement code")
	sym.Assert(p.GroundTrackStatus == spec.Bit(d, 13), "ground track status")
	sym.Near(float64(p.GroundTrack), float64(spec.Bits(d, 14, 20))*360/128, 1e-4, "ground track")
	sym.Eq(int64(p.Time), int64(spec.Bits(d, 21, 21)), "time flag")
	sym.Eq(int64(p.CPRFormat), int64(spec.Bits(d, 22, 22)), "CPR format")
	sym.Eq(int64(p.EncodedLatitude), int64(spec.Bits(d, 23, 39)), "CPR latitude")
	sym.Eq(int64(p.EncodedLongitude), int64(spec.Bits(d, 40, 56)), "CPR longitude")
}

// HSquitter decides positions read from squitters of versions 0 to 2.
func HSquitter() {
	d := sym.Bytes("me", 7)
	tc := spec.Bits(d, 1, 5)
	sym.Assume(tc >= 5 && tc <= 8)
	ver := sym.Uint("version", 8)
	sym.Assume(ver <= 2)
	m, err := reader.ReadADSBMessage(adsb.ADSBVersion(ver), sym.Bool("nicA"), sym.Bool("nicC"), d)
	sym.Assert(err == nil, "a surface position is decoded")
	if err != nil {
		return
	}
	switch v := m.(type) {
	case *surface_position.SurfacePositionV0:
		sym.Reach("version 0")
		fields(d, &v.SurfacePosition)
	case *surface_position.SurfacePositionV1:
		sym.Reach("version 1")
		fields(d, &v.SurfacePosition)
	case *surface_position.SurfacePositionV2:
		sym.Reach("version 2")
		fields(d, &v.SurfacePosition)
	default:
		sym.Assert(false, "a surface position is decoded as one")
	}
}

// HRegister decides register 0,6.
func HRegister() {
	d := sym.Bytes("mb", 7)
	tc := spec.Bits(d, 1, 5)
	p, err := bds06.ReadSurfacePosition(d)
	sym.Assert((err == nil) == (tc >= 5 && tc <= 8), "the register is read exactly when its type code is a surface position")
	if err == nil {
		sym.Reach("read")
		fields(d, p)
	}
}
