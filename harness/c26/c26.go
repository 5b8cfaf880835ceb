// Package c26: longitude zones follow the CPR latitude table.
package c26

import (
	"math"

	"github.com/twuillemin/modes/pkg/geo"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "every CPR latitude and every real reference latitude from -90.5 to 90.5 degrees, even and odd, airborne and surface; within 1e-9 degrees of a transition either neighbour is accepted"

const margin = 1e-9

// zones checks that lon, the longitude of the first step of a zone of the
// given total, tells the number of zones that belongs to lat.
func zones(lat, lon, total float64, odd bool) {
	sym.Reach("decoded")
	n := int(math.Floor(total/(lon*spec.Lattice) + 0.5))
	sym.Assert(n >= 1 && n <= 59, "between 1 and 59 zones")
	if n < 1 || n > 59 {
		return
	}
	a := math.Abs(lat)
	if !odd {
		sym.Assert(n == 59 || a >= spec.Transition[n]-margin, "at least as many zones as the table gives")
		sym.Assert(a <= spec.Transition[n-1]+margin || n == 1, "at most as many zones as the table gives")
		sym.Assert(a != 87 || n == 2, "two zones at 87 degrees")
		return
	}
	// an odd message uses one zone less, but never none
	sym.Assert(n == 58 || n < 58 && a >= spec.Transition[n+1]-margin, "at least as many zones as the table gives")
	sym.Assert(n == 1 || a <= spec.Transition[n]+margin, "at most as many zones as the table gives")
}

func latitude() (uint32, float64) {
	return uint32(sym.Uint("latitude", 17)), sym.Real("reference", -90.5, 90.5)
}

// HAirborneEven decides even airborne messages.
func HAirborneEven() {
	sym.Paths()
	c, ref := latitude()
	lat, lon := geo.GetCPRAirborneLocalPosition(c, 1, ref, 0, false)
	zones(lat, lon, 360, false)
}

// HAirborneOdd decides odd airborne messages.
func HAirborneOdd() {
	sym.Paths()
	c, ref := latitude()
	lat, lon := geo.GetCPRAirborneLocalPosition(c, 1, ref, 0, true)
	zones(lat, lon, 360, true)
}

// HSurfaceEven decides even surface messages.
func HSurfaceEven() {
	sym.Paths()
	c, ref := latitude()
	lat, lon := geo.GetCPRSurfaceLocalPosition(c, 1, ref, 0, false)
	zones(lat, lon, 90, false)
}

// HSurfaceOdd decides odd surface messages.
func HSurfaceOdd() {
	sym.Paths()
	c, ref := latitude()
	lat, lon := geo.GetCPRSurfaceLocalPosition(c, 1, ref, 0, true)
	zones(lat, lon, 90, true)
}
