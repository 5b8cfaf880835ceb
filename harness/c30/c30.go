// Package c30: ground distances.
package c30

import (
	"math"

	"github.com/twuillemin/modes/pkg/geo"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "all real latitudes from -90 to 90 degrees and longitudes from -540 to 540 degrees; sine, cosine and arc tangent as function symbols with their ranges and symmetries, accurate to 5e-16"

// half is half the circumference of a sphere of 6371 km, in metres.
const half = 6371000 * math.Pi

func position(name string) (lat, lon float64) {
	return sym.Real(name+" latitude", -90, 90), sym.Real(name+" longitude", -540, 540)
}

// HDistance decides the range and the symmetry.
func HDistance() {
	aLat, aLon := position("first")
	bLat, bLon := position("second")
	d := geo.ComputeGroundDistance(aLat, aLon, bLat, bLon)
	sym.Reach("computed")
	sym.Assert(!math.IsNaN(d) && !math.IsInf(d, 0), "the distance is a number")
	sym.Assert(d >= 0, "the distance is not negative")
	sym.Assert(d <= half*(1+1e-12), "the distance is at most half the circumference")
	e := geo.ComputeGroundDistance(bLat, bLon, aLat, aLon)
	sym.Assert(d-e <= 1e-6 && e-d <= 1e-6, "the distance is the same in both directions")
}

// HSame decides the distance of a position to itself.
func HSame() {
	lat, lon := position("the")
	sym.Reach("computed")
	sym.Assert(geo.ComputeGroundDistance(lat, lon, lat, lon) == 0, "a position is at distance zero from itself")
}

// HPoles decides the distances that do not depend on longitudes: from pole to
// pole and from a pole to the equator.
func HPoles() {
	aLon, bLon := sym.Real("first longitude", -540, 540), sym.Real("second longitude", -540, 540)
	sym.Reach("computed")
	d := geo.ComputeGroundDistance(90, aLon, -90, bLon)
	sym.Assert(d-half <= 1 && half-d <= 1, "the poles are half the circumference apart")
	n := geo.ComputeGroundDistance(90, aLon, 0, bLon)
	sym.Assert(n-half/2 <= 0.01 && half/2-n <= 0.01, "the north pole is a quarter of the circumference from the equator")
	s := geo.ComputeGroundDistance(0, aLon, -90, bLon)
	sym.Assert(s-half/2 <= 0.01 && half/2-s <= 0.01, "the south pole is a quarter of the circumference from the equator")
}

// HHaversine decides the value: the great circle of the haversine formula on a
// sphere of 6371 km, wherever rounding leaves the formula defined.
func HHaversine() {
	sym.Paths()
	aLat, aLon := position("first")
	bLat, bLon := position("second")
	d := geo.ComputeGroundDistance(aLat, aLon, bLat, bLon)
	u := math.Sin((bLat - aLat) * math.Pi / 180 / 2)
	v := math.Sin((bLon - aLon) * math.Pi / 180 / 2)
	h := u*u + math.Cos(aLat*math.Pi/180)*math.Cos(bLat*math.Pi/180)*(v*v)
	sym.Assume(h > 0)
	sym.Assume(h < 1)
	sym.Assume(1-h >= 0)
	sym.Reach("computed")
	e := 6371000 * (2 * math.Atan2(math.Sqrt(h), math.Sqrt(1-h)))
	sym.Assert(d-e <= 1 && e-d <= 1, "the distance is that of the haversine formula")
}
