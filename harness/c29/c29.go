// Package c29: locally decoded positions encode back and lie within half a zone.
package c29

import (
	"math"

	"github.com/twuillemin/modes/pkg/geo"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "every CPR latitude and longitude, every real reference latitude from -90 to 90 and longitude from -180 to 180 degrees, even and odd, airborne and surface; agreement to 1e-9 degrees; the longitude is not judged within 1e-9 degrees of a transition of the number of zones"

const eps = 1e-9

// whole tells whether a number of zones is a whole number.
func whole(x float64) bool { return within(x-math.Floor(x+0.5), eps) }

func within(x, h float64) bool { return sym.And(x <= h, x >= -h) }

// decode checks one format; turn is 360 for airborne and 90 for surface messages.
func decode(f func(uint32, uint32, float64, float64, bool) (float64, float64), turn float64, odd bool) {
	sym.Paths()
	cLat, cLon := uint32(sym.Uint("latitude", 17)), uint32(sym.Uint("longitude", 17))
	rLat, rLon := sym.Real("reference latitude", -90, 90), sym.Real("reference longitude", -180, 180)
	lat, lon := f(cLat, cLon, rLat, rLon, odd)
	sym.Reach("decoded")
	zLat := turn / 60
	if odd {
		zLat = turn / 59
	}
	sym.Assert(whole(lat/zLat-float64(cLat)/spec.Lattice), "latitude encodes back")
	d := lat - rLat
	sym.Assert(within(d, zLat/2+eps), "latitude within half a zone of the reference")
	for z := 1; z <= 59; z++ {
		in := spec.InZones(lat, z)
		if sym.Never(in) {
			continue
		}
		n := z
		if odd && n > 1 {
			n--
		}
		zLon := turn / float64(n)
		sym.Assert(sym.Or(!in, whole(lon/zLon-float64(cLon)/spec.Lattice)), "longitude encodes back")
		e := lon - rLon
		h := zLon/2 + eps
		sym.Assert(sym.Or(!in, sym.Or(within(e, h), sym.Or(within(e-360, h), within(e+360, h)))), "longitude within half a zone of the reference")
	}
}

// HAirborneEven decides even airborne messages.
func HAirborneEven() { decode(geo.GetCPRAirborneLocalPosition, 360, false) }

// HAirborneOdd decides odd airborne messages.
func HAirborneOdd() { decode(geo.GetCPRAirborneLocalPosition, 360, true) }

// HSurfaceEven decides even surface messages.
func HSurfaceEven() { decode(geo.GetCPRSurfaceLocalPosition, 90, false) }

// HSurfaceOdd decides odd surface messages.
func HSurfaceOdd() { decode(geo.GetCPRSurfaceLocalPosition, 90, true) }
