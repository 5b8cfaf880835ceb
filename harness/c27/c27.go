// Package c27: globally decoded airborne positions encode back to the received CPR.
package c27

import (
	"math"

	"github.com/twuillemin/modes/pkg/geo"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "every pair of 17-bit CPR latitudes and longitudes and both orders of reception; recovery for every real latitude from -89.9999 to 89.9999 and longitude from -180 to 180 degrees; agreement to 1e-9 degrees (recovery: to one CPR step); longitudes and refusal are not judged within 1e-9 degrees, and recovery within 1e-4 degrees, of a transition of the number of zones"

// Shards is the number of workers each harness is divided among.
const Shards = 8

const eps = 1e-9

func within(x, h float64) bool { return sym.And(x <= h, x >= -h) }

// whole tells whether a number of zones is a whole number.
func whole(x float64) bool { return within(x-math.Floor(x+0.5), eps) }

func pair() (a, b, c, d uint32) {
	return uint32(sym.Uint("even latitude", 17)), uint32(sym.Uint("even longitude", 17)), uint32(sym.Uint("odd latitude", 17)), uint32(sym.Uint("odd longitude", 17))
}

func mod(x, y float64) float64 { return x - y*math.Floor(x/y) }

// south takes latitudes beyond the north pole round the earth.
func south(lat float64) float64 {
	if lat >= 270 {
		return lat - 360
	}
	return lat
}

// position checks the position of every accepted pair.
func position(evenLast bool) {
	sym.Paths()
	eLat, eLon, oLat, oLon := pair()
	lat, lon, err := geo.GetCPRAirborneGlobalPosition(eLat, eLon, oLat, oLon, evenLast)
	if err != nil {
		return
	}
	sym.Reach("decoded")
	sym.Assert(within(lat, 90+eps), "latitude between the poles")
	sym.Assert(within(lon, 180+eps), "longitude within one turn")
	zone, cLat, cLon := 6.0, eLat, eLon
	if !evenLast {
		zone, cLat, cLon = 360.0/59, oLat, oLon
	}
	sym.Assert(whole(lat/zone-float64(cLat)/spec.Lattice), "latitude encodes back")
	j := math.Floor(59*float64(eLat)/spec.Lattice - 60*float64(oLat)/spec.Lattice + 0.5)
	latE := south(6 * (mod(j, 60) + float64(eLat)/spec.Lattice))
	latO := south(360.0 / 59 * (mod(j, 59) + float64(oLat)/spec.Lattice))
	for z := 1; z <= 59; z++ {
		in := spec.InZones(lat, z)
		if sym.Never(in) {
			continue
		}
		// lat is the latitude of the message received last
		other := latE
		if evenLast {
			other = latO
		}
		sym.Assert(sym.Or(!in, spec.InZonesBy(other, z, -eps)), "both latitudes have the same number of zones")
		n := z
		if !evenLast && n > 1 {
			n--
		}
		sym.Assert(sym.Or(!in, whole(lon*float64(n)/360-float64(cLon)/spec.Lattice)), "longitude encodes back")
	}
}

// zoneOf names a zone, numbered from the equator or the Greenwich meridian.
func zoneOf(name string, bits int) float64 {
	return float64(sym.Uint(name, bits)) - float64(int(1)<<uint(bits-1))
}

// encodes tells that a coordinate lies within half a step of step c of a zone.
func encodes(x, zone, width float64, c uint32) bool {
	return within(zone*width+float64(c)*(width/spec.Lattice)-x, width/(2*spec.Lattice))
}

// none explores d < 0, d > 0 and d = 0 apart; it must be a whole number.
func none(d float64) {
	if d >= 1 {
		return
	}
	if d <= -1 {
		return
	}
}

// HRecover decides that the position of a transponder is found again.
func HRecover() {
	sym.Paths()
	eLat, eLon, oLat, oLon := pair()
	lat, lon := sym.Real("true latitude", -89.9999, 89.9999), sym.Real("true longitude", -180, 180)
	zones := sym.Uint("zones", 6)
	sym.Assume(zones >= 1)
	sym.Assume(zones <= 59)
	z := sym.Pick(float64(zones), 1, 59)
	sym.Assume(spec.InZonesBy(lat, z, 1e-4))
	kE, kO := zoneOf("even latitude zone", 5), zoneOf("odd latitude zone", 5)
	sym.Assume(encodes(lat, kE, 6, eLat))
	sym.Assume(encodes(lat, kO, 360.0/59, oLat))
	nE, nO := z, z-1
	if nO < 1 {
		nO = 1
	}
	mE, mO := zoneOf("even longitude zone", 6), zoneOf("odd longitude zone", 6)
	sym.Assume(encodes(lon, mE, 360/float64(nE), eLon))
	sym.Assume(encodes(lon, mO, 360/float64(nO), oLon))
	sym.Assume(within(kO-kE, 1))
	sym.Pick(kO-kE, -1, 1)
	if z > 1 {
		sym.Assume(within(mO-mE, 1))
		sym.Pick(mO-mE, -1, 1)
	} else {
		sym.Assume(within(mE, 1))
		sym.Pick(mE, -1, 1)
	}
	if nO == 1 {
		sym.Assume(within(mO, 1))
		sym.Pick(mO, -1, 1)
	}
	none(math.Floor(59*float64(eLat)/spec.Lattice-60*float64(oLat)/spec.Lattice+0.5) - 60*kO + 59*kE)
	if z > 1 {
		none(math.Floor(float64(z-1)*float64(eLon)/spec.Lattice-float64(z)*float64(oLon)/spec.Lattice+0.5) - float64(z)*mO + float64(z-1)*mE)
	}
	sym.Reach("encoded")
	for _, evenLast := range []bool{true, false} {
		gotLat, gotLon, err := geo.GetCPRAirborneGlobalPosition(eLat, eLon, oLat, oLon, evenLast)
		sym.Assert(err == nil, "the pair is decoded")
		if err != nil {
			return
		}
		width := 360 / float64(nE)
		if !evenLast {
			width = 360 / float64(nO)
		}
		sym.Assert(within(gotLat-lat, 1e-4), "the latitude is recovered")
		d, h := gotLon-lon, width/spec.Lattice
		sym.Assert(sym.Or(within(d, h), sym.Or(within(d-360, h), within(d+360, h))), "the longitude is recovered")
	}
}

// HEvenLast decides pairs whose even message came last.
func HEvenLast() { position(true) }

// HOddLast decides pairs whose odd message came last.
func HOddLast() { position(false) }
