// Package c28: globally decoded surface positions encode back and lie near the reference.
package c28

import (
	"math"

	"github.com/twuillemin/modes/pkg/geo"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "latitude and refusal: every pair of 17-bit CPR latitudes, both orders of reception, every real reference latitude from -90 to 90 degrees, CPR longitudes and reference longitude 0; longitude: every pair of 17-bit CPR longitudes, both orders, every real reference longitude from -180 to 180 degrees, at one latitude in each of 8 numbers of longitude zones (thorough: all 59); agreement to 1e-9 degrees"

// Shards is the number of workers each harness is divided among.
const Shards = 8

const eps = 1e-9

func within(x, h float64) bool { return sym.And(x <= h, x >= -h) }

// whole tells whether a number of zones is a whole number.
func whole(x float64) bool { return within(x-math.Floor(x+0.5), eps) }

func mod(x, y float64) float64 { return x - y*math.Floor(x/y) }

// near is the latitude or the one 90 degrees further south, whichever is nearer.
func near(lat, ref float64) float64 {
	if lat-ref > 45 {
		return lat - 90
	}
	return lat
}

// latitude checks the latitude of every accepted pair.
func latitude(evenLast bool) {
	sym.Paths()
	eLat, oLat := uint32(sym.Uint("even latitude", 17)), uint32(sym.Uint("odd latitude", 17))
	ref := sym.Real("reference latitude", -90, 90)
	lat, _, err := geo.GetCPRSurfaceGlobalPosition(eLat, 0, oLat, 0, evenLast, ref, 0)
	if err != nil {
		return
	}
	sym.Reach("decoded")
	sym.Assert(within(lat, 90+eps), "latitude between the poles")
	zone, cLat := 1.5, eLat
	if !evenLast {
		zone, cLat = 90.0/59, oLat
	}
	sym.Assert(whole(lat/zone-float64(cLat)/spec.Lattice), "latitude encodes back")
	sym.Assert(sym.And(sym.Or(lat < 0, lat-ref <= 45+eps), sym.Or(lat >= 0, ref-lat <= 45+eps)), "latitude is the solution nearest to the reference")
	j := math.Floor(59*float64(eLat)/spec.Lattice - 60*float64(oLat)/spec.Lattice + 0.5)
	other := near(1.5*(mod(j, 60)+float64(eLat)/spec.Lattice), ref)
	if evenLast {
		other = near(90.0/59*(mod(j, 59)+float64(oLat)/spec.Lattice), ref)
	}
	for z := 1; z <= 59; z++ {
		in := spec.InZones(lat, z)
		if sym.Never(in) {
			continue
		}
		sym.Assert(sym.Or(!in, spec.InZonesBy(other, z, -eps)), "both latitudes have the same number of zones")
	}
}

// HLatitudeEven decides pairs whose even message came last.
func HLatitudeEven() { latitude(true) }

// HLatitudeOdd decides pairs whose odd message came last.
func HLatitudeOdd() { latitude(false) }

// latitudes has one latitude for each number of longitude zones, and its even
// and odd CPR latitudes.
var latitudes = [...]struct {
	lat       float64
	even, odd uint32
}{
	{88.5, 0, 2185},           // 1
	{-86.768, 20272, 15566},   // 2
	{86.1455, 56405, 62018},   // 3
	{-85.3235, 15423, 8612},   // 4
	{84.4415, 38579, 46674},   // 5
	{-83.5315, 40938, 31518},  // 6
	{82.6055, 9219, 19988},    // 7
	{-81.669, 72614, 60481},   // 8
	{80.724, 106955, 120464},  // 9
	{-79.772, 107304, 92409},  // 10
	{78.814, 71128, 87419},    // 11
	{-77.8505, 13064, 126442}, // 12
	{76.882, 33380, 52484},    // 13
	{-75.9085, 51686, 31164},  // 14
	{74.9295, 124912, 15788},  // 15
	{-73.945, 92187, 68806},   // 16
	{72.955, 83449, 108273},   // 17
	{-71.959, 3583, 108381},   // 18
	{70.957, 39933, 67667},    // 19
	{-69.9485, 48191, 18989},  // 20
	{68.933, 125217, 24826},   // 21
	{-67.91, 95246, 63075},    // 22
	{66.879, 76808, 110481},   // 23
	{-65.84, 13981, 109867},   // 24
	{64.7925, 25559, 62270},   // 25
	{-63.7355, 66803, 28553},  // 26
	{62.6685, 102105, 10837},  // 27
	{-61.591, 123120, 81747},  // 28
	{60.502, 43865, 86825},    // 29
	{-59.401, 52341, 7778},    // 30
	{58.2875, 112503, 27616},  // 31
	{-57.1605, 117047, 69221}, // 32
	{56.0185, 45307, 94796},   // 33
	{-54.861, 55837, 4662},    // 34
	{53.687, 103722, 25534},   // 35
	{-52.4945, 481, 76931},    // 36
	{51.2825, 24685, 81072},   // 37
	{-50.0495, 83056, 24874},  // 38
	{48.794, 69381, 129391},   // 39
	{-47.514, 42467, 111665},  // 40
	{46.207, 105469, 38175},   // 41
	{-44.8705, 11316, 76663},  // 42
	{43.502, 175, 67892},      // 43
	{-42.098, 122509, 52746},  // 44
	{40.6545, 13500, 85365},   // 45
	{-39.1675, 116436, 42405}, // 46
	{37.6315, 11491, 87758},   // 47
	{-36.0395, 127620, 49035}, // 48
	{34.384, 120936, 70860},   // 49
	{-32.656, 30059, 77618},   // 50
	{30.842, 73575, 28658},    // 51
	{-28.925, 93935, 4988},    // 52
	{26.884, 120936, 81783},   // 53
	{-24.6875, 70997, 106951}, // 54
	{22.2875, 112503, 80045},  // 55
	{-19.608, 121635, 19119},  // 56
	{16.5075, 655, 107687},    // 57
	{-12.6495, 74318, 92740},  // 58
	{5.2355, 64269, 56644},    // 59
}

// longitude checks the longitude of every pair at one latitude.
func longitude(evenLast bool) {
	sym.Paths()
	sym.Floors()
	z := 0
	if sym.Thorough() {
		zones := sym.Uint("zones", 6)
		sym.Assume(zones >= 1)
		sym.Assume(zones <= 59)
		z = sym.Pick(float64(zones), 1, 59)
	} else {
		k := sym.Uint("zones", 3)
		z = [...]int{1, 2, 3, 4, 5, 8, 12, 30}[sym.Pick(float64(k), 0, 7)]
	}
	eLon, oLon := uint32(sym.Uint("even longitude", 17)), uint32(sym.Uint("odd longitude", 17))
	ref := sym.Real("reference longitude", -180, 180)
	at := latitudes[z-1]
	sym.Pick(math.Floor(float64(eLon)/spec.Lattice*float64(z-1)-float64(oLon)/spec.Lattice*float64(z)+0.5), -z, z)
	_, lon, err := geo.GetCPRSurfaceGlobalPosition(at.even, eLon, at.odd, oLon, evenLast, at.lat, ref)
	sym.Assert(err == nil, "the pair is decoded")
	if err != nil {
		return
	}
	sym.Reach("decoded")
	sym.Assert(within(lon, 180+eps), "longitude within one turn")
	n, cLon := z, eLon
	if !evenLast {
		cLon = oLon
		if n > 1 {
			n--
		}
	}
	sym.Assert(whole(lon*float64(n)/90-float64(cLon)/spec.Lattice), "longitude encodes back")
	d, h := lon-ref, 45+eps
	sym.Assert(sym.Or(within(d, h), sym.Or(within(d-360, h), within(d+360, h))), "longitude is the solution nearest to the reference")
}

// HLongitudeEven decides pairs whose even message came last.
func HLongitudeEven() { longitude(true) }

// HLongitudeOdd decides pairs whose odd message came last.
func HLongitudeOdd() { longitude(false) }
