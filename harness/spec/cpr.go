package spec

import "vharness/sym"

// Transition[n] is the latitude in degrees, north or south, at which the number
// of CPR longitude zones falls from n+1 to n: arccos of the square root of
// (1-cos(pi/30))/(1-cos(2 pi/(n+1))), rounded to 16 digits.
var Transition = [59]float64{
	90,
	87.00000000000000,
	86.53536997512101,
	85.75541620944419,
	84.89166190702087,
	83.99173562980567,
	83.07199444719816,
	82.13956980510609,
	81.19801349271951,
	80.24923213280516,
	79.29428225456930,
	78.33374082922752,
	77.36789461328192,
	76.39684390794473,
	75.42056256653363,
	74.43893415725143,
	73.45177441667871,
	72.45884544728952,
	71.45986473028990,
	70.45451074987607,
	69.44242631144032,
	68.42322022083340,
	67.39646774084676,
	66.36171008382628,
	65.31845309682098,
	64.26616522567450,
	63.20427479381938,
	62.13216659210343,
	61.04917774246363,
	59.95459276694047,
	58.84763776148471,
	57.72747353866127,
	56.59318756205935,
	55.44378444495060,
	54.27817472272919,
	53.09516152796016,
	51.89342469168786,
	50.67150165553846,
	49.42776439255704,
	48.16039128096653,
	46.86733252498768,
	45.54626722660254,
	44.19454951419314,
	42.80914012243566,
	41.38651832260282,
	39.92256684333892,
	38.41241892412304,
	36.85025107593547,
	35.22899597796446,
	33.53993436298545,
	31.77209707681102,
	29.91135685731838,
	27.93898710121917,
	25.82924707058855,
	23.54504486557140,
	21.02939492602934,
	18.18626357071418,
	14.82817436868751,
	10.47047129996877,
}

// Lattice is the number of steps of a CPR coordinate in one zone.
const Lattice = 131072

// Zones gives the number of longitude zones at a latitude; near reports that
// the latitude is within a billionth of a degree of a transition.
func Zones(lat float64) (n int, near bool) {
	a := lat
	if a < 0 {
		a = -a
	}
	if a == 87 {
		return 2, false
	}
	// a is below Transition[lo] and not below Transition[hi]
	lo, hi := 0, 59
	for hi-lo > 1 {
		m := (lo + hi) / 2
		if a < Transition[m] {
			lo = m
		} else {
			hi = m
		}
	}
	if lo > 0 && a > Transition[lo]-1e-9 || hi < 59 && a < Transition[hi]+1e-9 {
		return hi, true
	}
	return hi, false
}

// InZones tells whether the number of zones at a latitude is n, and the latitude
// not within a billionth of a degree of a transition.
func InZones(lat float64, n int) bool { return InZonesBy(lat, n, 1e-9) }

// InZonesBy tells whether the number of zones is n from the latitude less some
// margin to the latitude plus it.
func InZonesBy(lat float64, n int, margin float64) bool {
	r := true
	if n > 1 {
		t := Transition[n-1] - margin
		r = sym.And(lat < t, lat > -t)
	}
	if n < 59 {
		t := Transition[n] + margin
		r = sym.And(r, sym.Or(lat > t, lat < -t))
	}
	return r
}
