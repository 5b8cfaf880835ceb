// Package c15: quality categories and their bounds follow the type code tables.
package c15

import (
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/airborne_position"
	af "github.com/twuillemin/modes/pkg/adsb/airborne_position/fields"
	"github.com/twuillemin/modes/pkg/adsb/no_position_information"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/adsb/surface_position"
	sf "github.com/twuillemin/modes/pkg/adsb/surface_position/fields"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "every position message: all 56 content bits, versions 0 to 2 and both supplement bits symbolic; pairs of position messages of one version for the ordering; all 256 values of the protection limit and containment radius categories"

// row is one line of a category table: the containment radius category of the
// code under test, its upper bound in millimetres (a large number when unbounded)
// and the navigation integrity category.
type row struct {
	hcr   int64
	bound int64
	nic   int64
}

const (
	nm   = 1852000
	none = 1 << 40
)

func pick(a bool, x, y row) row {
	if a {
		return x
	}
	return y
}

func airborne1(tc uint64, a bool) row {
	switch tc {
	case 9:
		return row{int64(af.HCRBaroV1RcLowerThan7Point5MAndVPLLowerThan11M), 7500, 11}
	case 10:
		return row{int64(af.HCRBaroV1RcLowerThan25MAndVPLLowerThan37Point5M), 25000, 10}
	case 11:
		return pick(a, row{int64(af.HCRBaroV1RcLowerThan75MAndVPLLowerThan112M), 75000, 9}, row{int64(af.HCRBaroV1RcLowerThan0Point1NM), 1 * nm / 10, 8})
	case 12:
		return row{int64(af.HCRBaroV1RcLowerThan0Point2NM), 2 * nm / 10, 7}
	case 13:
		return pick(a, row{int64(af.HCRBaroV1RcLowerThan0Point6NM), 6 * nm / 10, 6}, row{int64(af.HCRBaroV1RcLowerThan0Point5NM), 5 * nm / 10, 6})
	case 14:
		return row{int64(af.HCRBaroV1RcLowerThan1Point0NM), nm, 5}
	case 15:
		return row{int64(af.HCRBaroV1RcLowerThan2NM), 2 * nm, 4}
	case 16:
		return pick(a, row{int64(af.HCRBaroV1RcLowerThan4NM), 4 * nm, 3}, row{int64(af.HCRBaroV1RcLowerThan8NM), 8 * nm, 2})
	case 17:
		return row{int64(af.HCRBaroV1RcLowerThan20NM), 20 * nm, 1}
	case 18:
		return row{int64(af.HCRBaroV1RcGreaterThan20NM), none, 0}
	case 20:
		return row{int64(af.HCRGNSSV1RcLowerThan7Point5MAndVPLLowerThan11M), 7500, 11}
	case 21:
		return row{int64(af.HCRGNSSV1RcLowerThan25MAndVPLLowerThan37Point5M), 25000, 10}
	}
	return row{int64(af.HCRGNSSV1RcGreaterThan25MOrVPLGreaterThan37Point5MOrUnknown), none, 0}
}

func airborne2(tc uint64, a, b bool) row {
	switch tc {
	case 9:
		return row{int64(af.HCRBaroV2RcLowerThan7Point5M), 7500, 11}
	case 10:
		return row{int64(af.HCRBaroV2RcLowerThan25M), 25000, 10}
	case 11:
		return pick(a, row{int64(af.HCRBaroV2RcLowerThan75M), 75000, 9}, row{int64(af.HCRBaroV2RcLowerThan0Point1NM), 1 * nm / 10, 8})
	case 12:
		return row{int64(af.HCRBaroV2RcLowerThan0Point2NM), 2 * nm / 10, 7}
	case 13:
		return pick(a, row{int64(af.HCRBaroV2RcLowerThan0Point6NM), 6 * nm / 10, 6},
			pick(b, row{int64(af.HCRBaroV2RcLowerThan0Point3NM), 3 * nm / 10, 6}, row{int64(af.HCRBaroV2RcLowerThan0Point5NM), 5 * nm / 10, 6}))
	case 14:
		return row{int64(af.HCRBaroV2RcLowerThan1Point0NM), nm, 5}
	case 15:
		return row{int64(af.HCRBaroV2RcLowerThan2NM), 2 * nm, 4}
	case 16:
		return pick(a, row{int64(af.HCRBaroV2RcLowerThan4NM), 4 * nm, 3}, row{int64(af.HCRBaroV2RcLowerThan8NM), 8 * nm, 2})
	case 17:
		return row{int64(af.HCRBaroV2RcLowerThan20NM), 20 * nm, 1}
	case 18:
		return row{int64(af.HCRBaroV2RcGreaterThan20NM), none, 0}
	case 20:
		return row{int64(af.HCRGNSSV2RcLowerThan7Point5M), 7500, 11}
	case 21:
		return row{int64(af.HCRGNSSV2RcLowerThan25M), 25000, 10}
	}
	return row{int64(af.HCRGNSSV2RcGreaterThan25MOrUnknown), none, 0}
}

func surface1(tc uint64, a bool) row {
	switch tc {
	case 5:
		return row{int64(sf.HCRV1RcLowerThan7Point5M), 7500, 11}
	case 6:
		return row{int64(sf.HCRV1RcLowerThan25M), 25000, 10}
	case 7:
		return pick(a, row{int64(sf.HCRV1RcLowerThan75M), 75000, 9}, row{int64(sf.HCRV1RcLowerThan0Point1NM), 1 * nm / 10, 8})
	}
	return row{int64(sf.HCRV1RcGreaterThan0Point1NM), none, 0}
}

func surface2(tc uint64, a, c bool) row {
	switch tc {
	case 5:
		return row{int64(sf.HCRV2RcLowerThan7Point5M), 7500, 11}
	case 6:
		return row{int64(sf.HCRV2RcLowerThan25M), 25000, 10}
	case 7:
		return pick(a, row{int64(sf.HCRV2RcLowerThan75M), 75000, 9}, row{int64(sf.HCRV2RcLowerThan0Point1NM), 1 * nm / 10, 8})
	}
	return pick(a, pick(c, row{int64(sf.HCRV2RcLowerThan0Point2NM), 2 * nm / 10, 7}, row{int64(sf.HCRV2RcLowerThan0Point3NM), 3 * nm / 10, 6}),
		pick(c, row{int64(sf.HCRV2RcLowerThan0Point6NM), 6 * nm / 10, 6}, row{int64(sf.HCRV2RcGreaterThan0Point6NM), none, 0}))
}

func position(d []byte) uint64 {
	tc := spec.Bits(d, 1, 5)
	sym.Assume(tc == 0 || tc >= 5 && tc <= 22 && tc != 19)
	return tc
}

// HTables decides the categories of every position message.
func HTables() {
	d := sym.Bytes("me", 7)
	tc := position(d)
	a, c := sym.Bool("nicA"), sym.Bool("nicC")
	b := spec.Bit(d, 8)
	ver := sym.Uint("version", 2)
	sym.Assume(ver <= 2)
	m, err := reader.ReadADSBMessage(adsb.ADSBVersion(ver), a, c, d)
	if err != nil {
		return
	}
	switch v := m.(type) {
	case *no_position_information.NoPositionInformation:
		sym.Reach("no position")
		sym.Eq(int64(v.NavigationIntegrityCategory), 0, "integrity category without position")
	case *airborne_position.AirbornePositionType0:
		sym.Reach("type 0")
		sym.Eq(int64(v.NavigationIntegrityCategory), 0, "integrity category of type 0")
	case *airborne_position.AirbornePositionV0:
		sym.Reach("airborne version 0")
		sym.Eq(int64(v.HorizontalProtectionLimit), int64(tc), "protection limit, airborne version 0")
		sym.Eq(int64(v.ContainmentRadius), int64(tc), "containment radius, airborne version 0")
	case *airborne_position.AirbornePositionV1:
		sym.Reach("airborne version 1")
		r := airborne1(tc, a)
		sym.Eq(int64(v.HorizontalContainmentRadius), r.hcr, "containment radius, airborne version 1")
		sym.Eq(int64(v.NavigationIntegrityCategory), r.nic, "integrity category, airborne version 1")
		sym.Assert(v.NavigationIntegrityCodeSupplementA == a, "supplement A, airborne version 1")
	case *airborne_position.AirbornePositionV2:
		sym.Reach("airborne version 2")
		sym.Assert(v.NavigationIntegrityCodeSupplementA == a, "supplement A, airborne version 2")
		sym.Assert((v.NavigationIntegrityCodeSupplementB == af.NICBOne) == b, "supplement B, airborne version 2")
		hcr, nic := int64(v.HorizontalContainmentRadius), int64(v.NavigationIntegrityCategory)
		if tc == 11 && a != b || tc == 13 && a && !b || tc == 16 && a != b {
			// not assigned by DO-260B: any row of the type code will do
			x, y := airborne2(tc, true, true), airborne2(tc, false, false)
			sym.Assert(hcr == x.hcr && nic == x.nic || hcr == y.hcr && nic == y.nic, "unassigned supplement bits give a row of the type code, airborne version 2")
			return
		}
		r := airborne2(tc, a, b)
		sym.Eq(hcr, r.hcr, "containment radius, airborne version 2")
		sym.Eq(nic, r.nic, "integrity category, airborne version 2")
	case *surface_position.SurfacePositionV0:
		sym.Reach("surface version 0")
		sym.Eq(int64(v.HorizontalProtectionLimit), int64(tc), "protection limit, surface version 0")
		sym.Eq(int64(v.ContainmentRadius), int64(tc), "containment radius, surface version 0")
	case *surface_position.SurfacePositionV1:
		sym.Reach("surface version 1")
		r := surface1(tc, a)
		sym.Eq(int64(v.HorizontalContainmentRadius), r.hcr, "containment radius, surface version 1")
		sym.Eq(int64(v.NavigationIntegrityCategory), r.nic, "integrity category, surface version 1")
	case *surface_position.SurfacePositionV2:
		sym.Reach("surface version 2")
		hcr, nic := int64(v.HorizontalContainmentRadius), int64(v.NavigationIntegrityCategory)
		if tc == 7 && c {
			x, y := surface2(tc, true, c), surface2(tc, false, c)
			sym.Assert(hcr == x.hcr && nic == x.nic || hcr == y.hcr && nic == y.nic, "unassigned supplement bits give a row of the type code, surface version 2")
			return
		}
		r := surface2(tc, a, c)
		sym.Eq(hcr, r.hcr, "containment radius, surface version 2")
		sym.Eq(nic, r.nic, "integrity category, surface version 2")
	}
}

func abound1(v int64) int64 {
	for _, tc := range []uint64{9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22} {
		if r := airborne1(tc, true); r.hcr == v {
			return r.bound
		}
		if r := airborne1(tc, false); r.hcr == v {
			return r.bound
		}
	}
	return -1
}

func abound2(v int64) int64 {
	for _, tc := range []uint64{9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22} {
		for k := 0; k < 4; k++ {
			if r := airborne2(tc, k&1 == 1, k&2 == 2); r.hcr == v {
				return r.bound
			}
		}
	}
	return -1
}

func sbound1(v int64) int64 {
	for _, tc := range []uint64{5, 6, 7, 8} {
		if r := surface1(tc, true); r.hcr == v {
			return r.bound
		}
		if r := surface1(tc, false); r.hcr == v {
			return r.bound
		}
	}
	return -1
}

func sbound2(v int64) int64 {
	for _, tc := range []uint64{5, 6, 7, 8} {
		for k := 0; k < 4; k++ {
			if r := surface2(tc, k&1 == 1, k&2 == 2); r.hcr == v {
				return r.bound
			}
		}
	}
	return -1
}

// quality returns the integrity category and the bound that comes with it.
func quality(name string, ver uint64, a, c bool) (int64, int64) {
	d := sym.Bytes(name, 7)
	tc := position(d)
	sym.Assume(tc != 0)
	m, err := reader.ReadADSBMessage(adsb.ADSBVersion(ver), a, c, d)
	sym.Assume(err == nil)
	switch v := m.(type) {
	case *airborne_position.AirbornePositionV1:
		return int64(v.NavigationIntegrityCategory), abound1(int64(v.HorizontalContainmentRadius))
	case *airborne_position.AirbornePositionV2:
		return int64(v.NavigationIntegrityCategory), abound2(int64(v.HorizontalContainmentRadius))
	case *surface_position.SurfacePositionV1:
		return int64(v.NavigationIntegrityCategory), sbound1(int64(v.HorizontalContainmentRadius))
	case *surface_position.SurfacePositionV2:
		return int64(v.NavigationIntegrityCategory), sbound2(int64(v.HorizontalContainmentRadius))
	}
	return -1, -1
}

// HOrder: a higher integrity category never comes with a larger bound.
func HOrder() {
	ver := sym.Uint("version", 2)
	sym.Assume(ver == 1 || ver == 2)
	n1, b1 := quality("me1", ver, sym.Bool("nicA1"), sym.Bool("nicC1"))
	n2, b2 := quality("me2", ver, sym.Bool("nicA2"), sym.Bool("nicC2"))
	sym.Assert(b1 > 0 && n1 >= 0, "every containment radius category has a bound")
	sym.Reach("pair")
	if n1 > n2 {
		sym.Reach("ordered pair")
		sym.Assert(b1 <= b2, "a higher integrity category never comes with a larger containment bound")
	}
}

// HBounds decides the numeric bounds of the surface categories.
func HBounds() {
	v := sym.Uint("category", 8)
	hl, hh, cl, ch := -1.0, -1.0, -1.0, -1.0
	switch v {
	case 5:
		hh, ch = 7.5, 3
	case 6:
		hh, cl, ch = 25, 3, 10
	case 7:
		hh, cl, ch = 185.2, 10, 92.6
	case 8:
		hl, cl = 185.2, 92.6
	}
	sym.Reach("category")
	h := sf.HorizontalProtectionLimit(v)
	r := sf.ContainmentRadius(v)
	sym.Near(h.GetHPLLowerBound(), hl, 1e-6, "lower bound of the protection limit")
	sym.Near(h.GetHPLHigherBound(), hh, 1e-6, "higher bound of the protection limit")
	sym.Near(r.GetHorizontalContainmentLowerBound(), cl, 1e-6, "lower bound of the containment radius")
	sym.Near(r.GetHorizontalContainmentHigherBound(), ch, 1e-6, "higher bound of the containment radius")
}
