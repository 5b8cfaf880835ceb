// Package c12: aircraft status messages give the encoded emergency, squawk or advisory.
package c12

import (
	"github.com/twuillemin/modes/pkg/acas/ra"
	rafields "github.com/twuillemin/modes/pkg/acas/ra/fields"
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_status"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds61"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "all 56 content bits of type code 28 with every version byte and both supplement bits symbolic; the advisory compared with that of register 3,0 built from the same 48 bits"

// same checks that two advisories have the same content.
func same(a, b *ra.ResolutionAdvisory) {
	sym.Eq(int64(a.RATerminatedIndicator), int64(b.RATerminatedIndicator), "terminated indicator")
	sym.Eq(int64(a.MultipleThreatEncounter), int64(b.MultipleThreatEncounter), "multiple threats")
	sym.Eq(int64(a.ThreatTypeIndicator), int64(b.ThreatTypeIndicator), "threat type")
	sym.Assert(a.RAComplement == b.RAComplement, "complements")
	sym.Eq(int64(a.ActiveRA.GetType()), int64(b.ActiveRA.GetType()), "type of the active advisory")
	switch x := a.ActiveRA.(type) {
	case *rafields.ActiveRAOneThreatOrSameSeparation:
		y, ok := b.ActiveRA.(*rafields.ActiveRAOneThreatOrSameSeparation)
		sym.Assert(ok && *x == *y, "single threat advisory")
	case *rafields.ActiveRAMultipleThreatsDifferentSeparation:
		y, ok := b.ActiveRA.(*rafields.ActiveRAMultipleThreatsDifferentSeparation)
		sym.Assert(ok && *x == *y, "multiple threat advisory")
	}
	sym.Assert((a.ThreatIdentityAddress == nil) == (b.ThreatIdentityAddress == nil), "presence of the threat address")
	if a.ThreatIdentityAddress != nil && b.ThreatIdentityAddress != nil {
		sym.Reach("address")
		sym.Eq(int64(*a.ThreatIdentityAddress), int64(*b.ThreatIdentityAddress), "threat address")
	}
	sym.Assert((a.ThreatIdentityAltitude == nil) == (b.ThreatIdentityAltitude == nil) &&
		(a.ThreatIdentityRange == nil) == (b.ThreatIdentityRange == nil) &&
		(a.ThreatIdentityBearing == nil) == (b.ThreatIdentityBearing == nil), "presence of the threat position")
	if a.ThreatIdentityAltitude != nil && b.ThreatIdentityAltitude != nil {
		sym.Reach("position")
		sym.Assert(*a.ThreatIdentityAltitude == *b.ThreatIdentityAltitude, "threat altitude")
		sym.Eq(int64(*a.ThreatIdentityRange), int64(*b.ThreatIdentityRange), "threat range")
		sym.Eq(int64(*a.ThreatIdentityBearing), int64(*b.ThreatIdentityBearing), "threat bearing")
	}
}

// HStatus decides aircraft status squitters.
func HStatus() {
	d := sym.Bytes("me", 7)
	d[0] = 28<<3 | d[0]&7
	sub := spec.Bits(d, 6, 8)
	want := spec.SquitterKind(d, 0)
	m, err := reader.ReadADSBMessage(adsb.ADSBVersion(sym.Uint("version", 8)), sym.Bool("nicA"), sym.Bool("nicC"), d)
	sym.Assert((err == nil) == (want != spec.SqRefused), "a status is refused exactly when its subtype is reserved, a reserved bit is set or the threat altitude is no altitude")
	if err != nil {
		sym.Reach("refused")
		return
	}
	w, ok := m.(*aircraft_status.AircraftStatus)
	sym.Assert(ok, "an aircraft status is decoded as one")
	if !ok {
		return
	}
	switch v := w.AircraftStatus.(type) {
	case *bds61.AircraftStatusNoInformation:
		sym.Reach("no information")
		sym.Assert(sub == 0, "no information belongs to subtype 0")
		sym.Eq(int64(v.Subtype), 0, "subtype without information")
		sym.Eq(int64(v.FormatTypeCode), 28, "type code without information")
		sym.Eq(int64(v.EmergencyPriorityStatus), int64(spec.Bits(d, 9, 11)), "emergency state without information")
	case *bds61.AircraftStatusEmergency:
		sym.Reach("emergency")
		sym.Assert(sub == 1, "emergency information belongs to subtype 1")
		sym.Eq(int64(v.Subtype), 1, "subtype of an emergency")
		sym.Eq(int64(v.FormatTypeCode), 28, "type code of an emergency")
		sym.Eq(int64(v.EmergencyPriorityStatus), int64(spec.Bits(d, 9, 11)), "emergency state")
		sym.Eq(int64(v.ModeACode), int64(spec.Bits(d, 12, 24)), "Mode A code")
	case *bds61.AircraftStatusACAS:
		sym.Reach("advisory")
		sym.Assert(sub == 2, "an advisory broadcast belongs to subtype 2")
		sym.Eq(int64(v.Subtype), 2, "subtype of an advisory")
		sym.Eq(int64(v.FormatTypeCode), 28, "type code of an advisory")
		r := []byte{0x30, d[1], d[2], d[3], d[4], d[5], d[6]}
		c, err := bds30.ReadACASResolutionAdvisory(r)
		sym.Assert(err == nil, "the same advisory is read from the register")
		if err == nil {
			same(&v.ResolutionAdvisory, &c.ResolutionAdvisory)
		}
	default:
		sym.Assert(false, "a status is one of the three")
	}
}
