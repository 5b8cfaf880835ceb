package spec

import (
	"github.com/twuillemin/modes/pkg/acas/ra"
	"github.com/twuillemin/modes/pkg/acas/ra/fields"
)

// SameRA says that two advisories have the same content.
func SameRA(a, b *ra.ResolutionAdvisory) bool {
	same := a.RATerminatedIndicator == b.RATerminatedIndicator &&
		a.MultipleThreatEncounter == b.MultipleThreatEncounter &&
		a.ThreatTypeIndicator == b.ThreatTypeIndicator &&
		a.RAComplement == b.RAComplement &&
		a.ActiveRA.GetType() == b.ActiveRA.GetType()
	switch x := a.ActiveRA.(type) {
	case *fields.ActiveRAOneThreatOrSameSeparation:
		y, ok := b.ActiveRA.(*fields.ActiveRAOneThreatOrSameSeparation)
		same = same && ok && *x == *y
	case *fields.ActiveRAMultipleThreatsDifferentSeparation:
		y, ok := b.ActiveRA.(*fields.ActiveRAMultipleThreatsDifferentSeparation)
		same = same && ok && *x == *y
	}
	if a.ThreatIdentityAddress != nil && b.ThreatIdentityAddress != nil {
		same = same && *a.ThreatIdentityAddress == *b.ThreatIdentityAddress
	} else {
		same = same && a.ThreatIdentityAddress == b.ThreatIdentityAddress
	}
	if a.ThreatIdentityAltitude != nil && b.ThreatIdentityAltitude != nil {
		same = same && *a.ThreatIdentityAltitude == *b.ThreatIdentityAltitude
	} else {
		same = same && a.ThreatIdentityAltitude == b.ThreatIdentityAltitude
	}
	if a.ThreatIdentityRange != nil && b.ThreatIdentityRange != nil {
		same = same && *a.ThreatIdentityRange == *b.ThreatIdentityRange
	} else {
		same = same && a.ThreatIdentityRange == b.ThreatIdentityRange
	}
	if a.ThreatIdentityBearing != nil && b.ThreatIdentityBearing != nil {
		same = same && *a.ThreatIdentityBearing == *b.ThreatIdentityBearing
	} else {
		same = same && a.ThreatIdentityBearing == b.ThreatIdentityBearing
	}
	return same
}
