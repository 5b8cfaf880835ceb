// Package c16: a Comm-B reply is given every interpretation its 56 bits support, and no other.
package c16

import (
	"github.com/twuillemin/modes/pkg/bds/bds00"
	"github.com/twuillemin/modes/pkg/bds/bds07"
	"github.com/twuillemin/modes/pkg/bds/bds10"
	"github.com/twuillemin/modes/pkg/bds/bds17"
	"github.com/twuillemin/modes/pkg/bds/bds20"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds40"
	"github.com/twuillemin/modes/pkg/bds/bds44"
	"github.com/twuillemin/modes/pkg/bds/bds45"
	"github.com/twuillemin/modes/pkg/bds/bds50"
	"github.com/twuillemin/modes/pkg/bds/bds60"
	"github.com/twuillemin/modes/pkg/bds/register"
	"github.com/twuillemin/modes/pkg/commb"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "all 56 bits of the message field"

// HInterpretations decides which interpretations a reply is given.
func HInterpretations() {
	d := sym.Bytes("mb", 7)
	in := []byte{d[0], d[1], d[2], d[3], d[4], d[5], d[6]}
	list, err := commb.ReadCommBMessage(in)
	sym.Assert(err == nil, "seven bytes are never refused")
	if err != nil {
		return
	}
	empty := spec.Bits(d, 1, 56) == 0
	status := !empty && spec.Bits(d, 4, 56) == 0 && spec.Bits(d, 1, 2) != 3
	ident := spec.Bits(d, 1, 8) == 0x20 && spec.CallSignLegal(d)
	other := !empty && !status && !ident
	src := spec.Bits(d, 1, 4)
	var n00, n07, n10, n17, n20, n30, n40, n44, n45, n50, n60, bad int64
	for _, m := range list {
		switch m.(type) {
		case *bds00.NoMessageAvailable:
			n00++
		case *bds07.Status:
			n07++
		case *bds10.DataLinkCapabilityReport:
			n10++
		case *bds17.CommonUsageGICBCapabilityReport:
			n17++
		case *bds20.AircraftIdentification:
			n20++
		case *bds30.ACASResolutionAdvisory:
			n30++
		case *bds40.SelectedVerticalIntention:
			n40++
		case bds44.MeteorologicalRoutineAirReport:
			n44++
		case bds45.MeteorologicalHazardReport:
			n45++
		case *bds50.TrackAndTurnReport:
			n50++
		case *bds60.HeadingAndTrackReport:
			n60++
		default:
			bad++
		}
	}
	sym.Eq(bad, 0, "every interpretation is a known register")
	sym.Eq(n00, spec.B2I(empty), "empty register")
	sym.Eq(n07, spec.B2I(status), "status register")
	sym.Eq(n20, spec.B2I(ident), "identification register")
	sym.Eq(n10, spec.B2I(other && spec.Bits(d, 1, 8) == 0x10 && spec.Bits(d, 10, 14) == 0 && spec.PlausibleCapability(d)), "data link capability register")
	sym.Eq(n17, spec.B2I(other && spec.Bits(d, 30, 56) == 0), "common usage register")
	sym.Eq(n30, spec.B2I(other && spec.Bits(d, 1, 8) == 0x30 && spec.RAMeaningful(d, 9)), "resolution advisory register")
	sym.Eq(n40, spec.B2I(other && spec.Bits(d, 40, 47) == 0 && spec.Bits(d, 52, 53) == 0 && spec.Plausible40(d)), "vertical intention register")
	sym.Eq(n44, spec.B2I(other && src <= 4 && spec.Plausible44V1(d)), "routine weather register")
	sym.Eq(n45, spec.B2I(other && spec.Bits(d, 55, 56) == 0 && spec.Plausible45V1(d)), "weather hazard register")
	sym.Eq(n50, spec.B2I(other && spec.Plausible50(d)), "track and turn register")
	sym.Eq(n60, spec.B2I(other && spec.Plausible60(d)), "heading and speed register")
	if n50 == 1 && n60 == 1 {
		sym.Reach("two interpretations")
	}
	if len(list) == 0 {
		sym.Reach("no interpretation")
	}
}

// HValues decides that each interpretation is the one its register has alone.
func HValues() {
	d := sym.Bytes("mb", 7)
	list, err := commb.ReadCommBMessage([]byte{d[0], d[1], d[2], d[3], d[4], d[5], d[6]})
	if err != nil {
		return
	}
	numbers, values := true, true
	for _, m := range list {
		var n register.Register
		same := false
		switch v := m.(type) {
		case *bds00.NoMessageAvailable:
			n = register.BDS00
			same = true
		case *bds07.Status:
			n = register.BDS07
			w, err := bds07.ReadStatus(d)
			same = err == nil && *v == *w
		case *bds10.DataLinkCapabilityReport:
			n = register.BDS10
			w, err := bds10.ReadDataLinkCapabilityReport(d)
			same = err == nil && *v == *w
		case *bds17.CommonUsageGICBCapabilityReport:
			n = register.BDS17
			w, err := bds17.ReadCommonUsageGICBCapabilityReport(d)
			same = err == nil && *v == *w
		case *bds20.AircraftIdentification:
			n = register.BDS20
			w, err := bds20.ReadAircraftIdentification(d)
			same = err == nil && *v == *w
		case *bds30.ACASResolutionAdvisory:
			n = register.BDS30
			w, err := bds30.ReadACASResolutionAdvisory(d)
			same = err == nil && spec.SameRA(&v.ResolutionAdvisory, &w.ResolutionAdvisory)
		case *bds40.SelectedVerticalIntention:
			n = register.BDS40
			w, err := bds40.ReadSelectedVerticalIntention(d)
			same = err == nil && *v == *w
		case *bds44.MeteorologicalRoutineAirReportV1:
			n = register.BDS44
			w, err := bds44.ReadMeteorologicalRoutineAirReportV1(d)
			same = err == nil && *v == *w && spec.Bits(d, 1, 4) == 0
		case *bds44.MeteorologicalRoutineAirReportV2:
			n = register.BDS44
			w, err := bds44.ReadMeteorologicalRoutineAirReportV2(d)
			same = err == nil && *v == *w && spec.Bits(d, 1, 4) != 0
		case *bds45.MeteorologicalHazardReportV1:
			n = register.BDS45
			w, err := bds45.ReadMeteorologicalHazardReportV1(d)
			same = err == nil && *v == *w
		case *bds50.TrackAndTurnReport:
			n = register.BDS50
			w, err := bds50.ReadTrackAndTurnReport(d)
			same = err == nil && *v == *w
		case *bds60.HeadingAndTrackReport:
			n = register.BDS60
			w, err := bds60.ReadHeadingAndSpeedReport(d)
			same = err == nil && *v == *w
		}
		numbers = numbers && m.GetRegister() == n
		values = values && same
	}
	sym.Assert(numbers, "each interpretation has the number of its register")
	sym.Assert(values, "each interpretation has the values its register has alone")
	if len(list) > 1 {
		sym.Reach("several interpretations")
	}
}

// HLength decides that only seven bytes are read.
func HLength() {
	for n := 0; n <= 16; n++ {
		if n == 7 {
			continue
		}
		_, err := commb.ReadCommBMessage(make([]byte, n))
		sym.Assert(err != nil, "a message field of another length is refused")
		_, err = commb.ReadCommBMessage(sym.Bytes("other", 16)[:n])
		sym.Assert(err != nil, "a message field of another length is refused")
	}
	sym.Reach("lengths")
}
