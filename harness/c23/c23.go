// Package c23: every decoded message renders to well-formed text.
package c23

import (
	"github.com/twuillemin/modes/pkg/acas/ra"
	"github.com/twuillemin/modes/pkg/adsb"
	adsbreader "github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/bds/bds00"
	"github.com/twuillemin/modes/pkg/bds/bds05"
	"github.com/twuillemin/modes/pkg/bds/bds06"
	"github.com/twuillemin/modes/pkg/bds/bds07"
	"github.com/twuillemin/modes/pkg/bds/bds08"
	"github.com/twuillemin/modes/pkg/bds/bds09"
	"github.com/twuillemin/modes/pkg/bds/bds10"
	"github.com/twuillemin/modes/pkg/bds/bds17"
	"github.com/twuillemin/modes/pkg/bds/bds20"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds40"
	"github.com/twuillemin/modes/pkg/bds/bds44"
	"github.com/twuillemin/modes/pkg/bds/bds45"
	"github.com/twuillemin/modes/pkg/bds/bds50"
	"github.com/twuillemin/modes/pkg/bds/bds60"
	"github.com/twuillemin/modes/pkg/bds/bds61"
	"github.com/twuillemin/modes/pkg/bds/bds62"
	"github.com/twuillemin/modes/pkg/bds/bds65"
	"github.com/twuillemin/modes/pkg/commb"
	modesreader "github.com/twuillemin/modes/pkg/modes/reader"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "every frame of 7 and 14 bytes, every squitter content at every version byte and both supplement bits, every Comm-B message field, every register at its own reader and every advisory, all bits symbolic"

// text decides one rendering.
func text(s string) {
	sym.Assert(s != "", "the text is not empty")
	sym.Assert(!sym.Contains(s, "%!"), "every formatting verb has its argument")
	sym.Assert(!sym.Contains(s, "<nil>"), "no value is missing")
	sym.Assert(!sym.Contains(s, "{"), "every value is rendered, not dumped")
}

func frames(n int) {
	m, err := modesreader.ReadMessage(sym.Bytes("msg", n))
	if err != nil {
		return
	}
	sym.Reach("frame")
	text(m.ToString())
	text(m.GetName())
}

// HShortFrames decides frames of 7 bytes.
func HShortFrames() { frames(7) }

// HLongFrames decides frames of 14 bytes.
func HLongFrames() { frames(14) }

// HSquitters decides what the squitter reader returns.
func HSquitters() {
	d := sym.Bytes("me", 7)
	m, err := adsbreader.ReadADSBMessage(adsb.ADSBVersion(sym.Uint("version", 8)), sym.Bool("nicA"), sym.Bool("nicC"), d)
	if err != nil {
		return
	}
	sym.Reach("squitter")
	text(m.ToString())
	text(m.GetADSBVersion().ToString())
}

// HCommB decides what the Comm-B reader returns.
func HCommB() {
	l, err := commb.ReadCommBMessage(sym.Bytes("mb", 7))
	if err != nil {
		return
	}
	for _, m := range l {
		sym.Reach("interpretation")
		text(m.ToString())
		text(m.GetRegister().ToString())
	}
}

// HBds05 decides register 0,5.
func HBds05() {
	d := sym.Bytes("data", 7)
	{
		m, err := bds05.ReadAirbornePosition(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
}

// HBds06 decides register 0,6.
func HBds06() {
	d := sym.Bytes("data", 7)
	{
		m, err := bds06.ReadSurfacePosition(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
}

// HBds08 decides register 0,8.
func HBds08() {
	d := sym.Bytes("data", 7)
	{
		m, err := bds08.ReadAircraftIdentificationAndCategory(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
}

// HBds09 decides register 0,9.
func HBds09() {
	d := sym.Bytes("data", 7)
	{
		m, err := bds09.ReadAirborneVelocityGroundSpeedNormal(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
	{
		m, err := bds09.ReadAirborneVelocityGroundSpeedSupersonic(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
	{
		m, err := bds09.ReadAirborneVelocityAirSpeedNormal(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
	{
		m, err := bds09.ReadAirborneVelocityAirSpeedSupersonic(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
	{
		m, err := bds09.ReadAirborneVelocity(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
}

// HBds61 decides register 6,1.
func HBds61() {
	d := sym.Bytes("data", 7)
	{
		m, err := bds61.ReadAircraftStatusNoInformation(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
	{
		m, err := bds61.ReadAircraftStatusEmergency(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
	{
		m, err := bds61.ReadAircraftStatusACAS(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
	{
		m, err := bds61.ReadAircraftStatus(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
}

// HBds62 decides register 6,2.
func HBds62() {
	d := sym.Bytes("data", 7)
	{
		m, err := bds62.ReadTargetStateAndStatus0(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
	{
		m, err := bds62.ReadTargetStateAndStatus1(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
	{
		m, err := bds62.ReadTargetStateAndStatus(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
}

// HBds65 decides register 6,5.
func HBds65() {
	d := sym.Bytes("data", 7)
	{
		m, err := bds65.ReadAircraftOperationalStatusADSB0(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
	{
		m, err := bds65.ReadAircraftOperationalStatusAirborneADSB1(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
	{
		m, err := bds65.ReadAircraftOperationalStatusAirborneADSB2(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
	{
		m, err := bds65.ReadAircraftOperationalStatusSurfaceADSB1(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
	{
		m, err := bds65.ReadAircraftOperationalStatusSurfaceADSB2(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
	{
		m, err := bds65.ReadAircraftOperationalStatus(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
}

// HBds00 decides register 0,0.
func HBds00() {
	d := sym.Bytes("data", 7)
	{
		m, err := bds00.ReadNoMessageAvailable(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
}

// HBds07 decides register 0,7.
func HBds07() {
	d := sym.Bytes("data", 7)
	{
		m, err := bds07.ReadStatus(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
}

// HBds10 decides register 1,0.
func HBds10() {
	d := sym.Bytes("data", 7)
	{
		m, err := bds10.ReadDataLinkCapabilityReport(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
}

// HBds17 decides register 1,7.
func HBds17() {
	d := sym.Bytes("data", 7)
	{
		m, err := bds17.ReadCommonUsageGICBCapabilityReport(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
}

// HBds20 decides register 2,0.
func HBds20() {
	d := sym.Bytes("data", 7)
	{
		m, err := bds20.ReadAircraftIdentification(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
}

// HBds30 decides register 3,0.
func HBds30() {
	d := sym.Bytes("data", 7)
	{
		m, err := bds30.ReadACASResolutionAdvisory(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
}

// HBds40 decides register 4,0.
func HBds40() {
	d := sym.Bytes("data", 7)
	{
		m, err := bds40.ReadSelectedVerticalIntention(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
}

// HBds44 decides register 4,4.
func HBds44() {
	d := sym.Bytes("data", 7)
	{
		m, err := bds44.ReadMeteorologicalRoutineAirReportV0(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
	{
		m, err := bds44.ReadMeteorologicalRoutineAirReportV1(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
	{
		m, err := bds44.ReadMeteorologicalRoutineAirReportV2(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
	{
		m, err := bds44.ReadMeteorologicalRoutineAirReport(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
}

// HBds45 decides register 4,5.
func HBds45() {
	d := sym.Bytes("data", 7)
	{
		m, err := bds45.ReadMeteorologicalHazardReportV0(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
	{
		m, err := bds45.ReadMeteorologicalHazardReportV1(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
	{
		m, err := bds45.ReadMeteorologicalHazardReport(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
}

// HBds50 decides register 5,0.
func HBds50() {
	d := sym.Bytes("data", 7)
	{
		m, err := bds50.ReadTrackAndTurnReport(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
}

// HBds60 decides register 6,0.
func HBds60() {
	d := sym.Bytes("data", 7)
	{
		m, err := bds60.ReadHeadingAndSpeedReport(d)
		if err == nil {
			sym.Reach("rendered")
			text(m.ToString())
			text(m.GetRegister().ToString())
		}
	}
}

// HAdvisory decides resolution advisories.
func HAdvisory() {
	m, err := ra.ReadResolutionAdvisory(sym.Bytes("data", 6))
	if err == nil {
		sym.Reach("rendered")
		text(m.ToString())
	}
}
