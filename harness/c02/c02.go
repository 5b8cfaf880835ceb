// Package c02: the fields of every downlink format hold the bits of the frame.
package c02

import (
	"github.com/twuillemin/modes/pkg/modes/messages"
	"github.com/twuillemin/modes/pkg/modes/reader"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "every decodable frame of every supported format (DF 0, 4, 5, 11, 16 to 21, 24 to 31), all bits symbolic"

func same(got []byte, d []byte, first, n int, label string) {
	sym.Assert(len(got) == n, label)
	if len(got) != n {
		return
	}
	ok := true
	for i := 0; i < n; i++ {
		ok = ok && got[i] == d[first+i]
	}
	sym.Assert(ok, label)
}

func frame(df byte, n int) ([]byte, messages.ModeSMessage) {
	d := sym.Bytes("msg", n)
	d[0] = df<<3 | d[0]&7
	m, err := reader.ReadMessage(d)
	sym.Assume(err == nil)
	sym.Reach("decoded")
	return d, m
}

func bits(d []byte, a, b int) int64 { return int64(spec.Bits(d, a, b)) }

// HDF0 decides the short air-air surveillance reply.
func HDF0() {
	d, m := frame(0, 7)
	v, ok := m.(*messages.MessageDF0)
	sym.Assert(ok, "type")
	sym.Assume(ok)
	sym.Eq(int64(v.VerticalStatus), bits(d, 6, 6), "VS is bit 6")
	sym.Eq(int64(v.CrossLinkCapability), bits(d, 7, 7), "CC is bit 7")
	sym.Eq(int64(v.SensitivityLevel), bits(d, 9, 11), "SL is bits 9-11")
	sym.Eq(int64(v.ReplyInformation), bits(d, 14, 17), "RI is bits 14-17")
}

// HDF16 decides the long air-air surveillance reply.
func HDF16() {
	d, m := frame(16, 14)
	v, ok := m.(*messages.MessageDF16)
	sym.Assert(ok, "type")
	sym.Assume(ok)
	sym.Eq(int64(v.VerticalStatus), bits(d, 6, 6), "VS is bit 6")
	sym.Eq(int64(v.SensitivityLevel), bits(d, 9, 11), "SL is bits 9-11")
	sym.Eq(int64(v.ReplyInformation), bits(d, 14, 17), "RI is bits 14-17")
	same(v.MessageACAS, d, 4, 7, "MV is bits 33-88")
}

// HDF4 decides the altitude reply.
func HDF4() {
	d, m := frame(4, 7)
	v, ok := m.(*messages.MessageDF4)
	sym.Assert(ok, "type")
	sym.Assume(ok)
	sym.Eq(int64(v.FlightStatus), bits(d, 6, 8), "FS is bits 6-8")
	sym.Eq(int64(v.DownlinkRequest), bits(d, 9, 13), "DR is bits 9-13")
	sym.Eq(int64(v.UtilityMessage.InterrogatorIdentifier), bits(d, 14, 17), "IIS is bits 14-17")
	sym.Eq(int64(v.UtilityMessage.IdentifierDesignator), bits(d, 18, 19), "IDS is bits 18-19")
}

// HDF5 decides the identity reply.
func HDF5() {
	d, m := frame(5, 7)
	v, ok := m.(*messages.MessageDF5)
	sym.Assert(ok, "type")
	sym.Assume(ok)
	sym.Eq(int64(v.FlightStatus), bits(d, 6, 8), "FS is bits 6-8")
	sym.Eq(int64(v.DownlinkRequest), bits(d, 9, 13), "DR is bits 9-13")
	sym.Eq(int64(v.UtilityMessage.InterrogatorIdentifier), bits(d, 14, 17), "IIS is bits 14-17")
	sym.Eq(int64(v.UtilityMessage.IdentifierDesignator), bits(d, 18, 19), "IDS is bits 18-19")
}

// HDF20 decides the Comm-B altitude reply.
func HDF20() {
	d, m := frame(20, 14)
	v, ok := m.(*messages.MessageDF20)
	sym.Assert(ok, "type")
	sym.Assume(ok)
	sym.Eq(int64(v.FlightStatus), bits(d, 6, 8), "FS is bits 6-8")
	sym.Eq(int64(v.DownlinkRequest), bits(d, 9, 13), "DR is bits 9-13")
	sym.Eq(int64(v.UtilityMessage.InterrogatorIdentifier), bits(d, 14, 17), "IIS is bits 14-17")
	sym.Eq(int64(v.UtilityMessage.IdentifierDesignator), bits(d, 18, 19), "IDS is bits 18-19")
	same(v.MessageCommB, d, 4, 7, "MB is bits 33-88")
}

// HDF21 decides the Comm-B identity reply.
func HDF21() {
	d, m := frame(21, 14)
	v, ok := m.(*messages.MessageDF21)
	sym.Assert(ok, "type")
	sym.Assume(ok)
	sym.Eq(int64(v.FlightStatus), bits(d, 6, 8), "FS is bits 6-8")
	sym.Eq(int64(v.DownlinkRequest), bits(d, 9, 13), "DR is bits 9-13")
	sym.Eq(int64(v.UtilityMessage.InterrogatorIdentifier), bits(d, 14, 17), "IIS is bits 14-17")
	sym.Eq(int64(v.UtilityMessage.IdentifierDesignator), bits(d, 18, 19), "IDS is bits 18-19")
	same(v.MessageCommB, d, 4, 7, "MB is bits 33-88")
}

// HDF11 decides the all-call reply.
func HDF11() {
	d, m := frame(11, 7)
	v, ok := m.(*messages.MessageDF11)
	sym.Assert(ok, "type")
	sym.Assume(ok)
	sym.Eq(int64(v.Capability), bits(d, 6, 8), "CA is bits 6-8")
	sym.Eq(int64(v.AddressAnnounced.Address), bits(d, 9, 32), "AA is bits 9-32")
}

// HDF17 decides the extended squitter.
func HDF17() {
	d, m := frame(17, 14)
	v, ok := m.(*messages.MessageDF17)
	sym.Assert(ok, "type")
	sym.Assume(ok)
	sym.Eq(int64(v.Capability), bits(d, 6, 8), "CA is bits 6-8")
	sym.Eq(int64(v.AddressAnnounced.Address), bits(d, 9, 32), "AA is bits 9-32")
	same(v.MessageExtendedSquitter, d, 4, 7, "ME is bits 33-88")
}

// HDF18 decides the non-transponder extended squitter.
func HDF18() {
	d, m := frame(18, 14)
	v, ok := m.(*messages.MessageDF18)
	sym.Assert(ok, "type")
	sym.Assume(ok)
	sym.Eq(int64(v.ControlField), bits(d, 6, 8), "CF is bits 6-8")
	sym.Eq(int64(v.AddressAnnounced.Address), bits(d, 9, 32), "AA is bits 9-32")
	same(v.MessageExtendedSquitter, d, 4, 7, "ME is bits 33-88")
}

// HDF19 decides the military extended squitter.
func HDF19() {
	d, m := frame(19, 14)
	v, ok := m.(*messages.MessageDF19)
	sym.Assert(ok, "type")
	sym.Assume(ok)
	sym.Eq(int64(v.ApplicationField), bits(d, 6, 8), "AF is bits 6-8")
}

// HDF24 decides the Comm-D extended length message.
func HDF24() {
	d := sym.Bytes("msg", 14)
	d[0] |= 0xC0
	m, err := reader.ReadMessage(d)
	sym.Assert(err == nil, "a Comm-D frame is decoded")
	sym.Assume(err == nil)
	sym.Reach("decoded")
	v, ok := m.(*messages.MessageDF24)
	sym.Assert(ok, "type")
	sym.Assume(ok)
	sym.Eq(int64(v.ControlELM), bits(d, 4, 4), "KE is bit 4")
	sym.Eq(int64(v.NumberOfDSegment), bits(d, 5, 8), "ND is bits 5-8")
	same(v.MessageCommD, d, 1, 10, "MD is bits 9-88")
}
