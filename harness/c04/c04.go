// Package c04: identity replies give the squawk code the pilot dialled.
package c04

import (
	"github.com/twuillemin/modes/pkg/modes/fields"
	"github.com/twuillemin/modes/pkg/modes/messages"
	"github.com/twuillemin/modes/pkg/modes/reader"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "all 8192 identity codes of DF 5 and DF 21 with every other bit of the frame symbolic"

func check(df byte, n int) {
	d := sym.Bytes("msg", n)
	d[0] = df<<3 | d[0]&7
	m, err := reader.ReadMessage(d)
	sym.Assert(err == nil, "decoded")
	sym.Assume(err == nil)
	var id fields.Identity
	switch v := m.(type) {
	case *messages.MessageDF5:
		id = v.Identity
	case *messages.MessageDF21:
		id = v.Identity
	}
	sym.Reach("decoded")
	// bits 20..32 are C1 A1 C2 A2 C4 A4 X B1 D1 B2 D2 B4 D4
	dig := func(p1, p2, p4 int) byte {
		return byte(spec.Bits(d, p1, p1) | spec.Bits(d, p2, p2)<<1 | spec.Bits(d, p4, p4)<<2)
	}
	a, b, c, e := dig(21, 23, 25), dig(27, 29, 31), dig(20, 22, 24), dig(28, 30, 32)
	want := string([]byte{'0' + a, '0' + b, '0' + c, '0' + e})
	sym.ObserveString("squawk", id.Identity)
	sym.Assert(id.Identity == want, "the code is the octal digits A B C D")
	code := int(a)*1000 + int(b)*100 + int(c)*10 + int(e)
	sym.Assert(id.IsSpecialEmergency() == (code == 7700), "7700 is emergency")
	sym.Assert(id.IsSpecialRadiocommunicationFailure() == (code == 7600), "7600 is radio failure")
	sym.Assert(id.IsSpecialUnlawfulInterference() == (code == 7500), "7500 is unlawful interference")
	sym.Assert(id.IsSpecialInstructionNotReceived() == (code == 2000), "2000 is no instruction")
}

// HDF5 decides DF5.
func HDF5() { check(5, 7) }

// HDF21 decides DF21.
func HDF21() { check(21, 14) }
