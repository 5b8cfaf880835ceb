// Package c01: frames are classified by downlink format and length.
package c01

import (
	"github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/messages"
	"github.com/twuillemin/modes/pkg/modes/reader"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "frames of every length from 0 to 32 bytes (and nil), all bits symbolic"

func data(m messages.ModeSMessage) (common.MessageData, int) {
	switch v := m.(type) {
	case *messages.MessageDF0:
		return v.MessageData, 0
	case *messages.MessageDF4:
		return v.MessageData, 4
	case *messages.MessageDF5:
		return v.MessageData, 5
	case *messages.MessageDF11:
		return v.MessageData, 11
	case *messages.MessageDF16:
		return v.MessageData, 16
	case *messages.MessageDF17:
		return v.MessageData, 17
	case *messages.MessageDF18:
		return v.MessageData, 18
	case *messages.MessageDF19:
		return v.MessageData, 19
	case *messages.MessageDF20:
		return v.MessageData, 20
	case *messages.MessageDF21:
		return v.MessageData, 21
	case *messages.MessageDF24:
		return v.MessageData, 24
	}
	return common.MessageData{}, -1
}

func check(n int) {
	d := sym.Bytes("msg", n)
	m, err := reader.ReadMessage(d)
	sym.Assert((m == nil) == (err != nil), "exactly one of message and error is returned")
	df := spec.Bits(d, 1, 5)
	want := spec.FrameLen(df) == n
	if want && spec.HasAltitudeCode(df) {
		k, _ := spec.Altitude13(d, 20)
		want = k != spec.AltBad
	}
	sym.Assert((err == nil) == want, "a frame is decoded exactly when its format is supported, its length fits and its altitude code exists")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("decoded")
	kind := int64(df)
	if kind >= 24 {
		kind = 24
	}
	md, typ := data(m)
	sym.Eq(int64(m.GetDownLinkFormat()), kind, "reported downlink format")
	sym.Eq(int64(typ), kind, "concrete type of the message")
	sym.Eq(int64(md.DownLinkFormat), int64(df), "kept downlink format")
	sym.Eq(int64(md.FirstField), int64(spec.Bits(d, 6, 8)), "kept first field")
	sym.Eq(int64(len(md.Payload)), int64(n-4), "payload length")
	sym.Eq(int64(len(md.Parity)), 3, "parity length")
	ok := true
	for i := range md.Payload {
		ok = ok && md.Payload[i] == d[i+1]
	}
	for i := range md.Parity {
		ok = ok && md.Parity[i] == d[n-3+i]
	}
	sym.Assert(ok, "payload and parity are the frame's bytes")
}

// HShort decides 7-byte frames.
func HShort() { check(7) }

// HLong decides 14-byte frames.
func HLong() { check(14) }

// HOtherLengths decides all other lengths.
func HOtherLengths() {
	m, err := reader.ReadMessage(nil)
	sym.Assert(m == nil && err != nil, "an empty frame is refused")
	for n := 0; n <= 32; n++ {
		if n == 7 || n == 14 {
			continue
		}
		m, err := reader.ReadMessage(sym.Bytes("msg", n))
		sym.Assert(m == nil && err != nil, "a frame that is neither 7 nor 14 bytes long is refused")
	}
	sym.Reach("end")
}
