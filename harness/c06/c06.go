// Package c06: the address or interrogator overlaid on the parity is recovered and filtered.
package c06

import (
	"github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/reader"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "every decodable frame of DF 0, 4, 5, 11, 16, 19, 20, 21 and 24 to 31, all bits symbolic; allow-lists nil, empty, or holding one or two symbolic keys with symbolic values"

func lists() (addr, ii map[common.ICAOAddress]bool, ka, ki [2]uint64, na, ni int) {
	mk := func(n int, pre string, k *[2]uint64) map[common.ICAOAddress]bool {
		switch n {
		case 0:
			return nil
		case 1:
			return map[common.ICAOAddress]bool{}
		}
		m := map[common.ICAOAddress]bool{}
		for i := 0; i < n-1; i++ {
			k[i] = sym.Uint(pre+string(rune('0'+i)), 32)
			m[common.ICAOAddress(k[i])] = sym.Bool(pre + "v" + string(rune('0'+i)))
		}
		return m
	}
	na, ni = int(sym.Uint("addresses", 2)), int(sym.Uint("interrogators", 2))
	addr, ii = mk(na, "a", &ka), mk(ni, "i", &ki)
	return
}

func check(d []byte) {
	m, err := reader.ReadMessage(d)
	sym.Assume(err == nil)
	sym.Reach("decoded")
	n := len(d)
	addr, ii, ka, ki, na, ni := lists()
	got, err := reader.CheckCRC(m, d, addr, ii)
	over := uint64(spec.CRC24(d[:n-3])) ^ spec.Bits(d, 8*n-23, 8*n)
	k, cnt := ka, na
	if d[0]>>3 == 11 {
		k, cnt = ki, ni
	}
	listed := cnt <= 1 || k[0] == over || cnt == 3 && k[1] == over
	sym.Assert((err == nil) == listed, "accepted exactly when the applicable list is empty or names the recovered value")
	if err == nil {
		sym.Reach("accepted")
		sym.Eq(int64(got), int64(over), "the recovered value is parity minus the CRC of the frame")
	} else {
		sym.Reach("filtered out")
	}
}

func short(df byte) {
	d := sym.Bytes("msg", 7)
	d[0] = df<<3 | d[0]&7
	check(d)
}
func long(df byte) {
	d := sym.Bytes("msg", 14)
	d[0] = df<<3 | d[0]&7
	check(d)
}

// HDF0 decides DF0.
func HDF0() { short(0) }

// HDF4 decides DF4.
func HDF4() { short(4) }

// HDF5 decides DF5.
func HDF5() { short(5) }

// HDF11 decides DF11.
func HDF11() { short(11) }

// HDF16 decides DF16.
func HDF16() { long(16) }

// HDF19 decides DF19.
func HDF19() { long(19) }

// HDF20 decides DF20.
func HDF20() { long(20) }

// HDF21 decides DF21.
func HDF21() { long(21) }

// HDF24 decides DF24 to DF31.
func HDF24() {
	d := sym.Bytes("msg", 14)
	d[0] |= 0xC0
	check(d)
}

// HRoundTrip: a frame whose parity was made with an address yields that address.
func HRoundTrip() {
	d := sym.Bytes("msg", 14)
	d[0] = 20<<3 | d[0]&7
	a := sym.Uint("address", 24)
	p := uint64(spec.CRC24(d[:11])) ^ a
	d[11], d[12], d[13] = byte(p>>16), byte(p>>8), byte(p)
	m, err := reader.ReadMessage(d)
	sym.Assume(err == nil)
	sym.Reach("decoded")
	got, err := reader.CheckCRC(m, d, nil, nil)
	sym.Assert(err == nil, "accepted")
	sym.Eq(int64(got), int64(a), "the address used to build the parity comes back")
	got, err = reader.CheckCRC(m, d, map[common.ICAOAddress]bool{common.ICAOAddress(a): true}, nil)
	sym.Assert(err == nil && uint64(got) == a, "accepted when the list names it")
}
