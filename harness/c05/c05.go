// Package c05: extended squitters are accepted exactly when their parity is right.
package c05

import (
	"github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/reader"
	"vharness/spec"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "every 14-byte extended squitter (DF17 and DF18): all 112 bits symbolic; error patterns: every burst of at most 24 bits at every position, every pattern of odd weight, every pattern of two flipped bits (first bit at 7, 37, 67 or 97 in the quick tier, anywhere in the thorough tier); allow-lists: nil, empty and one-entry maps with a symbolic key"

func frame(df byte) []byte {
	d := sym.Bytes("msg", 14)
	d[0] = df<<3 | d[0]&7
	return d
}

func check(df byte) {
	d := frame(df)
	m, err := reader.ReadMessage(d)
	sym.Assert(err == nil && m != nil, "an extended squitter of 14 bytes is decoded")
	sym.Assume(err == nil)
	var allow map[common.ICAOAddress]bool
	switch sym.Uint("lists", 2) {
	case 1:
		allow = map[common.ICAOAddress]bool{}
	case 2, 3:
		allow = map[common.ICAOAddress]bool{common.ICAOAddress(sym.Uint("known", 24)): sym.Bool("flag")}
	}
	addr, err := reader.CheckCRC(m, d, allow, allow)
	want := spec.CRC24(d[:11]) == uint32(spec.Bits(d, 89, 112))
	sym.Assert((err == nil) == want, "accepted exactly when the parity field equals the CRC of the first 88 bits")
	if err == nil {
		sym.Reach("accepted")
		sym.Eq(int64(addr), int64(spec.Bits(d, 9, 32)), "accepted squitter reports the announced address AA")
	} else {
		sym.Reach("rejected")
	}
}

// HAccept17 decides acceptance of DF17.
func HAccept17() { check(17) }

// HAccept18 decides acceptance of DF18.
func HAccept18() { check(18) }

func accepted(d []byte) bool {
	m, err := reader.ReadMessage(d)
	if err != nil {
		return false
	}
	_, err = reader.CheckCRC(m, d, nil, nil)
	return err == nil
}

// burst flips the bits of pat (first bit set) starting at bit pos (0-based).
func burst(d []byte, pos int, pat uint64) []byte {
	e := make([]byte, len(d))
	copy(e, d)
	for k := 0; k < 24 && pos+k < 112; k++ {
		if pat>>uint(k)&1 == 1 {
			e[(pos+k)/8] ^= 0x80 >> uint((pos+k)%8)
		}
	}
	return e
}

// HBurst: no burst of up to 24 bits turns a valid squitter into another accepted one.
func HBurst() {
	d := frame(17)
	sym.Assume(accepted(d))
	sym.Reach("valid frame")
	pat := sym.Uint("pattern", 24) | 1
	for pos := 5; pos < 112; pos++ {
		sym.Assert(!accepted(burst(d, pos, pat)), "a burst error of at most 24 bits is detected")
	}
}

// HTwoBits: no two-bit error goes undetected.
func HTwoBits() {
	d := frame(17)
	sym.Assume(accepted(d))
	sym.Reach("valid frame")
	for i := 5; i < 112; i++ {
		if i%30 != 7 && !sym.Thorough() {
			continue
		}
		for j := i + 1; j < 112; j++ {
			e := make([]byte, len(d))
			copy(e, d)
			e[i/8] ^= 0x80 >> uint(i%8)
			e[j/8] ^= 0x80 >> uint(j%8)
			sym.Assert(!accepted(e), "an error of two bits is detected")
		}
	}
}

// HOdd: no error that flips an odd number of bits goes undetected.
func HOdd() {
	d := frame(17)
	sym.Assume(accepted(d))
	sym.Reach("valid frame")
	e := sym.Bytes("error", 14)
	e[0] &= 7
	par := false
	x := make([]byte, 14)
	for i := range e {
		for k := uint(0); k < 8; k++ {
			if e[i]>>k&1 == 1 {
				par = !par
			}
		}
		x[i] = d[i] ^ e[i]
	}
	sym.Assume(par)
	sym.Reach("odd error")
	sym.Assert(!accepted(x), "an error that flips an odd number of bits is detected")
}
