#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=[dict(name=n, where=w) for n, w in mech], note=note, na=na))
I = ["inputs"]
R = "pkg/modes/reader/reader.go"
prop("C01", "Frames are accepted and classified exactly by downlink format and length",
 "A Mode S frame is decoded exactly when it is 7 or 14 bytes long, its first five bits name a supported downlink format, its length is the one that format has, and - for formats that carry an altitude code - some altitude has that code; every other byte string of any length is refused with an error. A decoded frame reports the downlink format of its first five bits (24 for all of 24 to 31), has the message type belonging to it, and keeps the frame's first field, payload and parity bytes unchanged.",
 I, "every frame of every length from 0 to 32 bytes",
 "There are 2^112 frames; the tests decode a handful of valid ones per format and hardly any that must be refused.",
 [R, "pkg/modes/messages"], [("frame dispatcher", R), ("per-format parsers and their length guards", "pkg/modes/messages/df*.go")],
 "All bits of 7- and 14-byte frames symbolic; all other lengths up to 32 bytes.")
prop("C02", "Surveillance, all-call and Comm fields hold the frame bits of their definition",
 "For every decoded frame each field of its format - vertical status, cross-link capability, sensitivity level, reply information, flight status, downlink request, utility message, capability, control and application fields, announced address, ELM control and segment number, and the 56-bit or 80-bit message field - equals the bit positions Annex 10 assigns to it. No other bit of the frame influences the field.",
 I, "every frame of every supported format",
 "The tests check each field for one or two sample frames, in which most neighbouring bits are zero.",
 ["pkg/modes/messages", "pkg/modes/fields"], [("field readers", "pkg/modes/fields/*.go"), ("message assembly", "pkg/modes/messages/df*.go")],
 "All bits of the frame symbolic, per format.")
prop("C03", "Altitude codes decode to the altitude they stand for",
 "For every 13-bit altitude code the reported method and altitude are those of Annex 10: all zero means not available, the M bit means metric (altitude not decoded), the Q bit means 25 ft steps from -1000 ft, and otherwise the Gillham code gives the unique altitude in 100 ft steps. A code that stands for no altitude (C bits 000, 101 or 111) is refused with an error; two different Gillham codes never give the same altitude and neighbouring altitudes have codes that differ in one bit.",
 I, "all 8192 altitude codes in each of the four formats, all 4096 Gillham codes and all pairs of them",
 "The tests sample a few codes per method; a wrong bit weight shows only for codes that use the bit.",
 ["pkg/modes/fields/altitude_code.go", "pkg/bitutils/gillham.go"], [("altitude code reader", "pkg/modes/fields/altitude_code.go"), ("Gillham decoder", "pkg/bitutils/gillham.go")],
 "All codes symbolic, frame context symbolic.")
prop("C04", "Identity codes decode to the four octal squawk digits",
 "For every identity reply the reported code is the four octal digits A, B, C, D assembled from the interleaved pulse bits in their standard order, whatever the spare bit holds. The emergency, radio failure, unlawful interference and no-instruction flags are raised for exactly the codes 7700, 7600, 7500 and 2000.",
 I, "all 8192 identity codes in both identity formats, any other frame bits",
 "The tests try two or three codes out of 4096.",
 ["pkg/modes/fields/identity.go"], [("identity reader and special code predicates", "pkg/modes/fields/identity.go")],
 "All codes symbolic.")
prop("C05", "Extended squitters are accepted exactly when their parity is right",
 "An extended squitter is accepted exactly when its last 24 bits equal the Mode S CRC (generator 1FFF409h) of its first 88 bits, whatever the allow-lists hold, and then the announced address is reported. Hence no accepted squitter is turned into another accepted one by a burst of up to 24 bits, by an odd number of flipped bits, or by two flipped bits.",
 I, "every 112-bit extended squitter and every error pattern of the named kinds",
 "The tests check the parity of three frames; the guarantee is about all 2^112 frames and all error patterns.",
 ["pkg/modes/reader/crc.go"], [("parity check", "pkg/modes/reader/crc.go")],
 "All bits symbolic; two-bit patterns with the first bit at four positions in the quick tier and anywhere in the thorough tier.")
prop("C06", "The address or interrogator overlaid on the parity is recovered and filtered",
 "For every other decodable frame the recovered value is the received parity exclusive-or the CRC of the preceding bits, so a frame built for an address gives back that address. The frame is refused exactly when the applicable allow-list (interrogators for all-call replies, addresses otherwise) is not empty and does not contain the recovered value; the other list has no influence.",
 I, "every decodable frame of every other format, every allow-list of up to two entries",
 "The tests use one frame per format with fixed lists.",
 ["pkg/modes/reader/crc.go"], [("parity check per format", "pkg/modes/reader/crc.go")],
 "All bits symbolic; allow-lists nil, empty, one or two symbolic entries.")
A = "pkg/adsb/reader/reader.go"
exec(open(os.path.join(V, "tools", "props2.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mech"]))) + "\n")
checks, na = [], []
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    d = os.path.join(V, "harness", p["id"].lower())
    if p["na"] or not os.path.isdir(d):
        na.append(dict(property=p["id"], reason=p["na"] or "the check for this property is not built yet"))
        continue
    checks.append(dict(property=p["id"], quick_cmd="./run.sh check %s" % p["id"], thorough_cmd="./run.sh check %s" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique="symbolic execution of the Go SSA of the real code, assertions decided by SMT (Z3)",
        level="model_checking", level_note=p["note"]))
m = dict(version=1, setup_cmd="./run.sh setup", checks=checks, not_applicable=na,
    notes="Every check loads /repo's current source, builds its SSA form, executes the harness in harness/<id>/ and the code it calls symbolically, and asks an SMT solver for an input that violates an assertion. A counterexample is replayed against the compiled code before it is reported. Lines UNDECIDED, VACUOUS, MISMATCH or SPURIOUS say what a run could not decide; they do not count as held in the evidence file.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")
