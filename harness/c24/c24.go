// Package c24: rendered codes name the value they stand for and no two look the same.
// Written by tools/gen24.py.
package c24

import (
	"strings"

	raf "github.com/twuillemin/modes/pkg/acas/ra/fields"
	airbornepositionf "github.com/twuillemin/modes/pkg/adsb/airborne_position/fields"
	surfacepositionf "github.com/twuillemin/modes/pkg/adsb/surface_position/fields"
	bds05f "github.com/twuillemin/modes/pkg/bds/bds05/fields"
	bds06f "github.com/twuillemin/modes/pkg/bds/bds06/fields"
	bds07f "github.com/twuillemin/modes/pkg/bds/bds07/fields"
	bds08f "github.com/twuillemin/modes/pkg/bds/bds08/fields"
	bds09f "github.com/twuillemin/modes/pkg/bds/bds09/fields"
	bds10f "github.com/twuillemin/modes/pkg/bds/bds10/fields"
	bds40f "github.com/twuillemin/modes/pkg/bds/bds40/fields"
	bds44f "github.com/twuillemin/modes/pkg/bds/bds44/fields"
	bds45f "github.com/twuillemin/modes/pkg/bds/bds45/fields"
	bds61f "github.com/twuillemin/modes/pkg/bds/bds61/fields"
	bds62f "github.com/twuillemin/modes/pkg/bds/bds62/fields"
	bds65f "github.com/twuillemin/modes/pkg/bds/bds65/fields"
	modesf "github.com/twuillemin/modes/pkg/modes/fields"
	"vharness/sym"
)

// Bounds states what the check covers.
const Bounds = "every value of every enumerated field, the value symbolic over the codes the field can hold, and every pair of values"

// item is a value, its code in digits, and the words its text must (or, after !, must not) have.
type item struct {
	v     uint64
	code  string
	words string
}

// enum decides one enumeration: text renders a value, coded tells whether texts start with the code.
func enum(name string, coded bool, text func(uint64) string, items []item) {
	v, w := sym.Uint(name, 8), sym.Uint(name+"'", 8)
	s, t := text(v), text(w)
	inV, inW := false, false
	for _, i := range items {
		inV = inV || v == i.v
		inW = inW || w == i.v
		if v != i.v {
			continue
		}
		sym.ObserveString(name, s)
		if coded {
			sym.Assert(s == i.code || strings.HasPrefix(s, i.code+" ") || strings.HasPrefix(s, " "+i.code+" "), name+": the text starts with the code")
		}
		for _, word := range strings.Split(i.words, "|") {
			if word == "" {
				continue
			}
			if word[0] == '!' {
				sym.Assert(!sym.Contains(s, word[1:]), name+": the text names the value")
			} else {
				sym.Assert(sym.Contains(s, word), name+": the text names the value")
			}
		}
	}
	sym.Assert(!inV || !inW || v == w || s != t, name+": two values never look the same")
	sym.Reach(name)
}

// HRa decides the enumerations of acas/ra/fields.
func HRa() {
	enum("ActiveRAPreventiveCorrective", false, func(v uint64) string { return raf.ActiveRAPreventiveCorrective(v).ToString() }, []item{
		{0, "0", "reventive"},
		{1, "1", "orrective"},
	})
	enum("ActiveRASense", false, func(v uint64) string { return raf.ActiveRASense(v).ToString() }, []item{
		{0, "0", "pward"},
		{1, "1", "ownward"},
	})
	enum("ActiveRAVerticalSpeedLimitOrPositive", false, func(v uint64) string { return raf.ActiveRAVerticalSpeedLimitOrPositive(v).ToString() }, []item{
		{0, "0", "imit"},
		{1, "1", "ositive"},
	})
	enum("AltitudeStatus", false, func(v uint64) string { return raf.AltitudeStatus(v).ToString() }, []item{
		{0, "0", "Not Available"},
		{1, "1", "Valid|!Not"},
	})
	enum("MultipleThreatEncounter", false, func(v uint64) string { return raf.MultipleThreatEncounter(v).ToString() }, []item{
		{0, "0", "One or no"},
		{1, "1", "Two or more"},
	})
	enum("RATerminatedIndicator", false, func(v uint64) string { return raf.RATerminatedIndicator(v).ToString() }, []item{
		{0, "0", "currently"},
		{1, "1", "terminated"},
	})
	enum("ThreatIdentityBearing", true, func(v uint64) string { return raf.ThreatIdentityBearing(v).ToString() }, []item{
		{0, "0", "No bearing"},
		{1, "1", " between 0 and 6|!and 60"},
		{2, "2", " between 6 and 12|!and 120"},
		{3, "3", " between 12 and 18|!and 180"},
		{4, "4", " between 18 and 24|!and 240"},
		{5, "5", " between 24 and 30|!and 300"},
		{6, "6", " between 30 and 36|!and 360"},
		{7, "7", " between 36 and 42|!and 420"},
		{8, "8", " between 42 and 48|!and 480"},
		{9, "9", " between 48 and 54|!and 540"},
		{10, "10", " between 54 and 60|!and 600"},
		{11, "11", " between 60 and 66|!and 660"},
		{12, "12", " between 66 and 72|!and 720"},
		{13, "13", " between 72 and 78|!and 780"},
		{14, "14", " between 78 and 84|!and 840"},
		{15, "15", " between 84 and 90|!and 900"},
		{16, "16", " between 90 and 96|!and 960"},
		{17, "17", " between 96 and 102|!and 1020"},
		{18, "18", " between 102 and 108|!and 1080"},
		{19, "19", " between 108 and 114|!and 1140"},
		{20, "20", " between 114 and 120|!and 1200"},
		{21, "21", " between 120 and 126|!and 1260"},
		{22, "22", " between 126 and 132|!and 1320"},
		{23, "23", " between 132 and 138|!and 1380"},
		{24, "24", " between 138 and 144|!and 1440"},
		{25, "25", " between 144 and 150|!and 1500"},
		{26, "26", " between 150 and 156|!and 1560"},
		{27, "27", " between 156 and 162|!and 1620"},
		{28, "28", " between 162 and 168|!and 1680"},
		{29, "29", " between 168 and 174|!and 1740"},
		{30, "30", " between 174 and 180|!and 1800"},
		{31, "31", " between 180 and 186|!and 1860"},
		{32, "32", " between 186 and 192|!and 1920"},
		{33, "33", " between 192 and 198|!and 1980"},
		{34, "34", " between 198 and 204|!and 2040"},
		{35, "35", " between 204 and 210|!and 2100"},
		{36, "36", " between 210 and 216|!and 2160"},
		{37, "37", " between 216 and 222|!and 2220"},
		{38, "38", " between 222 and 228|!and 2280"},
		{39, "39", " between 228 and 234|!and 2340"},
		{40, "40", " between 234 and 240|!and 2400"},
		{41, "41", " between 240 and 246|!and 2460"},
		{42, "42", " between 246 and 252|!and 2520"},
		{43, "43", " between 252 and 258|!and 2580"},
		{44, "44", " between 258 and 264|!and 2640"},
		{45, "45", " between 264 and 270|!and 2700"},
		{46, "46", " between 270 and 276|!and 2760"},
		{47, "47", " between 276 and 282|!and 2820"},
		{48, "48", " between 282 and 288|!and 2880"},
		{49, "49", " between 288 and 294|!and 2940"},
		{50, "50", " between 294 and 300|!and 3000"},
		{51, "51", " between 300 and 306|!and 3060"},
		{52, "52", " between 306 and 312|!and 3120"},
		{53, "53", " between 312 and 318|!and 3180"},
		{54, "54", " between 318 and 324|!and 3240"},
		{55, "55", " between 324 and 330|!and 3300"},
		{56, "56", " between 330 and 336|!and 3360"},
		{57, "57", " between 336 and 342|!and 3420"},
		{58, "58", " between 342 and 348|!and 3480"},
		{59, "59", " between 348 and 354|!and 3540"},
		{60, "60", " between 354 and 360|!and 3600"},
		{61, "61", "Not assigned"},
		{62, "62", "Not assigned"},
		{63, "63", "Not assigned"},
	})
	enum("ThreatIdentityRange", true, func(v uint64) string { return raf.ThreatIdentityRange(v).ToString() }, []item{
		{0, "0", "No range"},
		{1, "1", "Less than 0.05"},
		{2, "2", "+/- 0.05 NM"},
		{3, "3", "+/- 0.05 NM"},
		{4, "4", "+/- 0.05 NM"},
		{5, "5", "+/- 0.05 NM"},
		{6, "6", "+/- 0.05 NM"},
		{7, "7", "+/- 0.05 NM"},
		{8, "8", "+/- 0.05 NM"},
		{9, "9", "+/- 0.05 NM"},
		{10, "10", "+/- 0.05 NM"},
		{11, "11", "+/- 0.05 NM"},
		{12, "12", "+/- 0.05 NM"},
		{13, "13", "+/- 0.05 NM"},
		{14, "14", "+/- 0.05 NM"},
		{15, "15", "+/- 0.05 NM"},
		{16, "16", "+/- 0.05 NM"},
		{17, "17", "+/- 0.05 NM"},
		{18, "18", "+/- 0.05 NM"},
		{19, "19", "+/- 0.05 NM"},
		{20, "20", "+/- 0.05 NM"},
		{21, "21", "+/- 0.05 NM"},
		{22, "22", "+/- 0.05 NM"},
		{23, "23", "+/- 0.05 NM"},
		{24, "24", "+/- 0.05 NM"},
		{25, "25", "+/- 0.05 NM"},
		{26, "26", "+/- 0.05 NM"},
		{27, "27", "+/- 0.05 NM"},
		{28, "28", "+/- 0.05 NM"},
		{29, "29", "+/- 0.05 NM"},
		{30, "30", "+/- 0.05 NM"},
		{31, "31", "+/- 0.05 NM"},
		{32, "32", "+/- 0.05 NM"},
		{33, "33", "+/- 0.05 NM"},
		{34, "34", "+/- 0.05 NM"},
		{35, "35", "+/- 0.05 NM"},
		{36, "36", "+/- 0.05 NM"},
		{37, "37", "+/- 0.05 NM"},
		{38, "38", "+/- 0.05 NM"},
		{39, "39", "+/- 0.05 NM"},
		{40, "40", "+/- 0.05 NM"},
		{41, "41", "+/- 0.05 NM"},
		{42, "42", "+/- 0.05 NM"},
		{43, "43", "+/- 0.05 NM"},
		{44, "44", "+/- 0.05 NM"},
		{45, "45", "+/- 0.05 NM"},
		{46, "46", "+/- 0.05 NM"},
		{47, "47", "+/- 0.05 NM"},
		{48, "48", "+/- 0.05 NM"},
		{49, "49", "+/- 0.05 NM"},
		{50, "50", "+/- 0.05 NM"},
		{51, "51", "+/- 0.05 NM"},
		{52, "52", "+/- 0.05 NM"},
		{53, "53", "+/- 0.05 NM"},
		{54, "54", "+/- 0.05 NM"},
		{55, "55", "+/- 0.05 NM"},
		{56, "56", "+/- 0.05 NM"},
		{57, "57", "+/- 0.05 NM"},
		{58, "58", "+/- 0.05 NM"},
		{59, "59", "+/- 0.05 NM"},
		{60, "60", "+/- 0.05 NM"},
		{61, "61", "+/- 0.05 NM"},
		{62, "62", "+/- 0.05 NM"},
		{63, "63", "+/- 0.05 NM"},
		{64, "64", "+/- 0.05 NM"},
		{65, "65", "+/- 0.05 NM"},
		{66, "66", "+/- 0.05 NM"},
		{67, "67", "+/- 0.05 NM"},
		{68, "68", "+/- 0.05 NM"},
		{69, "69", "+/- 0.05 NM"},
		{70, "70", "+/- 0.05 NM"},
		{71, "71", "+/- 0.05 NM"},
		{72, "72", "+/- 0.05 NM"},
		{73, "73", "+/- 0.05 NM"},
		{74, "74", "+/- 0.05 NM"},
		{75, "75", "+/- 0.05 NM"},
		{76, "76", "+/- 0.05 NM"},
		{77, "77", "+/- 0.05 NM"},
		{78, "78", "+/- 0.05 NM"},
		{79, "79", "+/- 0.05 NM"},
		{80, "80", "+/- 0.05 NM"},
		{81, "81", "+/- 0.05 NM"},
		{82, "82", "+/- 0.05 NM"},
		{83, "83", "+/- 0.05 NM"},
		{84, "84", "+/- 0.05 NM"},
		{85, "85", "+/- 0.05 NM"},
		{86, "86", "+/- 0.05 NM"},
		{87, "87", "+/- 0.05 NM"},
		{88, "88", "+/- 0.05 NM"},
		{89, "89", "+/- 0.05 NM"},
		{90, "90", "+/- 0.05 NM"},
		{91, "91", "+/- 0.05 NM"},
		{92, "92", "+/- 0.05 NM"},
		{93, "93", "+/- 0.05 NM"},
		{94, "94", "+/- 0.05 NM"},
		{95, "95", "+/- 0.05 NM"},
		{96, "96", "+/- 0.05 NM"},
		{97, "97", "+/- 0.05 NM"},
		{98, "98", "+/- 0.05 NM"},
		{99, "99", "+/- 0.05 NM"},
		{100, "100", "+/- 0.05 NM"},
		{101, "101", "+/- 0.05 NM"},
		{102, "102", "+/- 0.05 NM"},
		{103, "103", "+/- 0.05 NM"},
		{104, "104", "+/- 0.05 NM"},
		{105, "105", "+/- 0.05 NM"},
		{106, "106", "+/- 0.05 NM"},
		{107, "107", "+/- 0.05 NM"},
		{108, "108", "+/- 0.05 NM"},
		{109, "109", "+/- 0.05 NM"},
		{110, "110", "+/- 0.05 NM"},
		{111, "111", "+/- 0.05 NM"},
		{112, "112", "+/- 0.05 NM"},
		{113, "113", "+/- 0.05 NM"},
		{114, "114", "+/- 0.05 NM"},
		{115, "115", "+/- 0.05 NM"},
		{116, "116", "+/- 0.05 NM"},
		{117, "117", "+/- 0.05 NM"},
		{118, "118", "+/- 0.05 NM"},
		{119, "119", "+/- 0.05 NM"},
		{120, "120", "+/- 0.05 NM"},
		{121, "121", "+/- 0.05 NM"},
		{122, "122", "+/- 0.05 NM"},
		{123, "123", "+/- 0.05 NM"},
		{124, "124", "+/- 0.05 NM"},
		{125, "125", "+/- 0.05 NM"},
		{126, "126", "+/- 0.05 NM"},
		{127, "127", "Greater than 12.55"},
	})
	enum("ThreatTypeIndicator", true, func(v uint64) string { return raf.ThreatTypeIndicator(v).ToString() }, []item{
		{0, "0", "No identity"},
		{1, "1", "transponder address"},
		{2, "2", "altitude|range|bearing"},
		{3, "3", "Not assigned"},
	})
}

// HAirborneposition decides the enumerations of adsb/airborne_position/fields.
func HAirborneposition() {
	enum("ContainmentRadius", false, func(v uint64) string { return airbornepositionf.ContainmentRadius(v).ToString() }, []item{
		{9, "9", "Baro|3m"},
		{10, "10", "Baro|3 m|10 m"},
		{11, "11", "Baro|10 m|92.6 m"},
		{12, "12", "Baro|92.6 m|185.2 m"},
		{13, "13", "Baro|185.2 m|463 m"},
		{14, "14", "Baro|463 m|926 m"},
		{15, "15", "Baro|926 m|1852 m"},
		{16, "16", "Baro|1.852 km|9.26 km"},
		{17, "17", "Baro|9.26 km|18.52 km"},
		{18, "18", "Baro|18.52 km|!9.26"},
		{20, "20", "GNSS|3 m|4 m"},
		{21, "21", "GNSS|< 10 m|15 m"},
		{22, "22", "GNSS|> 10 m|15 m"},
	})
	enum("HorizontalContainmentRadiusV1", false, func(v uint64) string { return airbornepositionf.HorizontalContainmentRadiusV1(v).ToString() }, []item{
		{0, "0", "GNSS|< 7.5 m|11 m"},
		{1, "1", "GNSS|< 25 m|37.5 m"},
		{2, "2", "GNSS|>= 25 m|unknown"},
		{9, "9", "Baro|< 7.5 m|11 m"},
		{10, "10", "Baro|< 25 m|37.5 m"},
		{11, "11", "Baro|0.1 NM"},
		{12, "12", "Baro|0.2 NM"},
		{13, "13", "Baro|0.5 NM"},
		{14, "14", "Baro|1.0 NM"},
		{15, "15", "Baro|< 2 NM"},
		{16, "16", "Baro|< 8 NM"},
		{17, "17", "Baro|< 20 NM"},
		{18, "18", "Baro|>= 20 NM|unknown"},
		{111, "111", "Baro|< 75 m|112 m"},
		{113, "113", "Baro|0.6 NM"},
		{116, "116", "Baro|< 4 NM"},
	})
	enum("HorizontalContainmentRadiusV2", false, func(v uint64) string { return airbornepositionf.HorizontalContainmentRadiusV2(v).ToString() }, []item{
		{9, "9", "Baro|< 7.5 m"},
		{10, "10", "Baro|< 25 m"},
		{11, "11", "Baro|0.1 NM"},
		{12, "12", "Baro|0.2 NM"},
		{13, "13", "Baro|0.5 NM"},
		{14, "14", "Baro|1.0 NM"},
		{15, "15", "Baro|< 2 NM"},
		{16, "16", "Baro|< 8 NM"},
		{17, "17", "Baro|< 20 NM"},
		{18, "18", "Baro|>= 20 NM|unknown"},
		{20, "20", "GNSS|< 7.5 m"},
		{21, "21", "GNSS|< 25 m"},
		{22, "22", "GNSS|>= 25 m|unknown"},
		{111, "111", "Baro|< 75 m"},
		{113, "113", "Baro|0.6 NM"},
		{116, "116", "Baro|< 4 NM"},
		{213, "213", "Baro|0.3 NM"},
	})
	enum("HorizontalProtectionLimit", false, func(v uint64) string { return airbornepositionf.HorizontalProtectionLimit(v).ToString() }, []item{
		{9, "9", "Baro|7.5 m|!25"},
		{10, "10", "Baro|7.5 m|25 m"},
		{11, "11", "Baro|25 m|185.2 m"},
		{12, "12", "Baro|185.2 m|370.4 m"},
		{13, "13", "Baro|370.4 m|926 m"},
		{14, "14", "Baro|926 m|1.0 NM"},
		{15, "15", "Baro|1.0 NM|2.0 NM"},
		{16, "16", "Baro|2.0 NM|10 NM"},
		{17, "17", "Baro|10 NM|20 NM"},
		{18, "18", "Baro|20 NM|!10 NM"},
		{20, "20", "GNSS|< 7.5 m"},
		{21, "21", "GNSS|< 25 m"},
		{22, "22", "GNSS|25 m <="},
	})
	enum("NavigationIntegrityCodeSupplementB", true, func(v uint64) string { return airbornepositionf.NavigationIntegrityCodeSupplementB(v).ToString() }, []item{
		{0, "0", ""},
		{1, "1", ""},
	})
}

// HSurfaceposition decides the enumerations of adsb/surface_position/fields.
func HSurfaceposition() {
	enum("ContainmentRadius", false, func(v uint64) string { return surfacepositionf.ContainmentRadius(v).ToString() }, []item{
		{5, "5", "< 3 m"},
		{6, "6", "3 m|10 m"},
		{7, "7", "10 m|92.6 m"},
		{8, "8", "92.6 m|!10 m"},
	})
	enum("HorizontalContainmentRadiusV1", false, func(v uint64) string { return surfacepositionf.HorizontalContainmentRadiusV1(v).ToString() }, []item{
		{0, "0", "7.5 m"},
		{1, "1", "< 25 m"},
		{2, "2", "75 m"},
		{3, "3", "< 0.1 NM"},
		{4, "4", ">= 0.1 NM"},
	})
	enum("HorizontalContainmentRadiusV2", false, func(v uint64) string { return surfacepositionf.HorizontalContainmentRadiusV2(v).ToString() }, []item{
		{0, "0", "7.5 m"},
		{1, "1", "< 25 m"},
		{2, "2", "75 m"},
		{3, "3", "0.1 NM"},
		{4, "4", "0.2 NM"},
		{5, "5", "0.3 NM"},
		{6, "6", "< 0.6 NM"},
		{7, "7", ">= 0.6 NM"},
	})
	enum("HorizontalProtectionLimit", false, func(v uint64) string { return surfacepositionf.HorizontalProtectionLimit(v).ToString() }, []item{
		{5, "5", "7.5 m"},
		{6, "6", "< 25 m"},
		{7, "7", "< 185.2 m"},
		{8, "8", "185.2 m|!< 185"},
	})
}

// HBds05 decides the enumerations of bds/bds05/fields.
func HBds05() {
	enum("AltitudeReportMethod", true, func(v uint64) string { return bds05f.AltitudeReportMethod(v).ToString() }, []item{
		{0, "0", "100 F"},
		{1, "1", "25 F"},
	})
	enum("AltitudeSource", true, func(v uint64) string { return bds05f.AltitudeSource(v).ToString() }, []item{
		{0, "0", "Barometric"},
		{1, "1", "GNSS"},
	})
	enum("CompactPositionReportingFormat", true, func(v uint64) string { return bds05f.CompactPositionReportingFormat(v).ToString() }, []item{
		{0, "0", "even"},
		{1, "1", "odd"},
	})
	enum("SingleAntennaFlag", true, func(v uint64) string { return bds05f.SingleAntennaFlag(v).ToString() }, []item{
		{0, "0", "dual"},
		{1, "1", "single"},
	})
	enum("SurveillanceStatus", true, func(v uint64) string { return bds05f.SurveillanceStatus(v).ToString() }, []item{
		{0, "0", "no "},
		{1, "1", "permanent"},
		{2, "2", "temporary"},
		{3, "3", "SPI"},
	})
	enum("Time", true, func(v uint64) string { return bds05f.Time(v).ToString() }, []item{
		{0, "0", "not "},
		{1, "1", "synchronized|!not "},
	})
}

// HBds06 decides the enumerations of bds/bds06/fields.
func HBds06() {
	enum("CompactPositionReportingFormat", true, func(v uint64) string { return bds06f.CompactPositionReportingFormat(v).ToString() }, []item{
		{0, "0", "even"},
		{1, "1", "odd"},
	})
	enum("MovementStatus", true, func(v uint64) string { return bds06f.MovementStatus(v).ToString() }, []item{
		{0, "0", "no information"},
		{1, "1", "stopped"},
		{2, "2", "valid"},
		{3, "3", "valid"},
		{4, "4", "valid"},
		{5, "5", "valid"},
		{6, "6", "valid"},
		{7, "7", "valid"},
		{8, "8", "valid"},
		{9, "9", "valid"},
		{10, "10", "valid"},
		{11, "11", "valid"},
		{12, "12", "valid"},
		{13, "13", "valid"},
		{14, "14", "valid"},
		{15, "15", "valid"},
		{16, "16", "valid"},
		{17, "17", "valid"},
		{18, "18", "valid"},
		{19, "19", "valid"},
		{20, "20", "valid"},
		{21, "21", "valid"},
		{22, "22", "valid"},
		{23, "23", "valid"},
		{24, "24", "valid"},
		{25, "25", "valid"},
		{26, "26", "valid"},
		{27, "27", "valid"},
		{28, "28", "valid"},
		{29, "29", "valid"},
		{30, "30", "valid"},
		{31, "31", "valid"},
		{32, "32", "valid"},
		{33, "33", "valid"},
		{34, "34", "valid"},
		{35, "35", "valid"},
		{36, "36", "valid"},
		{37, "37", "valid"},
		{38, "38", "valid"},
		{39, "39", "valid"},
		{40, "40", "valid"},
		{41, "41", "valid"},
		{42, "42", "valid"},
		{43, "43", "valid"},
		{44, "44", "valid"},
		{45, "45", "valid"},
		{46, "46", "valid"},
		{47, "47", "valid"},
		{48, "48", "valid"},
		{49, "49", "valid"},
		{50, "50", "valid"},
		{51, "51", "valid"},
		{52, "52", "valid"},
		{53, "53", "valid"},
		{54, "54", "valid"},
		{55, "55", "valid"},
		{56, "56", "valid"},
		{57, "57", "valid"},
		{58, "58", "valid"},
		{59, "59", "valid"},
		{60, "60", "valid"},
		{61, "61", "valid"},
		{62, "62", "valid"},
		{63, "63", "valid"},
		{64, "64", "valid"},
		{65, "65", "valid"},
		{66, "66", "valid"},
		{67, "67", "valid"},
		{68, "68", "valid"},
		{69, "69", "valid"},
		{70, "70", "valid"},
		{71, "71", "valid"},
		{72, "72", "valid"},
		{73, "73", "valid"},
		{74, "74", "valid"},
		{75, "75", "valid"},
		{76, "76", "valid"},
		{77, "77", "valid"},
		{78, "78", "valid"},
		{79, "79", "valid"},
		{80, "80", "valid"},
		{81, "81", "valid"},
		{82, "82", "valid"},
		{83, "83", "valid"},
		{84, "84", "valid"},
		{85, "85", "valid"},
		{86, "86", "valid"},
		{87, "87", "valid"},
		{88, "88", "valid"},
		{89, "89", "valid"},
		{90, "90", "valid"},
		{91, "91", "valid"},
		{92, "92", "valid"},
		{93, "93", "valid"},
		{94, "94", "valid"},
		{95, "95", "valid"},
		{96, "96", "valid"},
		{97, "97", "valid"},
		{98, "98", "valid"},
		{99, "99", "valid"},
		{100, "100", "valid"},
		{101, "101", "valid"},
		{102, "102", "valid"},
		{103, "103", "valid"},
		{104, "104", "valid"},
		{105, "105", "valid"},
		{106, "106", "valid"},
		{107, "107", "valid"},
		{108, "108", "valid"},
		{109, "109", "valid"},
		{110, "110", "valid"},
		{111, "111", "valid"},
		{112, "112", "valid"},
		{113, "113", "valid"},
		{114, "114", "valid"},
		{115, "115", "valid"},
		{116, "116", "valid"},
		{117, "117", "valid"},
		{118, "118", "valid"},
		{119, "119", "valid"},
		{120, "120", "valid"},
		{121, "121", "valid"},
		{122, "122", "valid"},
		{123, "123", "valid"},
		{124, "124", "175 kt"},
		{125, "125", "Decelerating"},
		{126, "126", "Accelerating"},
		{127, "127", "Backing"},
	})
	enum("Time", true, func(v uint64) string { return bds06f.Time(v).ToString() }, []item{
		{0, "0", "not "},
		{1, "1", "synchronized|!not "},
	})
}

// HBds07 decides the enumerations of bds/bds07/fields.
func HBds07() {
	enum("AltitudeTypeSubfield", true, func(v uint64) string { return bds07f.AltitudeTypeSubfield(v).ToString() }, []item{
		{0, "0", "Barometric"},
		{1, "1", "GNSS"},
	})
	enum("TransmissionRateSubfield", true, func(v uint64) string { return bds07f.TransmissionRateSubfield(v).ToString() }, []item{
		{0, "0", "apability"},
		{1, "1", "High"},
		{2, "2", "Low"},
	})
}

// HBds08 decides the enumerations of bds/bds08/fields.
func HBds08() {
	enum("AircraftCategorySetA", true, func(v uint64) string { return bds08f.AircraftCategorySetA(v).ToString() }, []item{
		{0, "0", "No "},
		{1, "1", "Light"},
		{2, "2", "Medium 1"},
		{3, "3", "Medium 2"},
		{4, "4", "vortex"},
		{5, "5", "Heavy"},
		{6, "6", "High performance"},
		{7, "7", "Rotorcraft"},
	})
	enum("AircraftCategorySetB", true, func(v uint64) string { return bds08f.AircraftCategorySetB(v).ToString() }, []item{
		{0, "0", "No "},
		{1, "1", "Glider"},
		{2, "2", "Lighter-than-air"},
		{3, "3", "Parachutist"},
		{4, "4", "Ultralight"},
		{5, "5", "eserved"},
		{6, "6", "Unmanned"},
		{7, "7", "Space"},
	})
	enum("AircraftCategorySetC", true, func(v uint64) string { return bds08f.AircraftCategorySetC(v).ToString() }, []item{
		{0, "0", "No "},
		{1, "1", "emergency"},
		{2, "2", "service"},
		{3, "3", "obstruction"},
		{4, "4", "eserved"},
		{5, "5", "eserved"},
		{6, "6", "eserved"},
		{7, "7", "eserved"},
	})
	enum("AircraftCategorySetD", true, func(v uint64) string { return bds08f.AircraftCategorySetD(v).ToString() }, []item{
		{0, "0", "eserved"},
		{1, "1", "eserved"},
		{2, "2", "eserved"},
		{3, "3", "eserved"},
		{4, "4", "eserved"},
		{5, "5", "eserved"},
		{6, "6", "eserved"},
		{7, "7", "eserved"},
	})
}

// HBds09 decides the enumerations of bds/bds09/fields.
func HBds09() {
	enum("DirectionEastWest", true, func(v uint64) string { return bds09f.DirectionEastWest(v).ToString() }, []item{
		{0, "0", "East"},
		{1, "1", "West"},
	})
	enum("DirectionNorthSouth", true, func(v uint64) string { return bds09f.DirectionNorthSouth(v).ToString() }, []item{
		{0, "0", "north"},
		{1, "1", "south"},
	})
	enum("IFRCapability", true, func(v uint64) string { return bds09f.IFRCapability(v).ToString() }, []item{
		{0, "0", "no capability"},
		{1, "1", "has capability"},
	})
	enum("IntentChange", true, func(v uint64) string { return bds09f.IntentChange(v).ToString() }, []item{
		{0, "0", "no change"},
		{1, "1", "intent change"},
	})
	enum("MagneticHeadingStatus", true, func(v uint64) string { return bds09f.MagneticHeadingStatus(v).ToString() }, []item{
		{0, "0", "not available"},
		{1, "1", "!not "},
	})
	enum("NavigationUncertaintyCategory", true, func(v uint64) string { return bds09f.NavigationUncertaintyCategory(v).ToString() }, []item{
		{0, "0", "nknown"},
		{1, "1", "10 m/s|15.2 m/s"},
		{2, "2", " 3 m/s|4.6 m/s"},
		{3, "3", "< 1 m/s|1.5 m/s"},
		{4, "4", "0.3 m/s|0.46 m/s"},
	})
	enum("NumericValueStatus", false, func(v uint64) string { return bds09f.NumericValueStatus(v).ToString() }, []item{
		{0, "0", "No information"},
		{1, "1", "Regular"},
		{2, "2", "Maximum"},
	})
	enum("Subtype", true, func(v uint64) string { return bds09f.Subtype(v).ToString() }, []item{
		{1, "1", "GroundSpeed|Normal"},
		{2, "2", "GroundSpeed|Supersonic"},
		{3, "3", "Airspeed|Normal"},
		{4, "4", "Airspeed|Supersonic"},
	})
	enum("VerticalRateSource", true, func(v uint64) string { return bds09f.VerticalRateSource(v).ToString() }, []item{
		{0, "0", "GNSS"},
		{1, "1", "Baro"},
	})
}

// HBds10 decides the enumerations of bds/bds10/fields.
func HBds10() {
	enum("ACASApplicableDocument", false, func(v uint64) string { return bds10f.ACASApplicableDocument(v).ToString() }, []item{
		{0, "0", "DO-185|!DO-185A|!DO-185B"},
		{1, "1", "DO-185B"},
		{2, "2", "DO-185A"},
	})
	enum("ACASGenerationCapability", true, func(v uint64) string { return bds10f.ACASGenerationCapability(v).ToString() }, []item{
		{0, "0", "TAs only"},
		{1, "1", "both"},
	})
	enum("ACASHybridSurveillanceCapability", true, func(v uint64) string { return bds10f.ACASHybridSurveillanceCapability(v).ToString() }, []item{
		{0, "0", "No "},
		{1, "1", "Capability|!No "},
	})
	enum("ACASStatus", true, func(v uint64) string { return bds10f.ACASStatus(v).ToString() }, []item{
		{0, "0", "Failed"},
		{1, "1", "Operational"},
	})
	enum("AircraftIdentificationCapability", true, func(v uint64) string { return bds10f.AircraftIdentificationCapability(v).ToString() }, []item{
		{0, "0", "ADLP"},
		{1, "1", "separate"},
	})
	enum("CommonUsageGICBCapability", true, func(v uint64) string { return bds10f.CommonUsageGICBCapability(v).ToString() }, []item{
		{0, "0", "unchange"},
		{1, "1", "!unchange"},
	})
	enum("ContinuationFlag", true, func(v uint64) string { return bds10f.ContinuationFlag(v).ToString() }, []item{
		{0, "0", "last"},
		{1, "1", "subsequent"},
	})
	enum("DownlinkELMThroughputCapability", true, func(v uint64) string { return bds10f.DownlinkELMThroughputCapability(v).ToString() }, []item{
		{0, "0", "No "},
		{1, "1", "One 4 |every second"},
		{2, "2", "One 8 |every second"},
		{3, "3", "16 segments|every second"},
		{4, "4", "16 segments|500 ms"},
		{5, "5", "16 segments|250 ms"},
		{6, "6", "16 segments|125 ms"},
	})
	enum("ModeSSpecificServicesCapability", true, func(v uint64) string { return bds10f.ModeSSpecificServicesCapability(v).ToString() }, []item{
		{0, "0", "no "},
		{1, "1", "at least one"},
	})
	enum("ModeSSubnetworkVersion", true, func(v uint64) string { return bds10f.ModeSSubnetworkVersion(v).ToString() }, []item{
		{0, "0", "not available"},
		{1, "1", "Version 1"},
		{2, "2", "Version 2"},
		{3, "3", "Version 3"},
		{4, "4", "Version 4"},
		{5, "5", "Version 5"},
	})
	enum("OverlayCommandCapability", true, func(v uint64) string { return bds10f.OverlayCommandCapability(v).ToString() }, []item{
		{0, "0", "No "},
		{1, "1", "!No "},
	})
	enum("SquitterCapabilitySubfield", true, func(v uint64) string { return bds10f.SquitterCapabilitySubfield(v).ToString() }, []item{
		{0, "0", "not been updated"},
		{1, "1", "have been updated"},
	})
	enum("SurveillanceIdentifierCode", true, func(v uint64) string { return bds10f.SurveillanceIdentifierCode(v).ToString() }, []item{
		{0, "0", "No "},
		{1, "1", "!No "},
	})
	enum("TransponderEnhancedProtocolIndicator", true, func(v uint64) string { return bds10f.TransponderEnhancedProtocolIndicator(v).ToString() }, []item{
		{0, "0", "Level 2 to 4"},
		{1, "1", "Level 5"},
	})
	enum("UplinkELMThroughputCapability", true, func(v uint64) string { return bds10f.UplinkELMThroughputCapability(v).ToString() }, []item{
		{0, "0", "No "},
		{1, "1", "16 UELM|1 second"},
		{2, "2", "16 UELM|500 milli"},
		{3, "3", "16 UELM|250 milli"},
		{4, "4", "16 UELM|125 milli"},
		{5, "5", "16 UELM|60 milli"},
		{6, "6", "16 UELM|30 milli"},
	})
}

// HBds40 decides the enumerations of bds/bds40/fields.
func HBds40() {
	enum("StatusOfModeBits", true, func(v uint64) string { return bds40f.StatusOfModeBits(v).ToString() }, []item{
		{0, "0", "No "},
		{1, "1", "!No "},
	})
	enum("StatusOfTargetAltitudeSource", true, func(v uint64) string { return bds40f.StatusOfTargetAltitudeSource(v).ToString() }, []item{
		{0, "0", "No "},
		{1, "1", "!No "},
	})
	enum("TargetAltitudeSource", true, func(v uint64) string { return bds40f.TargetAltitudeSource(v).ToString() }, []item{
		{0, "0", "Unknown"},
		{1, "1", "Aircraft"},
		{2, "2", "FCU/MCP"},
		{3, "3", "FMS"},
	})
}

// HBds44 decides the enumerations of bds/bds44/fields.
func HBds44() {
	enum("Source", true, func(v uint64) string { return bds44f.Source(v).ToString() }, []item{
		{0, "0", "Invalid"},
		{1, "1", "INS"},
		{2, "2", "GNSS"},
		{3, "3", "DME/DME"},
		{4, "4", "VOR/D"},
	})
	enum("TurbulenceFlag", true, func(v uint64) string { return bds44f.TurbulenceFlag(v).ToString() }, []item{
		{0, "0", "not available"},
		{1, "1", "!not "},
	})
	enum("TurbulenceLevel", true, func(v uint64) string { return bds44f.TurbulenceLevel(v).ToString() }, []item{
		{0, "0", "Nil"},
		{1, "1", "Light"},
		{2, "2", "Moderate"},
		{3, "3", "Severe"},
	})
}

// HBds45 decides the enumerations of bds/bds45/fields.
func HBds45() {
	enum("HazardLevel", true, func(v uint64) string { return bds45f.HazardLevel(v).ToString() }, []item{
		{0, "0", "Nil"},
		{1, "1", "Light"},
		{2, "2", "Moderate"},
		{3, "3", "Severe"},
	})
}

// HBds61 decides the enumerations of bds/bds61/fields.
func HBds61() {
	enum("EmergencyPriorityStatus", true, func(v uint64) string { return bds61f.EmergencyPriorityStatus(v).ToString() }, []item{
		{0, "0", "no emergency"},
		{1, "1", "general"},
		{2, "2", "medical"},
		{3, "3", "minimum fuel"},
		{4, "4", "no communication"},
		{5, "5", "unlawful"},
		{6, "6", "downed"},
		{7, "7", "eserved"},
	})
	enum("Subtype", true, func(v uint64) string { return bds61f.Subtype(v).ToString() }, []item{
		{0, "0", "no information"},
		{1, "1", "emergency"},
		{2, "2", "RA "},
		{3, "3", "eserved"},
		{4, "4", "eserved"},
		{5, "5", "eserved"},
		{6, "6", "eserved"},
		{7, "7", "eserved"},
	})
}

// HBds62 decides the enumerations of bds/bds62/fields.
func HBds62() {
	enum("CapabilityModeCode", true, func(v uint64) string { return bds62f.CapabilityModeCode(v).ToString() }, []item{
		{0, "0", "operational or unknown|No "},
		{1, "1", "operational or unknown|!No "},
		{2, "2", "not operational|No "},
		{3, "3", "not operational|!No "},
	})
	enum("EmergencyPriorityStatus", true, func(v uint64) string { return bds62f.EmergencyPriorityStatus(v).ToString() }, []item{
		{0, "0", "no emergency"},
		{1, "1", "general"},
		{2, "2", "medical"},
		{3, "3", "minimum fuel"},
		{4, "4", "no communication"},
		{5, "5", "unlawful"},
		{6, "6", "downed"},
		{7, "7", "eserved"},
	})
	enum("HorizontalDataAvailableSourceIndicator", true, func(v uint64) string { return bds62f.HorizontalDataAvailableSourceIndicator(v).ToString() }, []item{
		{0, "0", "no valid"},
		{1, "1", "autopilot control panel"},
		{2, "2", "maintaining current"},
		{3, "3", "FMS"},
	})
	enum("HorizontalModeIndicator", true, func(v uint64) string { return bds62f.HorizontalModeIndicator(v).ToString() }, []item{
		{0, "0", "nknown"},
		{1, "1", "Acquiring"},
		{2, "2", "Maintaining"},
		{3, "3", "eserved"},
	})
	enum("NICBaro", true, func(v uint64) string { return bds62f.NICBaro(v).ToString() }, []item{
		{0, "0", "not been cross"},
		{1, "1", "!not been cross"},
	})
	enum("NavigationalAccuracyCategoryPositionV1", true, func(v uint64) string { return bds62f.NavigationalAccuracyCategoryPositionV1(v).ToString() }, []item{
		{0, "0", "Unknown"},
		{1, "1", "RNP-10 "},
		{2, "2", "RNP-4 "},
		{3, "3", "RNP-2 "},
		{4, "4", "RNP-1 "},
		{5, "5", "RNP-0.5"},
		{6, "6", "RNP-0.3"},
		{7, "7", "RNP-0.1"},
		{8, "8", "92.6 m"},
		{9, "9", "30 m|45 m"},
		{10, "10", "10 m|15 m"},
		{11, "11", "3 m|4 m|!10"},
		{12, "12", "eserved"},
		{13, "13", "eserved"},
		{14, "14", "eserved"},
		{15, "15", "eserved"},
	})
	enum("NavigationalAccuracyCategoryPositionV2", true, func(v uint64) string { return bds62f.NavigationalAccuracyCategoryPositionV2(v).ToString() }, []item{
		{0, "0", "Unknown"},
		{1, "1", "RNP-10 "},
		{2, "2", "RNP-4 "},
		{3, "3", "RNP-2 "},
		{4, "4", "RNP-1 "},
		{5, "5", "RNP-0.5"},
		{6, "6", "RNP-0.3"},
		{7, "7", "RNP-0.1"},
		{8, "8", "92.6 m"},
		{9, "9", "30 m"},
		{10, "10", "10 m"},
		{11, "11", "3 m|!10"},
		{12, "12", "eserved"},
		{13, "13", "eserved"},
		{14, "14", "eserved"},
		{15, "15", "eserved"},
	})
	enum("NumericValueStatus", false, func(v uint64) string { return bds62f.NumericValueStatus(v).ToString() }, []item{
		{0, "0", "No information"},
		{1, "1", "Regular"},
		{2, "2", "Maximum"},
	})
	enum("SelectedAltitudeType", true, func(v uint64) string { return bds62f.SelectedAltitudeType(v).ToString() }, []item{
		{0, "0", "MCP/FCU"},
		{1, "1", "FMS"},
	})
	enum("SelectedHeadingStatus", true, func(v uint64) string { return bds62f.SelectedHeadingStatus(v).ToString() }, []item{
		{0, "0", "not available"},
		{1, "1", "is valid"},
	})
	enum("SourceIntegrityLevel", true, func(v uint64) string { return bds62f.SourceIntegrityLevel(v).ToString() }, []item{
		{0, "0", "nknown|10^-3"},
		{1, "1", "10^-3|!nknown"},
		{2, "2", "10^-5"},
		{3, "3", "10^-7"},
	})
	enum("SourceIntegrityLevelSupplement", true, func(v uint64) string { return bds62f.SourceIntegrityLevelSupplement(v).ToString() }, []item{
		{0, "0", "per hour"},
		{1, "1", "per sample"},
	})
	enum("StatusMCPFCUBits", true, func(v uint64) string { return bds62f.StatusMCPFCUBits(v).ToString() }, []item{
		{0, "0", "no "},
		{1, "1", "!no "},
	})
	enum("Subtype", true, func(v uint64) string { return bds62f.Subtype(v).ToString() }, []item{
		{0, "0", "Subtype 0"},
		{1, "1", "Subtype 1"},
		{2, "2", "eserved"},
		{3, "3", "eserved"},
	})
	enum("SurveillanceIntegrityLevel", false, func(v uint64) string { return bds62f.SurveillanceIntegrityLevel(v).ToString() }, []item{
		{0, "0", "nknown"},
		{1, "1", "10^-3"},
		{2, "2", "10^-5"},
		{3, "3", "10^-7"},
	})
	enum("TargetAltitudeCapability", true, func(v uint64) string { return bds62f.TargetAltitudeCapability(v).ToString() }, []item{
		{0, "0", "holding altitude only"},
		{1, "1", "autopilot|!FMS"},
		{2, "2", "autopilot|FMS"},
		{3, "3", "eserved"},
	})
	enum("TargetAltitudeType", true, func(v uint64) string { return bds62f.TargetAltitudeType(v).ToString() }, []item{
		{0, "0", "pressure"},
		{1, "1", "sea level"},
	})
	enum("TargetHeadingTrackIndicator", true, func(v uint64) string { return bds62f.TargetHeadingTrackIndicator(v).ToString() }, []item{
		{0, "0", "heading"},
		{1, "1", "track"},
	})
	enum("VerticalDataAvailableSourceIndicator", true, func(v uint64) string { return bds62f.VerticalDataAvailableSourceIndicator(v).ToString() }, []item{
		{0, "0", "no valid"},
		{1, "1", "autopilot control panel"},
		{2, "2", "holding altitude"},
		{3, "3", "FMS"},
	})
	enum("VerticalModeIndicator", true, func(v uint64) string { return bds62f.VerticalModeIndicator(v).ToString() }, []item{
		{0, "0", "nknown"},
		{1, "1", "Acquiring"},
		{2, "2", "Maintaining"},
		{3, "3", "eserved"},
	})
}

// HBds65 decides the enumerations of bds/bds65/fields.
func HBds65() {
	enum("ACASOperational", true, func(v uint64) string { return bds65f.ACASOperational(v).ToString() }, []item{
		{0, "0", "NOT"},
		{1, "1", "!NOT"},
	})
	enum("ACASResolutionAdvisoryActiveV1", true, func(v uint64) string { return bds65f.ACASResolutionAdvisoryActiveV1(v).ToString() }, []item{
		{0, "0", "not active"},
		{1, "1", "!not "},
	})
	enum("ACASResolutionAdvisoryActiveV2", true, func(v uint64) string { return bds65f.ACASResolutionAdvisoryActiveV2(v).ToString() }, []item{
		{0, "0", "not active"},
		{1, "1", "!not "},
	})
	enum("AirReferencedVelocityReportCapability", true, func(v uint64) string { return bds65f.AirReferencedVelocityReportCapability(v).ToString() }, []item{
		{0, "0", "No "},
		{1, "1", "!No "},
	})
	enum("ApproachLandingOperationalCapabilities", true, func(v uint64) string { return bds65f.ApproachLandingOperationalCapabilities(v).ToString() }, []item{
		{0, "0", "eserved"},
		{1, "1", "eserved"},
		{2, "2", "eserved"},
		{3, "3", "eserved"},
		{4, "4", "eserved"},
		{5, "5", "eserved"},
		{6, "6", "eserved"},
		{7, "7", "eserved"},
		{8, "8", "eserved"},
		{9, "9", "eserved"},
		{10, "10", "eserved"},
		{11, "11", "eserved"},
		{12, "12", "eserved"},
		{13, "13", "eserved"},
		{14, "14", "eserved"},
		{15, "15", "eserved"},
	})
	enum("ApproachLandingOperationalCapabilityStatus", true, func(v uint64) string { return bds65f.ApproachLandingOperationalCapabilityStatus(v).ToString() }, []item{
		{0, "0", "eserved"},
		{1, "1", "eserved"},
		{2, "2", "eserved"},
		{3, "3", "eserved"},
		{4, "4", "eserved"},
		{5, "5", "eserved"},
		{6, "6", "eserved"},
		{7, "7", "eserved"},
		{8, "8", "eserved"},
		{9, "9", "eserved"},
		{10, "10", "eserved"},
		{11, "11", "eserved"},
		{12, "12", "eserved"},
		{13, "13", "eserved"},
		{14, "14", "eserved"},
		{15, "15", "eserved"},
	})
	enum("B2Low", true, func(v uint64) string { return bds65f.B2Low(v).ToString() }, []item{
		{0, "0", "Greater"},
		{1, "1", "Less than"},
	})
	enum("CockpitDisplayOfTrafficInformationStatus", true, func(v uint64) string { return bds65f.CockpitDisplayOfTrafficInformationStatus(v).ToString() }, []item{
		{0, "0", "not "},
		{1, "1", "!not "},
	})
	enum("EnRouteOperationalCapabilities", true, func(v uint64) string { return bds65f.EnRouteOperationalCapabilities(v).ToString() }, []item{
		{0, "0", "eserved"},
		{1, "1", "eserved"},
		{2, "2", "eserved"},
		{3, "3", "eserved"},
		{4, "4", "eserved"},
		{5, "5", "eserved"},
		{6, "6", "eserved"},
		{7, "7", "eserved"},
		{8, "8", "eserved"},
		{9, "9", "eserved"},
		{10, "10", "eserved"},
		{11, "11", "eserved"},
		{12, "12", "eserved"},
		{13, "13", "eserved"},
		{14, "14", "eserved"},
		{15, "15", "eserved"},
	})
	enum("EnRouteOperationalCapabilityStatus", true, func(v uint64) string { return bds65f.EnRouteOperationalCapabilityStatus(v).ToString() }, []item{
		{0, "0", "eserved"},
		{1, "1", "eserved"},
		{2, "2", "eserved"},
		{3, "3", "eserved"},
		{4, "4", "eserved"},
		{5, "5", "eserved"},
		{6, "6", "eserved"},
		{7, "7", "eserved"},
		{8, "8", "eserved"},
		{9, "9", "eserved"},
		{10, "10", "eserved"},
		{11, "11", "eserved"},
		{12, "12", "eserved"},
		{13, "13", "eserved"},
		{14, "14", "eserved"},
		{15, "15", "eserved"},
	})
	enum("ExtendedSquitterIn", true, func(v uint64) string { return bds65f.ExtendedSquitterIn(v).ToString() }, []item{
		{0, "0", "NO "},
		{1, "1", "!NO "},
	})
	enum("GPSAntennaLateral", true, func(v uint64) string { return bds65f.GPSAntennaLateral(v).ToString() }, []item{
		{0, "0", "no data"},
		{1, "1", "left|2 m"},
		{2, "2", "left|4 m"},
		{3, "3", "left|6 m"},
		{4, "4", "right|0 m"},
		{5, "5", "right|2 m"},
		{6, "6", "right|4 m"},
		{7, "7", "right|6 m"},
	})
	enum("GPSAntennaLongitudinal", true, func(v uint64) string { return bds65f.GPSAntennaLongitudinal(v).ToString() }, []item{
		{0, "0", "no data"},
		{1, "1", "compensated"},
		{2, "2", " - 2"},
		{3, "3", " - 4"},
		{4, "4", " - 6"},
		{5, "5", " - 8"},
		{6, "6", " - 10"},
		{7, "7", " - 12"},
		{8, "8", " - 14"},
		{9, "9", " - 16"},
		{10, "10", " - 18"},
		{11, "11", " - 20"},
		{12, "12", " - 22"},
		{13, "13", " - 24"},
		{14, "14", " - 26"},
		{15, "15", " - 28"},
		{16, "16", " - 30"},
		{17, "17", " - 32"},
		{18, "18", " - 34"},
		{19, "19", " - 36"},
		{20, "20", " - 38"},
		{21, "21", " - 40"},
		{22, "22", " - 42"},
		{23, "23", " - 44"},
		{24, "24", " - 46"},
		{25, "25", " - 48"},
		{26, "26", " - 50"},
		{27, "27", " - 52"},
		{28, "28", " - 54"},
		{29, "29", " - 56"},
		{30, "30", " - 58"},
		{31, "31", " - 60"},
	})
	enum("GeometricVerticalAccuracy", true, func(v uint64) string { return bds65f.GeometricVerticalAccuracy(v).ToString() }, []item{
		{0, "0", "nknown"},
		{1, "1", "<= 150"},
		{2, "2", "<= 45"},
		{3, "3", "eserved"},
	})
	enum("HorizontalReferenceDirection", true, func(v uint64) string { return bds65f.HorizontalReferenceDirection(v).ToString() }, []item{
		{0, "0", "true"},
		{1, "1", "magnetic"},
	})
	enum("IdentSwitchActive", true, func(v uint64) string { return bds65f.IdentSwitchActive(v).ToString() }, []item{
		{0, "0", "not active"},
		{1, "1", "!not "},
	})
	enum("LengthWidth", true, func(v uint64) string { return bds65f.LengthWidth(v).ToString() }, []item{
		{0, "0", "15 m|11.5 m"},
		{1, "1", "15 m|23 m"},
		{2, "2", "25 m|28.5 m"},
		{3, "3", "25 m|34 m"},
		{4, "4", "35 m|33 m"},
		{5, "5", "35 m|38 m"},
		{6, "6", "45 m|39.5 m"},
		{7, "7", "45 m|45 m"},
		{8, "8", "55 m|45 m"},
		{9, "9", "55 m|52 m"},
		{10, "10", "65 m|59.5 m"},
		{11, "11", "65 m|67 m"},
		{12, "12", "75 m|72.5 m"},
		{13, "13", "75 m|80 m"},
		{14, "14", "85 m|80 m"},
		{15, "15", "85 m|90 m"},
	})
	enum("NICBaro", true, func(v uint64) string { return bds65f.NICBaro(v).ToString() }, []item{
		{0, "0", "not been cross"},
		{1, "1", "!not been cross"},
	})
	enum("NICSupplementA", true, func(v uint64) string { return bds65f.NICSupplementA(v).ToString() }, []item{
		{0, "0", ""},
		{1, "1", ""},
	})
	enum("NICSupplementC", true, func(v uint64) string { return bds65f.NICSupplementC(v).ToString() }, []item{
		{0, "0", ""},
		{1, "1", ""},
	})
	enum("NavigationAccuracyCategoryVelocity", true, func(v uint64) string { return bds65f.NavigationAccuracyCategoryVelocity(v).ToString() }, []item{
		{0, "0", ""},
		{1, "1", ""},
		{2, "2", ""},
		{3, "3", ""},
		{4, "4", ""},
		{5, "5", ""},
		{6, "6", ""},
		{7, "7", ""},
	})
	enum("NavigationalAccuracyCategoryPositionV1", true, func(v uint64) string { return bds65f.NavigationalAccuracyCategoryPositionV1(v).ToString() }, []item{
		{0, "0", "Unknown"},
		{1, "1", "RNP-10 "},
		{2, "2", "RNP-4 "},
		{3, "3", "RNP-2 "},
		{4, "4", "RNP-1 "},
		{5, "5", "RNP-0.5"},
		{6, "6", "RNP-0.3"},
		{7, "7", "RNP-0.1"},
		{8, "8", "92.6 m"},
		{9, "9", "30 m|45 m"},
		{10, "10", "10 m|15 m"},
		{11, "11", "3 m|4 m|!10"},
		{12, "12", "eserved"},
		{13, "13", "eserved"},
		{14, "14", "eserved"},
		{15, "15", "eserved"},
	})
	enum("NavigationalAccuracyCategoryPositionV2", true, func(v uint64) string { return bds65f.NavigationalAccuracyCategoryPositionV2(v).ToString() }, []item{
		{0, "0", "Unknown"},
		{1, "1", "RNP-10 "},
		{2, "2", "RNP-4 "},
		{3, "3", "RNP-2 "},
		{4, "4", "RNP-1 "},
		{5, "5", "RNP-0.5"},
		{6, "6", "RNP-0.3"},
		{7, "7", "RNP-0.1"},
		{8, "8", "92.6 m"},
		{9, "9", "30 m"},
		{10, "10", "10 m"},
		{11, "11", "3 m|!10"},
		{12, "12", "eserved"},
		{13, "13", "eserved"},
		{14, "14", "eserved"},
		{15, "15", "eserved"},
	})
	enum("NotACASStatus", true, func(v uint64) string { return bds65f.NotACASStatus(v).ToString() }, []item{
		{0, "0", "unknown"},
		{1, "1", "not operational"},
	})
	enum("PositionOffsetApplied", true, func(v uint64) string { return bds65f.PositionOffsetApplied(v).ToString() }, []item{
		{0, "0", "is not"},
		{1, "1", "!not "},
	})
	enum("ReceivingATCServices", true, func(v uint64) string { return bds65f.ReceivingATCServices(v).ToString() }, []item{
		{0, "0", "not "},
		{1, "1", "!not "},
	})
	enum("SingleAntennaFlag", true, func(v uint64) string { return bds65f.SingleAntennaFlag(v).ToString() }, []item{
		{0, "0", "two"},
		{1, "1", "one"},
	})
	enum("SourceIntegrityLevel", true, func(v uint64) string { return bds65f.SourceIntegrityLevel(v).ToString() }, []item{
		{0, "0", "nknown|10^-3"},
		{1, "1", "10^-3|!nknown"},
		{2, "2", "10^-5"},
		{3, "3", "10^-7"},
	})
	enum("SourceIntegrityLevelSupplement", true, func(v uint64) string { return bds65f.SourceIntegrityLevelSupplement(v).ToString() }, []item{
		{0, "0", "per hour"},
		{1, "1", "per sample"},
	})
	enum("Subtype", true, func(v uint64) string { return bds65f.Subtype(v).ToString() }, []item{
		{0, "0", "Airborne"},
		{1, "1", "Surface"},
	})
	enum("SurfaceOperationalCapabilities", true, func(v uint64) string { return bds65f.SurfaceOperationalCapabilities(v).ToString() }, []item{
		{0, "0", "eserved"},
		{1, "1", "eserved"},
		{2, "2", "eserved"},
		{3, "3", "eserved"},
		{4, "4", "eserved"},
		{5, "5", "eserved"},
		{6, "6", "eserved"},
		{7, "7", "eserved"},
		{8, "8", "eserved"},
		{9, "9", "eserved"},
		{10, "10", "eserved"},
		{11, "11", "eserved"},
		{12, "12", "eserved"},
		{13, "13", "eserved"},
		{14, "14", "eserved"},
		{15, "15", "eserved"},
	})
	enum("SurfaceOperationalCapabilityStatus", true, func(v uint64) string { return bds65f.SurfaceOperationalCapabilityStatus(v).ToString() }, []item{
		{0, "0", "eserved"},
		{1, "1", "eserved"},
		{2, "2", "eserved"},
		{3, "3", "eserved"},
		{4, "4", "eserved"},
		{5, "5", "eserved"},
		{6, "6", "eserved"},
		{7, "7", "eserved"},
		{8, "8", "eserved"},
		{9, "9", "eserved"},
		{10, "10", "eserved"},
		{11, "11", "eserved"},
		{12, "12", "eserved"},
		{13, "13", "eserved"},
		{14, "14", "eserved"},
		{15, "15", "eserved"},
	})
	enum("SurveillanceIntegrityLevel", false, func(v uint64) string { return bds65f.SurveillanceIntegrityLevel(v).ToString() }, []item{
		{0, "0", "nknown"},
		{1, "1", "10^-3"},
		{2, "2", "10^-5"},
		{3, "3", "10^-7"},
	})
	enum("SystemDesignAssurance", true, func(v uint64) string { return bds65f.SystemDesignAssurance(v).ToString() }, []item{
		{0, "0", "Not Applicable"},
		{1, "1", "Level D"},
		{2, "2", "Level C"},
		{3, "3", "Level B"},
	})
	enum("TargetChangeReportCapability", true, func(v uint64) string { return bds65f.TargetChangeReportCapability(v).ToString() }, []item{
		{0, "0", "No "},
		{1, "1", "TC+0"},
		{2, "2", "multiple"},
		{3, "3", "eserved"},
	})
	enum("TargetStateReportCapability", true, func(v uint64) string { return bds65f.TargetStateReportCapability(v).ToString() }, []item{
		{0, "0", "No "},
		{1, "1", "!No "},
	})
	enum("TerminalAreaOperationalCapabilities", true, func(v uint64) string { return bds65f.TerminalAreaOperationalCapabilities(v).ToString() }, []item{
		{0, "0", "eserved"},
		{1, "1", "eserved"},
		{2, "2", "eserved"},
		{3, "3", "eserved"},
		{4, "4", "eserved"},
		{5, "5", "eserved"},
		{6, "6", "eserved"},
		{7, "7", "eserved"},
		{8, "8", "eserved"},
		{9, "9", "eserved"},
		{10, "10", "eserved"},
		{11, "11", "eserved"},
		{12, "12", "eserved"},
		{13, "13", "eserved"},
		{14, "14", "eserved"},
		{15, "15", "eserved"},
	})
	enum("TerminalAreaOperationalCapabilityStatus", true, func(v uint64) string { return bds65f.TerminalAreaOperationalCapabilityStatus(v).ToString() }, []item{
		{0, "0", "eserved"},
		{1, "1", "eserved"},
		{2, "2", "eserved"},
		{3, "3", "eserved"},
		{4, "4", "eserved"},
		{5, "5", "eserved"},
		{6, "6", "eserved"},
		{7, "7", "eserved"},
		{8, "8", "eserved"},
		{9, "9", "eserved"},
		{10, "10", "eserved"},
		{11, "11", "eserved"},
		{12, "12", "eserved"},
		{13, "13", "eserved"},
		{14, "14", "eserved"},
		{15, "15", "eserved"},
	})
	enum("TrackAngleHeading", true, func(v uint64) string { return bds65f.TrackAngleHeading(v).ToString() }, []item{
		{0, "0", "heading"},
		{1, "1", "Track"},
	})
	enum("UniversalAccessTransceiverCapability", true, func(v uint64) string { return bds65f.UniversalAccessTransceiverCapability(v).ToString() }, []item{
		{0, "0", "No "},
		{1, "1", "!No "},
	})
	enum("VersionNumber", true, func(v uint64) string { return bds65f.VersionNumber(v).ToString() }, []item{
		{0, "0", "V0"},
		{1, "1", "V1"},
		{2, "2", "V2"},
		{3, "3", ""},
		{4, "4", ""},
		{5, "5", ""},
		{6, "6", ""},
		{7, "7", ""},
	})
}

// HModes decides the enumerations of modes/fields.
func HModes() {
	enum("AltitudeReportMethod", true, func(v uint64) string { return modesf.AltitudeReportMethod(v).ToString() }, []item{
		{1, "1", "Not Available"},
		{2, "2", "Metric"},
		{3, "3", "100 F"},
		{4, "4", "25 F"},
	})
	enum("ApplicationField", true, func(v uint64) string { return modesf.ApplicationField(v).ToString() }, []item{
		{0, "0", "eserved"},
		{1, "1", "eserved"},
		{2, "2", "eserved"},
		{3, "3", "eserved"},
		{4, "4", "eserved"},
		{5, "5", "eserved"},
		{6, "6", "eserved"},
		{7, "7", "eserved"},
	})
	enum("Capability", true, func(v uint64) string { return modesf.Capability(v).ToString() }, []item{
		{0, "0", "Level 1"},
		{1, "1", "eserved"},
		{2, "2", "eserved"},
		{3, "3", "eserved"},
		{4, "4", "On The Ground|!Airborne"},
		{5, "5", "Airborne|!Ground"},
		{6, "6", "On The Ground|Airborne"},
		{7, "7", "downlink request"},
	})
	enum("ControlELM", true, func(v uint64) string { return modesf.ControlELM(v).ToString() }, []item{
		{0, "0", "Downlink"},
		{1, "1", "Uplink"},
	})
	enum("ControlField", true, func(v uint64) string { return modesf.ControlField(v).ToString() }, []item{
		{0, "0", "24-bit address"},
		{1, "1", "eserved|other addressing"},
		{2, "2", "TISB|Fine"},
		{3, "3", "TISB|Coarse"},
		{4, "4", "TISB|Management"},
		{5, "5", "TISB|Relay"},
		{6, "6", "Rebroadcast"},
		{7, "7", "eserved|!TISB|!addressing"},
	})
	enum("CrossLinkCompatibility", true, func(v uint64) string { return modesf.CrossLinkCompatibility(v).ToString() }, []item{
		{0, "0", "Not "},
		{1, "1", "!Not "},
	})
	enum("DownlinkRequest", true, func(v uint64) string { return modesf.DownlinkRequest(v).ToString() }, []item{
		{0, "0", "No "},
		{1, "1", "Comm-B|!ACAS"},
		{2, "2", "ACAS|!Comm-B"},
		{3, "3", "Comm-B|ACAS"},
		{4, "4", "Comm-B|1|!ACAS"},
		{5, "5", "Comm-B|2|!ACAS"},
		{6, "6", "Comm-B|1|ACAS"},
		{7, "7", "Comm-B|2|ACAS"},
		{8, "8", "Not Assigned"},
		{9, "9", "Not Assigned"},
		{10, "10", "Not Assigned"},
		{11, "11", "Not Assigned"},
		{12, "12", "Not Assigned"},
		{13, "13", "Not Assigned"},
		{14, "14", "Not Assigned"},
		{15, "15", "Not Assigned"},
		{16, "16", "ELM|1 Segment"},
		{17, "17", "ELM|2 Segment"},
		{18, "18", "ELM|3 Segment"},
		{19, "19", "ELM|4 Segment"},
		{20, "20", "ELM|5 Segment"},
		{21, "21", "ELM|6 Segment"},
		{22, "22", "ELM|7 Segment"},
		{23, "23", "ELM|8 Segment"},
		{24, "24", "ELM|9 Segment"},
		{25, "25", "ELM|10 Segment"},
		{26, "26", "ELM|11 Segment"},
		{27, "27", "ELM|12 Segment"},
		{28, "28", "ELM|13 Segment"},
		{29, "29", "ELM|14 Segment"},
		{30, "30", "ELM|15 Segment"},
		{31, "31", "ELM|16 Segment"},
	})
	enum("FlightStatus", true, func(v uint64) string { return modesf.FlightStatus(v).ToString() }, []item{
		{0, "0", "No Alert|No SPI|Airborne"},
		{1, "1", "No Alert|No SPI|Ground"},
		{2, "2", "Alert|No SPI|Airborne|!No Alert"},
		{3, "3", "Alert|No SPI|Ground|!No Alert"},
		{4, "4", "Alert|SPI|!No "},
		{5, "5", "Alert|SPI|!No "},
		{6, "6", "eserved"},
		{7, "7", "7"},
	})
	enum("NumberOfDSegment", true, func(v uint64) string { return modesf.NumberOfDSegment(v).ToString() }, []item{
		{0, "0", ""},
		{1, "1", ""},
		{2, "2", ""},
		{3, "3", ""},
		{4, "4", ""},
		{5, "5", ""},
		{6, "6", ""},
		{7, "7", ""},
		{8, "8", ""},
		{9, "9", ""},
		{10, "10", ""},
		{11, "11", ""},
		{12, "12", ""},
		{13, "13", ""},
		{14, "14", ""},
		{15, "15", ""},
	})
	enum("ReplyInformationAirAir", true, func(v uint64) string { return modesf.ReplyInformationAirAir(v).ToString() }, []item{
		{0, "0", "No Operating"},
		{1, "1", "eserved"},
		{2, "2", "inhibited"},
		{3, "3", "vertical-only"},
		{4, "4", "vertical and horizontal"},
		{5, "5", "eserved"},
		{6, "6", "eserved"},
		{7, "7", "eserved"},
		{8, "8", "Not Available"},
		{9, "9", "(75 kt)"},
		{10, "10", "75 and 150"},
		{11, "11", "150 and 300"},
		{12, "12", "300 and 600"},
		{13, "13", "600 and 1 200"},
		{14, "14", "Over|1 200"},
		{15, "15", "Not Assigned"},
	})
	enum("SensitivityLevelReport", true, func(v uint64) string { return modesf.SensitivityLevelReport(v).ToString() }, []item{
		{0, "0", "noperative"},
		{1, "1", "Level 1"},
		{2, "2", "Level 2"},
		{3, "3", "Level 3"},
		{4, "4", "Level 4"},
		{5, "5", "Level 5"},
		{6, "6", "Level 6"},
		{7, "7", "Level 7"},
	})
	enum("UtilityMessageIdentifierDesignator", true, func(v uint64) string { return modesf.UtilityMessageIdentifierDesignator(v).ToString() }, []item{
		{0, "0", "No "},
		{1, "1", "Comm-B"},
		{2, "2", "Comm-C"},
		{3, "3", "Comm-D"},
	})
	enum("VerticalStatus", true, func(v uint64) string { return modesf.VerticalStatus(v).ToString() }, []item{
		{0, "0", "Airborne"},
		{1, "1", "Ground"},
	})
}
