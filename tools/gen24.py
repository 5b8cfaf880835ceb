#!/usr/bin/env python3
"""Writes harness/c24/c24.go from the table of enumerations and the words that name their values."""
# package: {type: (coded, first value, [words per value])}; words: all of a|b, none of !c.
RES = "eserved"
def n(lo, hi, f): return [f(i) for i in range(lo, hi + 1)]
NACP1 = ["Unknown", "RNP-10 ", "RNP-4 ", "RNP-2 ", "RNP-1 ", "RNP-0.5", "RNP-0.3", "RNP-0.1", "92.6 m", "30 m|45 m", "10 m|15 m", "3 m|4 m|!10", RES, RES, RES, RES]
NACP2 = ["Unknown", "RNP-10 ", "RNP-4 ", "RNP-2 ", "RNP-1 ", "RNP-0.5", "RNP-0.3", "RNP-0.1", "92.6 m", "30 m", "10 m", "3 m|!10", RES, RES, RES, RES]
SIL = ["nknown|10^-3", "10^-3|!nknown", "10^-5", "10^-7"]
SURV = ["nknown", "10^-3", "10^-5", "10^-7"]
EMER = ["no emergency", "general", "medical", "minimum fuel", "no communication", "unlawful", "downed", RES]
MODE = ["nknown", "Acquiring", "Maintaining", RES]
NUM = ["No information", "Regular", "Maximum"]
CAP16 = [RES] * 16
NICB = ["not been cross", "!not been cross"]
T = {
"acas/ra/fields": dict(
  ActiveRAPreventiveCorrective=(0, 0, ["reventive", "orrective"]),
  ActiveRASense=(0, 0, ["pward", "ownward"]),
  ActiveRAVerticalSpeedLimitOrPositive=(0, 0, ["imit", "ositive"]),
  MultipleThreatEncounter=(0, 0, ["One or no", "Two or more"]),
  RATerminatedIndicator=(0, 0, ["currently", "terminated"]),
  AltitudeStatus=(0, 0, ["Not Available", "Valid|!Not"]),
  ThreatIdentityBearing=(1, 0, ["No bearing"] + [" between %d and %d|!and %d0" % (6 * i - 6, 6 * i, 6 * i) for i in range(1, 61)] + ["Not assigned"] * 3),
  ThreatIdentityRange=(1, 0, ["No range", "Less than 0.05"] + ["+/- 0.05 NM"] * 125 + ["Greater than 12.55"]),
  ThreatTypeIndicator=(1, 0, ["No identity", "transponder address", "altitude|range|bearing", "Not assigned"])),
"adsb/airborne_position/fields": dict(
  ContainmentRadius=(0, 9, ["Baro|3m", "Baro|3 m|10 m", "Baro|10 m|92.6 m", "Baro|92.6 m|185.2 m", "Baro|185.2 m|463 m", "Baro|463 m|926 m", "Baro|926 m|1852 m", "Baro|1.852 km|9.26 km", "Baro|9.26 km|18.52 km", "Baro|18.52 km|!9.26", None, "GNSS|3 m|4 m", "GNSS|< 10 m|15 m", "GNSS|> 10 m|15 m"]),
  HorizontalContainmentRadiusV1=(0, {0: "GNSS|< 7.5 m|11 m", 1: "GNSS|< 25 m|37.5 m", 2: "GNSS|>= 25 m|unknown", 9: "Baro|< 7.5 m|11 m", 10: "Baro|< 25 m|37.5 m", 11: "Baro|0.1 NM", 12: "Baro|0.2 NM", 13: "Baro|0.5 NM", 14: "Baro|1.0 NM", 15: "Baro|< 2 NM", 16: "Baro|< 8 NM", 17: "Baro|< 20 NM", 18: "Baro|>= 20 NM|unknown", 111: "Baro|< 75 m|112 m", 113: "Baro|0.6 NM", 116: "Baro|< 4 NM"}),
  HorizontalContainmentRadiusV2=(0, {9: "Baro|< 7.5 m", 10: "Baro|< 25 m", 11: "Baro|0.1 NM", 12: "Baro|0.2 NM", 13: "Baro|0.5 NM", 14: "Baro|1.0 NM", 15: "Baro|< 2 NM", 16: "Baro|< 8 NM", 17: "Baro|< 20 NM", 18: "Baro|>= 20 NM|unknown", 20: "GNSS|< 7.5 m", 21: "GNSS|< 25 m", 22: "GNSS|>= 25 m|unknown", 111: "Baro|< 75 m", 113: "Baro|0.6 NM", 116: "Baro|< 4 NM", 213: "Baro|0.3 NM"}),
  HorizontalProtectionLimit=(0, 9, ["Baro|7.5 m|!25", "Baro|7.5 m|25 m", "Baro|25 m|185.2 m", "Baro|185.2 m|370.4 m", "Baro|370.4 m|926 m", "Baro|926 m|1.0 NM", "Baro|1.0 NM|2.0 NM", "Baro|2.0 NM|10 NM", "Baro|10 NM|20 NM", "Baro|20 NM|!10 NM", None, "GNSS|< 7.5 m", "GNSS|< 25 m", "GNSS|25 m <="]),
  NavigationIntegrityCodeSupplementB=(1, 0, ["", ""])),
"adsb/surface_position/fields": dict(
  ContainmentRadius=(0, 5, ["< 3 m", "3 m|10 m", "10 m|92.6 m", "92.6 m|!10 m"]),
  HorizontalContainmentRadiusV1=(0, 0, ["7.5 m", "< 25 m", "75 m", "< 0.1 NM", ">= 0.1 NM"]),
  HorizontalContainmentRadiusV2=(0, 0, ["7.5 m", "< 25 m", "75 m", "0.1 NM", "0.2 NM", "0.3 NM", "< 0.6 NM", ">= 0.6 NM"]),
  HorizontalProtectionLimit=(0, 5, ["7.5 m", "< 25 m", "< 185.2 m", "185.2 m|!< 185"])),
"bds/bds05/fields": dict(
  AltitudeSource=(1, 0, ["Barometric", "GNSS"]), AltitudeReportMethod=(1, 0, ["100 F", "25 F"]),
  CompactPositionReportingFormat=(1, 0, ["even", "odd"]), SingleAntennaFlag=(1, 0, ["dual", "single"]),
  SurveillanceStatus=(1, 0, ["no ", "permanent", "temporary", "SPI"]), Time=(1, 0, ["not ", "synchronized|!not "])),
"bds/bds06/fields": dict(
  CompactPositionReportingFormat=(1, 0, ["even", "odd"]), Time=(1, 0, ["not ", "synchronized|!not "]),
  MovementStatus=(1, 0, ["no information", "stopped"] + ["valid"] * 122 + ["175 kt", "Decelerating", "Accelerating", "Backing"])),
"bds/bds07/fields": dict(AltitudeTypeSubfield=(1, 0, ["Barometric", "GNSS"]),
  TransmissionRateSubfield=(1, 0, ["apability", "High", "Low"])),
"bds/bds08/fields": dict(
  AircraftCategorySetA=(1, 0, ["No ", "Light", "Medium 1", "Medium 2", "vortex", "Heavy", "High performance", "Rotorcraft"]),
  AircraftCategorySetB=(1, 0, ["No ", "Glider", "Lighter-than-air", "Parachutist", "Ultralight", RES, "Unmanned", "Space"]),
  AircraftCategorySetC=(1, 0, ["No ", "emergency", "service", "obstruction", RES, RES, RES, RES]),
  AircraftCategorySetD=(1, 0, [RES] * 8)),
"bds/bds09/fields": dict(
  IFRCapability=(1, 0, ["no capability", "has capability"]), IntentChange=(1, 0, ["no change", "intent change"]),
  MagneticHeadingStatus=(1, 0, ["not available", "!not "]),
  NavigationUncertaintyCategory=(1, 0, ["nknown", "10 m/s|15.2 m/s", " 3 m/s|4.6 m/s", "< 1 m/s|1.5 m/s", "0.3 m/s|0.46 m/s"]),
  NumericValueStatus=(0, 0, NUM), Subtype=(1, 1, ["GroundSpeed|Normal", "GroundSpeed|Supersonic", "Airspeed|Normal", "Airspeed|Supersonic"]),
  DirectionEastWest=(1, 0, ["East", "West"]), DirectionNorthSouth=(1, 0, ["north", "south"]), VerticalRateSource=(1, 0, ["GNSS", "Baro"])),
"bds/bds10/fields": dict(
  ACASApplicableDocument=(0, 0, ["DO-185|!DO-185A|!DO-185B", "DO-185B", "DO-185A"]),
  ACASGenerationCapability=(1, 0, ["TAs only", "both"]), ACASHybridSurveillanceCapability=(1, 0, ["No ", "Capability|!No "]),
  ACASStatus=(1, 0, ["Failed", "Operational"]), AircraftIdentificationCapability=(1, 0, ["ADLP", "separate"]),
  CommonUsageGICBCapability=(1, 0, ["unchange", "!unchange"]), ContinuationFlag=(1, 0, ["last", "subsequent"]),
  DownlinkELMThroughputCapability=(1, 0, ["No ", "One 4 |every second", "One 8 |every second", "16 segments|every second", "16 segments|500 ms", "16 segments|250 ms", "16 segments|125 ms"]),
  ModeSSpecificServicesCapability=(1, 0, ["no ", "at least one"]),
  ModeSSubnetworkVersion=(1, 0, ["not available", "Version 1", "Version 2", "Version 3", "Version 4", "Version 5"]),
  OverlayCommandCapability=(1, 0, ["No ", "!No "]), SquitterCapabilitySubfield=(1, 0, ["not been updated", "have been updated"]),
  SurveillanceIdentifierCode=(1, 0, ["No ", "!No "]), TransponderEnhancedProtocolIndicator=(1, 0, ["Level 2 to 4", "Level 5"]),
  UplinkELMThroughputCapability=(1, 0, ["No ", "16 UELM|1 second", "16 UELM|500 ms".replace("500 ms", "500 milli"), "16 UELM|250 milli", "16 UELM|125 milli", "16 UELM|60 milli", "16 UELM|30 milli"])),
"bds/bds40/fields": dict(StatusOfModeBits=(1, 0, ["No ", "!No "]), StatusOfTargetAltitudeSource=(1, 0, ["No ", "!No "]),
  TargetAltitudeSource=(1, 0, ["Unknown", "Aircraft", "FCU/MCP", "FMS"])),
"bds/bds44/fields": dict(Source=(1, 0, ["Invalid", "INS", "GNSS", "DME/DME", "VOR/D"]), TurbulenceLevel=(1, 0, ["Nil", "Light", "Moderate", "Severe"]),
  TurbulenceFlag=(1, 0, ["not available", "!not "])),
"bds/bds45/fields": dict(HazardLevel=(1, 0, ["Nil", "Light", "Moderate", "Severe"])),
"bds/bds61/fields": dict(EmergencyPriorityStatus=(1, 0, EMER), Subtype=(1, 0, ["no information", "emergency", "RA ", RES, RES, RES, RES, RES])),
"bds/bds62/fields": dict(
  CapabilityModeCode=(1, 0, ["operational or unknown|No ", "operational or unknown|!No ", "not operational|No ", "not operational|!No "]),
  EmergencyPriorityStatus=(1, 0, EMER),
  HorizontalDataAvailableSourceIndicator=(1, 0, ["no valid", "autopilot control panel", "maintaining current", "FMS"]),
  HorizontalModeIndicator=(1, 0, MODE), VerticalModeIndicator=(1, 0, MODE),
  NavigationalAccuracyCategoryPositionV1=(1, 0, NACP1), NavigationalAccuracyCategoryPositionV2=(1, 0, NACP2), NICBaro=(1, 0, NICB),
  NumericValueStatus=(0, 0, NUM), SelectedAltitudeType=(1, 0, ["MCP/FCU", "FMS"]), SelectedHeadingStatus=(1, 0, ["not available", "is valid"]),
  SourceIntegrityLevel=(1, 0, SIL), SourceIntegrityLevelSupplement=(1, 0, ["per hour", "per sample"]), StatusMCPFCUBits=(1, 0, ["no ", "!no "]),
  Subtype=(1, 0, ["Subtype 0", "Subtype 1", RES, RES]), SurveillanceIntegrityLevel=(0, 0, SURV),
  TargetAltitudeCapability=(1, 0, ["holding altitude only", "autopilot|!FMS", "autopilot|FMS", RES]),
  TargetAltitudeType=(1, 0, ["pressure", "sea level"]), TargetHeadingTrackIndicator=(1, 0, ["heading", "track"]),
  VerticalDataAvailableSourceIndicator=(1, 0, ["no valid", "autopilot control panel", "holding altitude", "FMS"])),
"bds/bds65/fields": dict(
  ACASOperational=(1, 0, ["NOT", "!NOT"]), ACASResolutionAdvisoryActiveV1=(1, 0, ["not active", "!not "]), ACASResolutionAdvisoryActiveV2=(1, 0, ["not active", "!not "]),
  AirReferencedVelocityReportCapability=(1, 0, ["No ", "!No "]), ApproachLandingOperationalCapabilities=(1, 0, CAP16), ApproachLandingOperationalCapabilityStatus=(1, 0, CAP16),
  B2Low=(1, 0, ["Greater", "Less than"]), CockpitDisplayOfTrafficInformationStatus=(1, 0, ["not ", "!not "]),
  EnRouteOperationalCapabilities=(1, 0, CAP16), EnRouteOperationalCapabilityStatus=(1, 0, CAP16),
  ExtendedSquitterIn=(1, 0, ["NO ", "!NO "]), GeometricVerticalAccuracy=(1, 0, ["nknown", "<= 150", "<= 45", RES]),
  GPSAntennaLateral=(1, 0, ["no data", "left|2 m", "left|4 m", "left|6 m", "right|0 m", "right|2 m", "right|4 m", "right|6 m"]),
  GPSAntennaLongitudinal=(1, 0, ["no data", "compensated"] + [" - %d" % (2 * i - 2) for i in range(2, 32)]),
  HorizontalReferenceDirection=(1, 0, ["true", "magnetic"]), IdentSwitchActive=(1, 0, ["not active", "!not "]),
  LengthWidth=(1, 0, ["%s m|%s m" % p for p in [("15", "11.5"), ("15", "23"), ("25", "28.5"), ("25", "34"), ("35", "33"), ("35", "38"), ("45", "39.5"), ("45", "45"), ("55", "45"), ("55", "52"), ("65", "59.5"), ("65", "67"), ("75", "72.5"), ("75", "80"), ("85", "80"), ("85", "90")]]),
  NavigationalAccuracyCategoryPositionV1=(1, 0, NACP1), NavigationalAccuracyCategoryPositionV2=(1, 0, NACP2), NavigationAccuracyCategoryVelocity=(1, 0, [""] * 8),
  NICBaro=(1, 0, NICB), NICSupplementA=(1, 0, ["", ""]), NICSupplementC=(1, 0, ["", ""]), NotACASStatus=(1, 0, ["unknown", "not operational"]),
  PositionOffsetApplied=(1, 0, ["is not", "!not "]), ReceivingATCServices=(1, 0, ["not ", "!not "]), SingleAntennaFlag=(1, 0, ["two", "one"]),
  SourceIntegrityLevel=(1, 0, SIL), SourceIntegrityLevelSupplement=(1, 0, ["per hour", "per sample"]), Subtype=(1, 0, ["Airborne", "Surface"]),
  SurfaceOperationalCapabilities=(1, 0, CAP16), SurfaceOperationalCapabilityStatus=(1, 0, CAP16), SurveillanceIntegrityLevel=(0, 0, SURV),
  SystemDesignAssurance=(1, 0, ["Not Applicable", "Level D", "Level C", "Level B"]),
  TargetChangeReportCapability=(1, 0, ["No ", "TC+0", "multiple", RES]), TargetStateReportCapability=(1, 0, ["No ", "!No "]),
  TerminalAreaOperationalCapabilities=(1, 0, CAP16), TerminalAreaOperationalCapabilityStatus=(1, 0, CAP16),
  TrackAngleHeading=(1, 0, ["heading", "Track"]), UniversalAccessTransceiverCapability=(1, 0, ["No ", "!No "]),
  VersionNumber=(1, 0, ["V0", "V1", "V2"] + [""] * 5)),
"modes/fields": dict(
  AltitudeReportMethod=(1, 1, ["Not Available", "Metric", "100 F", "25 F"]), ApplicationField=(1, 0, [RES] * 8),
  Capability=(1, 0, ["Level 1", RES, RES, RES, "On The Ground|!Airborne", "Airborne|!Ground", "On The Ground|Airborne", "downlink request"]),
  ControlELM=(1, 0, ["Downlink", "Uplink"]),
  ControlField=(1, 0, ["24-bit address", RES + "|other addressing", "TISB|Fine", "TISB|Coarse", "TISB|Management", "TISB|Relay", "Rebroadcast", RES + "|!TISB|!addressing"]),
  CrossLinkCompatibility=(1, 0, ["Not ", "!Not "]),
  DownlinkRequest=(1, 0, ["No ", "Comm-B|!ACAS", "ACAS|!Comm-B", "Comm-B|ACAS", "Comm-B|1|!ACAS", "Comm-B|2|!ACAS", "Comm-B|1|ACAS", "Comm-B|2|ACAS"] + ["Not Assigned"] * 8 + ["ELM|%d Segment" % i for i in range(1, 17)]),
  FlightStatus=(1, 0, ["No Alert|No SPI|Airborne", "No Alert|No SPI|Ground", "Alert|No SPI|Airborne|!No Alert", "Alert|No SPI|Ground|!No Alert", "Alert|SPI|!No |Airborne|Ground".replace("|Airborne|Ground", ""), "Alert|SPI|!No ", RES, "7"]),
  NumberOfDSegment=(1, 0, [""] * 16),
  ReplyInformationAirAir=(1, 0, ["No Operating", RES, "inhibited", "vertical-only", "vertical and horizontal", RES, RES, RES, "Not Available", "(75 kt)", "75 and 150", "150 and 300", "300 and 600", "600 and 1 200", "Over|1 200", "Not Assigned"]),
  SensitivityLevelReport=(1, 0, ["noperative"] + ["Level %d" % i for i in range(1, 8)]),
  UtilityMessageIdentifierDesignator=(1, 0, ["No ", "Comm-B", "Comm-C", "Comm-D"]), VerticalStatus=(1, 0, ["Airborne", "Ground"])),
}
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main():
    imp, body = [], ""
    for i, (d, ts) in enumerate(T.items()):
        a = d.replace("/fields", "").split("/")[-1].replace("_", "") + "f"
        imp.append('\t%s "github.com/twuillemin/modes/pkg/%s"' % (a, d))
        h = "H" + a[:-1].capitalize()
        body += "\n// %s decides the enumerations of %s.\nfunc %s() {\n" % (h, d, h)
        for t, spec in sorted(ts.items()):
            coded = spec[0]
            items = spec[1] if isinstance(spec[1], dict) else {spec[1] + k: w for k, w in enumerate(spec[2]) if w is not None}
            body += '\tenum("%s", %s, func(v uint64) string { return %s.%s(v).ToString() }, []item{\n' % (t, "true" if coded else "false", a, t)
            body += "".join('\t\t{%d, "%s", "%s"},\n' % (k, k, w) for k, w in sorted(items.items()))
            body += "\t})\n"
        body += "}\n"
    src = open(os.path.join(V, "tools", "c24.tmpl")).read().replace("//IMPORTS", "\n".join(sorted(imp))).replace("//BODY", body)
    open(os.path.join(V, "harness", "c24", "c24.go"), "w").write(src)
main()
__import__("subprocess").run(["gofmt","-w",os.path.join(V,"harness","c24","c24.go")])
