From 082a8a84598e51de00f10538dd6605a40d8392f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 01/39] fix: refuse no-information aircraft status with
 non-zero bits 17 to 56

---
 pkg/bds/bds61/aircraft_status_no_information.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds61/aircraft_status_no_information.go b/pkg/bds/bds61/aircraft_status_no_information.go
index 2156941..d969495 100644
--- a/pkg/bds/bds61/aircraft_status_no_information.go
+++ b/pkg/bds/bds61/aircraft_status_no_information.go
@@ -67,7 +67,7 @@ func ReadAircraftStatusNoInformation(data []byte) (*AircraftStatusNoInformation,
 	}
 
 	for i := uint(2); i < 7; i++ {
-		if (data[1] & 0x1F) != 0 {
+		if data[i] != 0 {
 			return nil, errors.New("the bits 17 to 56 are expected to be 0")
 		}
 	}
-- 
2.43.0


From 87c44a0507472c020aac83d7d0053f60c7542f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 02/39] fix: keep the C1 and A1 bits of the threat altitude

---
 pkg/acas/ra/fields/threat_identity_altitude.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_altitude.go b/pkg/acas/ra/fields/threat_identity_altitude.go
index 3cc0894..c256838 100644
--- a/pkg/acas/ra/fields/threat_identity_altitude.go
+++ b/pkg/acas/ra/fields/threat_identity_altitude.go
@@ -37,7 +37,7 @@ func ReadThreatIdentityAltitude(data []byte) (ThreatIdentityAltitude, error) {
 	// Then C2 A2 C4 A4
 	altitudeCode += uint16(data[3]&0xF0) << 2
 	// Then C1 A1
-	altitudeCode += uint16(data[2]&0x03) << 2
+	altitudeCode += uint16(data[2]&0x03) << 10
 
 	// Detect invalid altitude
 	if altitudeCode == 0 {
-- 
2.43.0


From 916a53397f77be501514eb446883ed4af34a6778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 03/39] fix: read both low bits of the threat range

---
 pkg/acas/ra/fields/threat_identity_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_range.go b/pkg/acas/ra/fields/threat_identity_range.go
index 762e95a..d566ad5 100644
--- a/pkg/acas/ra/fields/threat_identity_range.go
+++ b/pkg/acas/ra/fields/threat_identity_range.go
@@ -39,6 +39,6 @@ func (threatRange ThreatIdentityRange) GetRange() float64 {
 // ReadThreatIdentityRange reads the ThreatIdentityRange
 func ReadThreatIdentityRange(data []byte) ThreatIdentityRange {
 
-	bits := (data[4]&0x1F)<<2 + (data[5]&0xA0)>>6
+	bits := (data[4]&0x1F)<<2 + (data[5]&0xC0)>>6
 	return ThreatIdentityRange(bits)
 }
-- 
2.43.0


From 616f6d8d4dcddb22a9dd73f814f566c96138c9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 04/39] fix: keep the surveillance status and antenna bits of
 type 0 airborne positions

---
 pkg/adsb/airborne_position/airborne_position_type_0.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/adsb/airborne_position/airborne_position_type_0.go b/pkg/adsb/airborne_position/airborne_position_type_0.go
index 33a0c0e..a942d6e 100644
--- a/pkg/adsb/airborne_position/airborne_position_type_0.go
+++ b/pkg/adsb/airborne_position/airborne_position_type_0.go
@@ -36,8 +36,8 @@ func (message AirbornePositionType0) ToString() string {
 // ReadAirbornePositionType0 reads a message at the format AirbornePositionType0
 func ReadAirbornePositionType0(adsbVersion adsb.ADSBVersion, data []byte) (*AirbornePositionType0, error) {
 
-	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 22
-	dataTmp := []byte{0xB0, data[1], data[2], data[3], data[4], data[5], data[6]}
+	// Update the type code to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 22
+	dataTmp := []byte{0xB0 | data[0]&0x07, data[1], data[2], data[3], data[4], data[5], data[6]}
 
 	bds, err := bds05.ReadAirbornePosition(dataTmp)
 	if err != nil {
-- 
2.43.0


From 4ee342678a1b8435019c248560b47732f31cb307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 05/39] fix: read the altitude of type 0 airborne positions as
 barometric

---
 pkg/adsb/airborne_position/airborne_position_type_0.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/adsb/airborne_position/airborne_position_type_0.go b/pkg/adsb/airborne_position/airborne_position_type_0.go
index a942d6e..5e6c35d 100644
--- a/pkg/adsb/airborne_position/airborne_position_type_0.go
+++ b/pkg/adsb/airborne_position/airborne_position_type_0.go
@@ -36,8 +36,8 @@ func (message AirbornePositionType0) ToString() string {
 // ReadAirbornePositionType0 reads a message at the format AirbornePositionType0
 func ReadAirbornePositionType0(adsbVersion adsb.ADSBVersion, data []byte) (*AirbornePositionType0, error) {
 
-	// Update the type code to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 22
-	dataTmp := []byte{0xB0 | data[0]&0x07, data[1], data[2], data[3], data[4], data[5], data[6]}
+	// Update the type code to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 15
+	dataTmp := []byte{0x78 | data[0]&0x07, data[1], data[2], data[3], data[4], data[5], data[6]}
 
 	bds, err := bds05.ReadAirbornePosition(dataTmp)
 	if err != nil {
-- 
2.43.0


From a55c6900e3be6aff7d41c11f35266815287d52a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 06/39] fix: report Rc below 0.1 NM for surface positions of
 type 7 without NIC supplement

---
 pkg/adsb/surface_position/surface_position_v1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/adsb/surface_position/surface_position_v1.go b/pkg/adsb/surface_position/surface_position_v1.go
index 9b2ab32..8ca1003 100644
--- a/pkg/adsb/surface_position/surface_position_v1.go
+++ b/pkg/adsb/surface_position/surface_position_v1.go
@@ -65,7 +65,7 @@ func getHCRAndNICForV1(formatTypeCode byte, nicSupplementA bool) (fields.Horizon
 		if nicSupplementA {
 			return fields.HCRV1RcLowerThan75M, 9
 		} else {
-			return fields.HCRV1RcGreaterThan0Point1NM, 8
+			return fields.HCRV1RcLowerThan0Point1NM, 8
 		}
 	default:
 		return fields.HCRV1RcGreaterThan0Point1NM, 0
-- 
2.43.0


From ef61f27799c31257dd9dc33ed8f001125fc85705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:36 +0000
Subject: [PATCH 07/39] fix: read the low bits of the target heading from the
 right byte

---
 pkg/bds/bds62/fields/target_heading_track_angle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/target_heading_track_angle.go b/pkg/bds/bds62/fields/target_heading_track_angle.go
index 1f5d2b5..fa02562 100644
--- a/pkg/bds/bds62/fields/target_heading_track_angle.go
+++ b/pkg/bds/bds62/fields/target_heading_track_angle.go
@@ -40,7 +40,7 @@ func ReadTargetHeadingTrackIndicator(data []byte) TargetHeadingTrackIndicator {
 // Specified in Doc 9871 / B.2.3.9.9
 func ReadTargetHeadingTrackAngle(data []byte) (uint16, NumericValueStatus) {
 	byte1 := data[3] & 0x1F
-	byte2 := data[2] & 0xF0
+	byte2 := data[4] & 0xF0
 	targetHeading := bitutils.Pack2Bytes(byte1, byte2) >> 4
 
 	if targetHeading > 359 {
-- 
2.43.0


From 4230d2e38b608403da785814b27bfcbdc638ee12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 08/39] fix: read the selected altitude source from its own bit

---
 pkg/bds/bds62/fields/selected_altitude_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/selected_altitude_type.go b/pkg/bds/bds62/fields/selected_altitude_type.go
index 7a822bd..d6c5602 100644
--- a/pkg/bds/bds62/fields/selected_altitude_type.go
+++ b/pkg/bds/bds62/fields/selected_altitude_type.go
@@ -29,6 +29,6 @@ func (status SelectedAltitudeType) ToString() string {
 
 // ReadSelectedAltitudeType reads the SelectedAltitudeType from a 56 bits data field
 func ReadSelectedAltitudeType(data []byte) SelectedAltitudeType {
-	bits := data[0] & 0x01
+	bits := (data[1] & 0x80) >> 7
 	return SelectedAltitudeType(bits)
 }
-- 
2.43.0


From cb1fef646274193e097b745a449dbcd3ffd6bf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 09/39] fix: decode a selected heading with the sign bit as
 two's complement

---
 pkg/bds/bds62/fields/selected_heading.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/selected_heading.go b/pkg/bds/bds62/fields/selected_heading.go
index bfc65ba..f1b263e 100644
--- a/pkg/bds/bds62/fields/selected_heading.go
+++ b/pkg/bds/bds62/fields/selected_heading.go
@@ -40,7 +40,7 @@ func ReadSelectedHeading(data []byte) (float32, SelectedHeadingStatus) {
 	heading := float32(bitutils.Pack2Bytes(byte1, byte2) >> 1)
 
 	if negative {
-		heading = -heading
+		heading = heading - 256
 	}
 
 	return heading * 180 / 256, status
-- 
2.43.0


From 2204ac5ae6f9bdf2cef6eb613c4eb82d58206d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 10/39] fix: report ADS-B version 2 for version 2 surface
 operational status

---
 pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
index 2c4ecd3..ead72a9 100644
--- a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
+++ b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
@@ -28,7 +28,7 @@ type AircraftOperationalStatusSurfaceADSB2 struct {
 }
 
 func (message AircraftOperationalStatusSurfaceADSB2) GetADSBLevel() byte {
-	return 1
+	return 2
 }
 
 // GetRegister returns the Register the message
-- 
2.43.0


From 3cae3f1303e2eef4314b988d31fa536887b1643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 11/39] fix: status register refuses contents with any of the
 reserved bits 4 to 8 set

---
 pkg/bds/bds07/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds07/status.go b/pkg/bds/bds07/status.go
index fbb4980..b1f4a8c 100644
--- a/pkg/bds/bds07/status.go
+++ b/pkg/bds/bds07/status.go
@@ -49,7 +49,7 @@ func ReadStatus(data []byte) (*Status, error) {
 	}
 
 	// Bits 4 to 8 are reserved and must be 0
-	if data[0]&0x1C != 0 {
+	if data[0]&0x1F != 0 {
 		return nil, errors.New("the bits 4 to 8 are reserved and must be 0")
 	}
 
-- 
2.43.0


From b03aed0d691fd4d3ef116930d0d57b474c64a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 12/39] fix: surveillance identifier code is read from bit 35
 of register 1,0

---
 pkg/bds/bds10/fields/surveillance_identifier_code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds10/fields/surveillance_identifier_code.go b/pkg/bds/bds10/fields/surveillance_identifier_code.go
index 07634b5..b49d268 100644
--- a/pkg/bds/bds10/fields/surveillance_identifier_code.go
+++ b/pkg/bds/bds10/fields/surveillance_identifier_code.go
@@ -29,6 +29,6 @@ func (sic SurveillanceIdentifierCode) ToString() string {
 
 // ReadSurveillanceIdentifierCode reads the SurveillanceIdentifierCode from a 56 bits data field
 func ReadSurveillanceIdentifierCode(data []byte) SurveillanceIdentifierCode {
-	bits := (data[2] & 0x40) >> 5
+	bits := (data[4] & 0x20) >> 5
 	return SurveillanceIdentifierCode(bits)
 }
-- 
2.43.0


From c3f20e5afe2247b16578b6be97a373c6832a184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:27 +0000
Subject: [PATCH 13/39] fix: register 4,0 reads MCP/FCU and FMS altitudes from
 their own bits

---
 pkg/bds/bds40/fields/fms_selected_altitude.go | 9 +++++----
 pkg/bds/bds40/fields/mcp_selected_altitude.go | 9 ++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/bds/bds40/fields/fms_selected_altitude.go b/pkg/bds/bds40/fields/fms_selected_altitude.go
index 4c1ac8f..a4eeab4 100644
--- a/pkg/bds/bds40/fields/fms_selected_altitude.go
+++ b/pkg/bds/bds40/fields/fms_selected_altitude.go
@@ -5,10 +5,11 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadFMSSelectedAltitude(data []byte) (bool, uint32) {
 	status := (data[1] & 0x04) != 0
 
-	byte1 := data[0] & 0x7F
-	byte2 := data[1] & 0xF8
-	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 3
-	fmsAltitude := uint32(allBits) * 16
+	byte1 := data[1] & 0x03
+	byte2 := data[2]
+	byte3 := data[3] & 0xC0
+	allBits := bitutils.Pack3Bytes(byte1, byte2, byte3) >> 6
+	fmsAltitude := allBits * 16
 
 	return status, fmsAltitude
 }
diff --git a/pkg/bds/bds40/fields/mcp_selected_altitude.go b/pkg/bds/bds40/fields/mcp_selected_altitude.go
index 83f3c4c..39c7c79 100644
--- a/pkg/bds/bds40/fields/mcp_selected_altitude.go
+++ b/pkg/bds/bds40/fields/mcp_selected_altitude.go
@@ -5,11 +5,10 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadMCPSelectedAltitude(data []byte) (bool, uint32) {
 	status := (data[0] & 0x80) != 0
 
-	byte1 := data[1] & 0x03
-	byte2 := data[2]
-	byte3 := data[3] & 0xC0
-	allBits := bitutils.Pack3Bytes(byte1, byte2, byte3) >> 6
-	altitude := allBits * 16
+	byte1 := data[0] & 0x7F
+	byte2 := data[1] & 0xF8
+	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 3
+	altitude := uint32(allBits) * 16
 
 	return status, altitude
 }
-- 
2.43.0


From 5f525f1c0ff7e894f64aba018620c9ae9e7138c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 14/39] fix: register 4,0 reads the barometric setting status
 from bit 27

---
 pkg/bds/bds40/fields/barometric_pressure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds40/fields/barometric_pressure.go b/pkg/bds/bds40/fields/barometric_pressure.go
index 971d522..8d0349f 100644
--- a/pkg/bds/bds40/fields/barometric_pressure.go
+++ b/pkg/bds/bds40/fields/barometric_pressure.go
@@ -3,7 +3,7 @@ package fields
 import "github.com/twuillemin/modes/pkg/bitutils"
 
 func ReadBarometricPressure(data []byte) (bool, float32) {
-	status := (data[0] & 0x80) != 0
+	status := (data[3] & 0x20) != 0
 
 	byte1 := data[3] & 0x1F
 	byte2 := data[4] & 0xFE
-- 
2.43.0


From c8684e0746e9ffd24ed0ddf434ebce730525f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 15/39] fix: register 4,4 reads all nine bits of the wind speed

---
 pkg/bds/bds44/fields/wind_speed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds44/fields/wind_speed.go b/pkg/bds/bds44/fields/wind_speed.go
index d296fa0..3e3b4ef 100644
--- a/pkg/bds/bds44/fields/wind_speed.go
+++ b/pkg/bds/bds44/fields/wind_speed.go
@@ -5,7 +5,7 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadWindSpeed(data []byte) (bool, uint32) {
 	status := (data[0] & 0x08) != 0
 
-	byte1 := data[0] & 0x03
+	byte1 := data[0] & 0x07
 	byte2 := data[1] & 0xFC
 	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 2
 	speed := uint32(allBits)
-- 
2.43.0


From e48286cad4f6f19dc1b6324eb10e93322b16c6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 16/39] fix: register 4,4 reads its first format's temperature
 as a signed number with sign bit 24

---
 pkg/bds/bds44/fields/static_air_temperature.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds44/fields/static_air_temperature.go b/pkg/bds/bds44/fields/static_air_temperature.go
index 7a6f5e8..d856061 100644
--- a/pkg/bds/bds44/fields/static_air_temperature.go
+++ b/pkg/bds/bds44/fields/static_air_temperature.go
@@ -10,8 +10,8 @@ func ReadStaticAirTemperatureV0(data []byte) float32 {
 	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 6
 	temperature := float32(allBits) * 0.25
 
-	if (data[3] & 0x01) != 0 {
-		temperature = temperature - 128
+	if (data[2] & 0x01) != 0 {
+		temperature = temperature - 256
 	}
 
 	return temperature
-- 
2.43.0


From c59afacee8cb06f4ec9bbd00694cf580f14e07e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 17/39] fix: downed aircraft is no reserved emergency state

---
 pkg/bds/bds61/aircraft_status_emergency.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds61/aircraft_status_emergency.go b/pkg/bds/bds61/aircraft_status_emergency.go
index 9e3015d..1a13d99 100644
--- a/pkg/bds/bds61/aircraft_status_emergency.go
+++ b/pkg/bds/bds61/aircraft_status_emergency.go
@@ -28,7 +28,7 @@ func (message AircraftStatusEmergency) GetRegister() register.Register {
 // CheckCoherency checks that the data of the message are somehow coherent, such as for example: no Reserved values, etc.
 func (message AircraftStatusEmergency) CheckCoherency() error {
 
-	if message.EmergencyPriorityStatus > 5 {
+	if message.EmergencyPriorityStatus > 6 {
 		return errors.New("field EmergencyPriorityStatus is a Reserved value")
 	}
 
-- 
2.43.0


From 079c16f26d3ded506a1bc5edde45c71ec931a574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 18/39] fix: register 4,4 is implausible when it gives a
 turbulence its status says is not available

---
 pkg/bds/bds44/meteorological_routine_air_report_v0.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/bds/bds44/meteorological_routine_air_report_v0.go b/pkg/bds/bds44/meteorological_routine_air_report_v0.go
index 6167636..936c105 100644
--- a/pkg/bds/bds44/meteorological_routine_air_report_v0.go
+++ b/pkg/bds/bds44/meteorological_routine_air_report_v0.go
@@ -89,6 +89,10 @@ func (message MeteorologicalRoutineAirReportV0) CheckCoherency() error {
 		return errors.New("the average static pressure status is set to false, but a average static pressure value is given")
 	}
 
+	if !message.TurbulenceStatus && message.Turbulence != fields.TLNil {
+		return errors.New("the turbulence status is set to false, but a turbulence value is given")
+	}
+
 	if !message.HumidityStatus && message.Humidity != 0 {
 		return errors.New("the humidity status is set to false, but a humidity value is given")
 	}
-- 
2.43.0


From 45bdbc370a45565cf304027153a16d19ff2334da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 19/39] fix: register 5,0 compares ground and air speed only
 when both are available

---
 pkg/bds/bds50/track_and_turn_report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds50/track_and_turn_report.go b/pkg/bds/bds50/track_and_turn_report.go
index 080639b..6607ce5 100644
--- a/pkg/bds/bds50/track_and_turn_report.go
+++ b/pkg/bds/bds50/track_and_turn_report.go
@@ -96,7 +96,7 @@ func (message TrackAndTurnReport) CheckCoherency() error {
 	}
 
 	speedDifference := int(message.GroundSpeed) - int(message.TrueAirSpeed)
-	if (speedDifference < -200) || (speedDifference > 200) {
+	if message.GroundSpeedStatus && message.TrueAirSpeedStatus && ((speedDifference < -200) || (speedDifference > 200)) {
 		return errors.New("the difference between true air speed and ground speed is too high (above 200 knots)")
 	}
 
-- 
2.43.0


From 928c97b75f91f1a592391a5278e56b3563b94804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 20/39] fix: register 4,0 is plausible without a barometric
 setting

---
 pkg/bds/bds40/selected_vertical_intention.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds40/selected_vertical_intention.go b/pkg/bds/bds40/selected_vertical_intention.go
index 7e2e593..8069834 100644
--- a/pkg/bds/bds40/selected_vertical_intention.go
+++ b/pkg/bds/bds40/selected_vertical_intention.go
@@ -79,8 +79,8 @@ func (message SelectedVerticalIntention) CheckCoherency() error {
 		return errors.New("the FMS SelectedAltitude status is set to false, but a FMS SelectedAltitude value is given")
 	}
 
-	// If no data available, it is probably not coherent
-	if !message.BarometricPressureSettingAvailable && message.BarometricPressureSetting != 0 {
+	// If no data available, it is probably not coherent. Note that an empty field is read as 800 mb
+	if !message.BarometricPressureSettingAvailable && message.BarometricPressureSetting > 800 {
 		return errors.New("the BarometricPressureSetting status is set to false, but a BarometricPressureSetting value is given")
 	}
 
-- 
2.43.0


From eae8fd36dc6b648066ad1b1cafbb44b7d435fb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:35 +0000
Subject: [PATCH 21/39] fix: register 4,0 is implausible when it gives modes or
 a source its status says are not available

---
 pkg/bds/bds40/selected_vertical_intention.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/bds/bds40/selected_vertical_intention.go b/pkg/bds/bds40/selected_vertical_intention.go
index 8069834..ba481dd 100644
--- a/pkg/bds/bds40/selected_vertical_intention.go
+++ b/pkg/bds/bds40/selected_vertical_intention.go
@@ -84,6 +84,14 @@ func (message SelectedVerticalIntention) CheckCoherency() error {
 		return errors.New("the BarometricPressureSetting status is set to false, but a BarometricPressureSetting value is given")
 	}
 
+	if message.StatusOfModeBits == fields.SMBNoModeInformation && (message.VNAVMode || message.AltitudeHoldMode || message.ApproachMode) {
+		return errors.New("the status of mode bits is set to no information, but a mode is given")
+	}
+
+	if message.StatusOfTargetAltitudeSource == fields.STASNoSourceInformation && message.TargetAltitudeSource != fields.TASUnknown {
+		return errors.New("the status of target altitude source is set to no information, but a target altitude source is given")
+	}
+
 	return nil
 }
 
-- 
2.43.0


From e1a2e10f39dea6b39c122efdd0ba28f02795b8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:02 +0000
Subject: [PATCH 22/39] fix: refuse squitters that are too short instead of
 panicking

---
 pkg/adsb/airborne_position/airborne_position.go             | 4 ++++
 pkg/adsb/airborne_position/airborne_position_type_0.go      | 4 ++++
 pkg/adsb/no_position_information/no_position_information.go | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/pkg/adsb/airborne_position/airborne_position.go b/pkg/adsb/airborne_position/airborne_position.go
index 70ddabf..95546c1 100644
--- a/pkg/adsb/airborne_position/airborne_position.go
+++ b/pkg/adsb/airborne_position/airborne_position.go
@@ -8,6 +8,10 @@ import (
 // ReadAirbornePosition reads a message at the format AirbornePosition
 func ReadAirbornePosition(adsbVersion adsb.ADSBVersion, data []byte, nicSupplementA bool) (adsb.Message, error) {
 
+	if len(data) != 7 {
+		return nil, fmt.Errorf("the data must be 7 bytes long (%v given)", len(data))
+	}
+
 	if data[0] == 0 {
 		return ReadAirbornePositionType0(adsbVersion, data)
 	}
diff --git a/pkg/adsb/airborne_position/airborne_position_type_0.go b/pkg/adsb/airborne_position/airborne_position_type_0.go
index 5e6c35d..49ec8c2 100644
--- a/pkg/adsb/airborne_position/airborne_position_type_0.go
+++ b/pkg/adsb/airborne_position/airborne_position_type_0.go
@@ -36,6 +36,10 @@ func (message AirbornePositionType0) ToString() string {
 // ReadAirbornePositionType0 reads a message at the format AirbornePositionType0
 func ReadAirbornePositionType0(adsbVersion adsb.ADSBVersion, data []byte) (*AirbornePositionType0, error) {
 
+	if len(data) != 7 {
+		return nil, fmt.Errorf("the data must be 7 bytes long (%v given)", len(data))
+	}
+
 	// Update the type code to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 15
 	dataTmp := []byte{0x78 | data[0]&0x07, data[1], data[2], data[3], data[4], data[5], data[6]}
 
diff --git a/pkg/adsb/no_position_information/no_position_information.go b/pkg/adsb/no_position_information/no_position_information.go
index 0e04f6f..af8002f 100644
--- a/pkg/adsb/no_position_information/no_position_information.go
+++ b/pkg/adsb/no_position_information/no_position_information.go
@@ -37,6 +37,10 @@ func (message NoPositionInformation) ToString() string {
 // ReadNoPositionInformation reads a message at the format NoPositionInformation
 func ReadNoPositionInformation(adsbVersion adsb.ADSBVersion, data []byte) (*NoPositionInformation, error) {
 
+	if len(data) != 7 {
+		return nil, fmt.Errorf("the data must be 7 bytes long (%v given)", len(data))
+	}
+
 	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 15
 	dataTmp := []byte{0x78, data[1], data[2], 0, 0, 0, 0}
 
-- 
2.43.0


From 1375554392f6dc1ddb4d79250fda9dc77c8c53b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:35 +0000
Subject: [PATCH 23/39] fix: ActiveRASense renders every sense as upward

---
 .../fields/active_resolution_advisory_one_or_same_separation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go b/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
index 5fd7c79..786ff46 100644
--- a/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
+++ b/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
@@ -119,7 +119,7 @@ const (
 
 // ToString returns a basic, but readable, representation of the field
 func (sense ActiveRASense) ToString() string {
-	switch ActiveRASenseUpward {
+	switch sense {
 	case ActiveRASenseUpward:
 		return "Upward"
 	case ActiveRASenseDownward:
-- 
2.43.0


From e8ce0f57585ed63e599f836105a9803ad27bc77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:36 +0000
Subject: [PATCH 24/39] fix: velocity uncertainty categories 2 to 4 render with
 the code and bound of another

---
 pkg/bds/bds09/fields/navigation_uncertainty_category.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/bds/bds09/fields/navigation_uncertainty_category.go b/pkg/bds/bds09/fields/navigation_uncertainty_category.go
index 1cd8817..368af79 100644
--- a/pkg/bds/bds09/fields/navigation_uncertainty_category.go
+++ b/pkg/bds/bds09/fields/navigation_uncertainty_category.go
@@ -34,15 +34,15 @@ func (category NavigationUncertaintyCategory) ToString() string {
 			nucpHorizontalLabel, "< 10 m/s",
 			nucpVerticalLabel, "< 15.2 m/s (50 fps)")
 	case NUCPHorizontalLowerThan3VerticalLowerThan4Point6:
-		return fmt.Sprintf("1 - %v %v / %v %v",
+		return fmt.Sprintf("2 - %v %v / %v %v",
 			nucpHorizontalLabel, "< 3 m/s",
 			nucpVerticalLabel, "< 4.6 m/s (15 fps)")
 	case NUCPHorizontalLowerThan1VerticalLowerThan1Point5:
-		return fmt.Sprintf("1 - %v %v / %v %v",
-			nucpHorizontalLabel, "< 2 m/s",
+		return fmt.Sprintf("3 - %v %v / %v %v",
+			nucpHorizontalLabel, "< 1 m/s",
 			nucpVerticalLabel, "< 1.5 m/s (5 fps)")
 	case NUCPHorizontalLowerThan0Point3VerticalLowerThan0Point46:
-		return fmt.Sprintf("1 - %v %v / %v %v",
+		return fmt.Sprintf("4 - %v %v / %v %v",
 			nucpHorizontalLabel, "< 0.3 m/s",
 			nucpVerticalLabel, "< 0.46 m/s (1.5 fps)")
 
-- 
2.43.0


From 5be8d73aa2ce5fe4bf72df6ff0abfdec6e65886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:37 +0000
Subject: [PATCH 25/39] fix: Mode S subnetwork versions 2 to 5 render with code
 1

---
 pkg/bds/bds10/fields/modes_subnetwork_version.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/bds/bds10/fields/modes_subnetwork_version.go b/pkg/bds/bds10/fields/modes_subnetwork_version.go
index 098d7a9..33e0250 100644
--- a/pkg/bds/bds10/fields/modes_subnetwork_version.go
+++ b/pkg/bds/bds10/fields/modes_subnetwork_version.go
@@ -31,13 +31,13 @@ func (mssv ModeSSubnetworkVersion) ToString() string {
 	case ModeSSubnetworkVersion1:
 		return "1 - Mode S subnetwork Version 1 - ICAO Doc 9688 (1996)"
 	case ModeSSubnetworkVersion2:
-		return "1 - Mode S subnetwork Version 2 - ICAO Doc 9688 (1997)"
+		return "2 - Mode S subnetwork Version 2 - ICAO Doc 9688 (1997)"
 	case ModeSSubnetworkVersion3:
-		return "1 - Mode S subnetwork Version 3 - ICAO Annex 10, Vol III, Amdt 77"
+		return "3 - Mode S subnetwork Version 3 - ICAO Annex 10, Vol III, Amdt 77"
 	case ModeSSubnetworkVersion4:
-		return "1 - Mode S subnetwork Version 4 - ICAO Doc 9871, Edition 1"
+		return "4 - Mode S subnetwork Version 4 - ICAO Doc 9871, Edition 1"
 	case ModeSSubnetworkVersion5:
-		return "1 - Mode S subnetwork Version 5 - ICAO Doc 9871, Edition 2"
+		return "5 - Mode S subnetwork Version 5 - ICAO Doc 9871, Edition 2"
 	default:
 		return fmt.Sprintf("%v - Unknown code", mssv)
 	}
-- 
2.43.0


From 064297c0eaddb330a209c88fa0679c3055c16026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 26/39] fix: BDS 6,2 source integrity levels 2 and 3 render
 with code 1

---
 pkg/bds/bds62/fields/source_integrity_level.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds62/fields/source_integrity_level.go b/pkg/bds/bds62/fields/source_integrity_level.go
index 2d4488c..8064c0b 100644
--- a/pkg/bds/bds62/fields/source_integrity_level.go
+++ b/pkg/bds/bds62/fields/source_integrity_level.go
@@ -27,9 +27,9 @@ func (level SourceIntegrityLevel) ToString() string {
 	case SILLevel1:
 		return "1 - SIL <= 1 * 10^-3 per flight hour or per sample"
 	case SILLevel2:
-		return "1 - SIL <= 1 * 10^-5 per flight hour or per sample"
+		return "2 - SIL <= 1 * 10^-5 per flight hour or per sample"
 	case SILLevel3:
-		return "1 - SIL <= 1 * 10^-7 per flight hour or per sample"
+		return "3 - SIL <= 1 * 10^-7 per flight hour or per sample"
 	default:
 		return fmt.Sprintf("%v - Unknown code", level)
 	}
-- 
2.43.0


From cd08d09bfff09b8ee45db3a0a71a0b52157c34b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 27/39] fix: geometric vertical accuracies 1 to 3 render with
 code 0

---
 pkg/bds/bds65/fields/geometric_vertical_accuracy.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/bds/bds65/fields/geometric_vertical_accuracy.go b/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
index 1ec808a..8ab4488 100644
--- a/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
+++ b/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
@@ -23,13 +23,13 @@ func (baro GeometricVerticalAccuracy) ToString() string {
 
 	switch baro {
 	case GVAUnknownOrGreaterThan150m:
-		return "0 - Unknown or GVA >= 150 meters"
+		return "0 - Unknown or GVA > 150 meters"
 	case GVALowerThan150m:
-		return "0 - GVA <= 150 meters"
+		return "1 - GVA <= 150 meters"
 	case GVALowerThan45m:
-		return "0 - GVA <= 45 meters"
+		return "2 - GVA <= 45 meters"
 	case GVAReserved3:
-		return "0 - reserved"
+		return "3 - reserved"
 	default:
 		return fmt.Sprintf("%v - Unknown code", baro)
 	}
-- 
2.43.0


From ce6acc4e550c3fe95af9b6c0331575758caabbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 28/39] fix: transmission rate 0 renders as an altitude type

---
 pkg/bds/bds07/fields/transmission_rate_subfield.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds07/fields/transmission_rate_subfield.go b/pkg/bds/bds07/fields/transmission_rate_subfield.go
index cbe7abf..63f32f6 100644
--- a/pkg/bds/bds07/fields/transmission_rate_subfield.go
+++ b/pkg/bds/bds07/fields/transmission_rate_subfield.go
@@ -21,7 +21,7 @@ func (trs TransmissionRateSubfield) ToString() string {
 
 	switch trs {
 	case TransmissionRateNoCapability:
-		return "0 - Barometric altitude"
+		return "0 - No capability to determine surface squitter rate"
 	case TransmissionRateHigh:
 		return "1 - High surface squitter rate selected"
 	case TransmissionRateLow:
-- 
2.43.0


From cb44733032b384d89d929e21dbf1d364a58a64dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:42 +0000
Subject: [PATCH 29/39] fix: aircraft length and width code 10 renders 59 m
 instead of 59.5 m

---
 pkg/bds/bds65/fields/length_width.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds65/fields/length_width.go b/pkg/bds/bds65/fields/length_width.go
index 23b3bde..0fb6708 100644
--- a/pkg/bds/bds65/fields/length_width.go
+++ b/pkg/bds/bds65/fields/length_width.go
@@ -28,7 +28,7 @@ const (
 	LWLength55Width45 LengthWidth = 8
 	// LWLength55Width52 indicates Length lower than 55 meters and Width lower than 52 meters
 	LWLength55Width52 LengthWidth = 9
-	// LWLength65Width59Point5 indicates Length lower than 65 meters and Width lower than 59 meters
+	// LWLength65Width59Point5 indicates Length lower than 65 meters and Width lower than 59.5 meters
 	LWLength65Width59Point5 LengthWidth = 10
 	// LWLength65Width67 indicates Length lower than 65 meters and Width lower than 67 meters
 	LWLength65Width67 LengthWidth = 11
@@ -67,7 +67,7 @@ func (status LengthWidth) ToString() string {
 	case LWLength55Width52:
 		return "9 - Length lower than 55 meters and Width lower than 52 meters"
 	case LWLength65Width59Point5:
-		return "10 - Length lower than 65 meters and Width lower than 59 meters"
+		return "10 - Length lower than 65 meters and Width lower than 59.5 meters"
 	case LWLength65Width67:
 		return "11 - Length lower than 65 meters and Width lower than 67 meters"
 	case LWLength75Width72Point5:
-- 
2.43.0


From b1f1074c3c86b6a91b79253998ee49551c937098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:44 +0000
Subject: [PATCH 30/39] fix: bearings of threats above 252 degrees overflow
 when rendered

---
 pkg/acas/ra/fields/threat_identity_bearing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_bearing.go b/pkg/acas/ra/fields/threat_identity_bearing.go
index f4f39f3..a47044b 100644
--- a/pkg/acas/ra/fields/threat_identity_bearing.go
+++ b/pkg/acas/ra/fields/threat_identity_bearing.go
@@ -14,7 +14,7 @@ func (threatBearing ThreatIdentityBearing) ToString() string {
 	if threatBearing == 0 {
 		return " 0 - No bearing estimate available"
 	} else if 1 <= threatBearing && threatBearing <= 60 {
-		return fmt.Sprintf("%v - between %v and %v", threatBearing, (threatBearing-1)*6, threatBearing*6)
+		return fmt.Sprintf("%v - between %v and %v", threatBearing, (int(threatBearing)-1)*6, int(threatBearing)*6)
 	} else if 61 <= threatBearing && threatBearing <= 63 {
 		return fmt.Sprintf("%v - Not assigned", threatBearing)
 	}
-- 
2.43.0


From 6d4d2add9b4bc6d2b38b9ee4b3fa7ef075b78ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:59 +0000
Subject: [PATCH 31/39] fix: the highest threat range renders without its code

---
 pkg/acas/ra/fields/threat_identity_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_range.go b/pkg/acas/ra/fields/threat_identity_range.go
index d566ad5..3ea3fa6 100644
--- a/pkg/acas/ra/fields/threat_identity_range.go
+++ b/pkg/acas/ra/fields/threat_identity_range.go
@@ -18,7 +18,7 @@ func (threatRange ThreatIdentityRange) ToString() string {
 	} else if 2 <= threatRange && threatRange <= 126 {
 		return fmt.Sprintf("%v - %v +/- 0.05 NM", threatRange, threatRange.GetRange())
 	} else if threatRange == 127 {
-		return "Greater than 12.55"
+		return "127 - Greater than 12.55"
 	}
 	return fmt.Sprintf("%v - Unknown code", threatRange)
 }
-- 
2.43.0


From a63641acf25bed7934db7c93f82667bfaf08b529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 32/39] fix: the data link capability report never renders its
 continuation flag

---
 pkg/bds/bds10/data_link_capability_report.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/bds/bds10/data_link_capability_report.go b/pkg/bds/bds10/data_link_capability_report.go
index 7026d09..c124929 100644
--- a/pkg/bds/bds10/data_link_capability_report.go
+++ b/pkg/bds/bds10/data_link_capability_report.go
@@ -74,6 +74,7 @@ func (message DataLinkCapabilityReport) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                                 %v\n"+
 		"Continuation Flag:                       %v\n"+
+		"Overlay Command Capability               %v\n"+
 		"ACAS Status                              %v\n"+
 		"ModeS Subnetwork Version                 %v\n"+
 		"Transponder Enhanced Protocol Indicator  %v\n"+
@@ -89,6 +90,7 @@ func (message DataLinkCapabilityReport) ToString() string {
 		"ACAS Applicable Document                 %v\n"+
 		"DTE SubAddress Statuses                  %v\n",
 		message.GetRegister().ToString(),
+		message.ContinuationFlag.ToString(),
 		message.OverlayCommandCapability.ToString(),
 		message.ACASStatus.ToString(),
 		message.ModeSSubnetworkVersion.ToString(),
-- 
2.43.0


From d31a2247399336b242624ac1db7ea1afe37ec339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:40 +0000
Subject: [PATCH 33/39] fix: the emergency status message never renders its
 Mode A code

---
 pkg/bds/bds61/aircraft_status_emergency.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds61/aircraft_status_emergency.go b/pkg/bds/bds61/aircraft_status_emergency.go
index 1a13d99..bf177b5 100644
--- a/pkg/bds/bds61/aircraft_status_emergency.go
+++ b/pkg/bds/bds61/aircraft_status_emergency.go
@@ -40,10 +40,12 @@ func (message AircraftStatusEmergency) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                   %v\n"+
 		"Subtype:                   %v\n"+
-		"Emergeny State:            %v",
+		"Emergeny State:            %v\n"+
+		"Mode A Code:               %v",
 		message.GetRegister().ToString(),
 		message.Subtype.ToString(),
-		message.EmergencyPriorityStatus.ToString())
+		message.EmergencyPriorityStatus.ToString(),
+		message.ModeACode)
 }
 
 // ReadAircraftStatusEmergency reads a AircraftStatus / Subtype 1 (Emergency/priority status)
-- 
2.43.0


From 3b08a1ef296b318456923ffcbc58aed7ae45b8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:44 +0000
Subject: [PATCH 34/39] fix: refuse airborne CPR pairs that decode to a
 latitude beyond the poles

---
 pkg/geo/cpr_airborne_global_position.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/geo/cpr_airborne_global_position.go b/pkg/geo/cpr_airborne_global_position.go
index 7da5cbb..4bb5c8a 100644
--- a/pkg/geo/cpr_airborne_global_position.go
+++ b/pkg/geo/cpr_airborne_global_position.go
@@ -49,6 +49,11 @@ func GetCPRAirborneGlobalPosition(
 		latitudeOdd -= 360
 	}
 
+	// Unrelated messages may give an index that no position on earth has
+	if math.Abs(latitudeEven) > 90 || math.Abs(latitudeOdd) > 90 {
+		return 0, 0, errors.New("the latitude is outside of the range -90 to 90 degrees")
+	}
+
 	// Before proceeding to the longitude calculation, we need to compute NL(lat_even) and NL(lat_odd) to check if both
 	//values are the same. If not, this means the pair of messages are from different longitude zones,
 	//and it is not possible to compute the correct global position.
-- 
2.43.0


From 178cdaf2731fdca58626453f25df5b397304d737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:26 +0000
Subject: [PATCH 35/39] fix: ground distance of antipodal points is a number

---
 pkg/geo/ground_distance.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/geo/ground_distance.go b/pkg/geo/ground_distance.go
index a7ee98d..23c58f3 100644
--- a/pkg/geo/ground_distance.go
+++ b/pkg/geo/ground_distance.go
@@ -24,6 +24,9 @@ func ComputeGroundDistance(lat1, long1, lat2, long2 float64) float64 {
 
 	a := math.Pow(math.Sin(deltaPhi/2.0), 2) + math.Cos(phi1)*math.Cos(phi2)*math.Pow(math.Sin(deltaLambda/2.0), 2)
 
+	// The rounding errors may push the value slightly out of [0, 1] for (almost) antipodal points
+	a = math.Max(0, math.Min(1, a))
+
 	c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a))
 
 	metricDistance := earthRadius * c
-- 
2.43.0


From 7f4e0a5882b885e4f44b3aef8bac9601193d5e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:00 +0000
Subject: [PATCH 36/39] fix: surface latitude is the solution nearest to the
 reference, also across the equator

---
 pkg/geo/cpr_surface_global_position.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/geo/cpr_surface_global_position.go b/pkg/geo/cpr_surface_global_position.go
index 771c0b0..11a9491 100644
--- a/pkg/geo/cpr_surface_global_position.go
+++ b/pkg/geo/cpr_surface_global_position.go
@@ -43,14 +43,14 @@ func GetCPRSurfaceGlobalPosition(
 	latitudeEven := 90 / (4 * Nz) * (mod(latitudeIndex, 4*Nz) + cprLatitudeEven)
 	latitudeOdd := 90 / (4*Nz - 1) * (mod(latitudeIndex, 4*Nz-1) + cprLatitudeOdd)
 
-	// If the reference in the southern hemisphere latitude solution
+	// If the southern hemisphere latitude solution is the nearest to the reference
 	latitudeEvenFixed := latitudeEven
-	if referenceLatitude < 0 {
+	if latitudeEven-referenceLatitude > 45 {
 		latitudeEvenFixed = latitudeEvenFixed - 90
 	}
 
 	latitudeOddFixed := latitudeOdd
-	if referenceLatitude < 0 {
+	if latitudeOdd-referenceLatitude > 45 {
 		latitudeOddFixed = latitudeOddFixed - 90
 	}
 
-- 
2.43.0


From bcdcd4118b70610ad617b06becbe3fa2560b21a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:02 +0000
Subject: [PATCH 37/39] fix: surface longitude is the solution nearest to the
 reference, also across the antimeridian

---
 pkg/geo/cpr_surface_global_position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/geo/cpr_surface_global_position.go b/pkg/geo/cpr_surface_global_position.go
index 11a9491..8204d21 100644
--- a/pkg/geo/cpr_surface_global_position.go
+++ b/pkg/geo/cpr_surface_global_position.go
@@ -108,7 +108,7 @@ func GetCPRSurfaceGlobalPosition(
 
 	distancesToRef := [4]float64{}
 	for i, longitudeCorrected := range longitudesCorrected {
-		distancesToRef[i] = math.Abs(referenceLongitude - longitudeCorrected)
+		distancesToRef[i] = math.Abs(mod(referenceLongitude-longitudeCorrected+180, 360) - 180)
 	}
 
 	smallestDistance := 10000000.0
-- 
2.43.0


From 93e0ce40cceaea9016fe57d2462f7ba28af3412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:04 +0000
Subject: [PATCH 38/39] fix: surface decoding with a reference longitude that
 is not a finite number does not panic

---
 pkg/geo/cpr_surface_global_position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/geo/cpr_surface_global_position.go b/pkg/geo/cpr_surface_global_position.go
index 8204d21..b4e1e50 100644
--- a/pkg/geo/cpr_surface_global_position.go
+++ b/pkg/geo/cpr_surface_global_position.go
@@ -112,7 +112,7 @@ func GetCPRSurfaceGlobalPosition(
 	}
 
 	smallestDistance := 10000000.0
-	minIndex := -1
+	minIndex := 0 // Also used if the reference is not a number
 	for i, distance := range distancesToRef {
 		if distance < smallestDistance {
 			smallestDistance = distance
-- 
2.43.0


From d16bcf95e8d052072d792c9ed0c86a7b8aafcce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:40 +0000
Subject: [PATCH 39/39] fix: surface operational status texts label track
 angle/heading and the surface capability class as such

---
 pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go | 4 ++--
 pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go b/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go
index 0eb8ff0..f2b9e3d 100644
--- a/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go
+++ b/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go
@@ -45,14 +45,14 @@ func (message AircraftOperationalStatusSurfaceADSB1) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                                 %v\n"+
 		"Subtype:                                 %v\n"+
-		"SubtypeAirborne Capability Class:        \n%v\n"+
+		"SubtypeSurface Capability Class:         \n%v\n"+
 		"Aircraft Length And Width                %v\n"+
 		"Operational Mode:                        \n%v\n"+
 		"ADSB Version Number:                     %v\n"+
 		"NIC Supplement:                          %v\n"+
 		"Navigational Accuracy Category Position: %v\n"+
 		"Surveillance Integrity ReaderLevel:      \n%v\n"+
-		"NIC Baro:                                %v\n"+
+		"Track Angle/Heading:                     %v\n"+
 		"Horizontal Reference Direction:          %v",
 		message.GetRegister().ToString(),
 		message.Subtype.ToString(),
diff --git a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
index ead72a9..fbfdc60 100644
--- a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
+++ b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
@@ -46,7 +46,7 @@ func (message AircraftOperationalStatusSurfaceADSB2) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                                 %v\n"+
 		"Subtype:                                 %v\n"+
-		"SubtypeAirborne Capability Class:        \n%v\n"+
+		"SubtypeSurface Capability Class:         \n%v\n"+
 		"Aircraft Length And Width                %v\n"+
 		"Operational Mode:                        \n%v\n"+
 		"ADSB Version Number:                     %v\n"+
@@ -54,7 +54,7 @@ func (message AircraftOperationalStatusSurfaceADSB2) ToString() string {
 		"Navigational Accuracy Category Position: %v\n"+
 		"Source Integrity ReaderLevel:            %v\n"+
 		"Source Integrity ReaderLevel Supplement: %v\n"+
-		"NIC Baro:                                %v\n"+
+		"Track Angle/Heading:                     %v\n"+
 		"Horizontal Reference Direction:          %v",
 		message.GetRegister().ToString(),
 		message.Subtype.ToString(),
-- 
2.43.0

