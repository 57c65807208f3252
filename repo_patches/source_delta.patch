From e4e45b22d01f6262713e789e09f936b9d949c30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 01/27] fix: keep an unrecognised code page when encoding a
 string from raw data

---
 internal/dd/string_value.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index 0e51253..cbda4a4 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -100,7 +100,11 @@ func AppendStringValue(dst []byte, sv *ddv1.StringValue) ([]byte, error) {
 
 		// Paint only the code page byte at offset 0 (from semantic encoding field)
 		// The string data at offset 1+ is already correct in raw_data
-		canvas[0] = codePage
+		// A byte that already reads as this encoding is kept: an unrecognized code
+		// page has no other place in the message.
+		if getEncodingFromCodePage(raw[0]) != sv.GetEncoding() {
+			canvas[0] = codePage
+		}
 
 		// Note: We do NOT re-encode from the value field because:
 		// 1. The value field is UTF-8 (for display), while raw_data is in the original encoding
-- 
2.43.0


From ec3811607d5a4ce48791fffc3bbd2e6ff57c20ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 02/27] fix: encode dates and versions with non-decimal digits
 back to their raw data

---
 internal/dd/card_structure_version.go | 6 ++++++
 internal/dd/date.go                   | 6 ++++++
 internal/dd/month_year.go             | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/internal/dd/card_structure_version.go b/internal/dd/card_structure_version.go
index ccd83be..871b679 100644
--- a/internal/dd/card_structure_version.go
+++ b/internal/dd/card_structure_version.go
@@ -58,6 +58,12 @@ func AppendCardStructureVersion(dst []byte, csv *ddv1.CardStructureVersion) ([]b
 			)
 		}
 		copy(canvas[:], csv.GetRawData())
+		// Bytes that are not decimal digits cannot be encoded from the semantic
+		// values, so raw data that still reads as this version is kept as it is.
+		original, err := UnmarshalOptions{}.UnmarshalCardStructureVersion(csv.GetRawData())
+		if err == nil && original.GetMajor() == csv.GetMajor() && original.GetMinor() == csv.GetMinor() {
+			return append(dst, canvas[:]...), nil
+		}
 	}
 	major := csv.GetMajor()
 	majorBCD := byte((major/10)<<4) | byte(major%10)
diff --git a/internal/dd/date.go b/internal/dd/date.go
index 1de883c..164eb01 100644
--- a/internal/dd/date.go
+++ b/internal/dd/date.go
@@ -57,6 +57,12 @@ func AppendDate(dst []byte, date *ddv1.Date) ([]byte, error) {
 			)
 		}
 		copy(canvas[:], date.GetRawData())
+		// Bytes that are not decimal digits cannot be encoded from the semantic
+		// values, so raw data that still reads as this date is kept as it is.
+		original, err := UnmarshalOptions{}.UnmarshalDate(date.GetRawData())
+		if err == nil && original.GetYear() == date.GetYear() && original.GetMonth() == date.GetMonth() && original.GetDay() == date.GetDay() {
+			return append(dst, canvas[:]...), nil
+		}
 	}
 	year := int(date.GetYear())
 	month := int(date.GetMonth())
diff --git a/internal/dd/month_year.go b/internal/dd/month_year.go
index 5b1ff41..9c534b5 100644
--- a/internal/dd/month_year.go
+++ b/internal/dd/month_year.go
@@ -71,6 +71,12 @@ func AppendMonthYear(dst []byte, monthYear *ddv1.MonthYear) ([]byte, error) {
 			return nil, fmt.Errorf("invalid raw_data length for MonthYear: got %d, want %d", len(rawData), lenMonthYear)
 		}
 		copy(canvas[:], rawData)
+		// Bytes that are not decimal digits cannot be encoded from the semantic
+		// values, so raw data that still reads as this month is kept as it is.
+		original, err := UnmarshalOptions{}.UnmarshalMonthYear(rawData)
+		if err == nil && original.GetMonth() == monthYear.GetMonth() && original.GetYear() == monthYear.GetYear() {
+			return append(dst, canvas[:]...), nil
+		}
 	}
 	// Otherwise canvas is zero-initialized (Go default)
 
-- 
2.43.0


From 4c9d6526e026f556e89f6428ddbb785734ef9d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 03/27] fix: reject control types that are not one byte long

---
 internal/dd/controltype.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/dd/controltype.go b/internal/dd/controltype.go
index 8fc9019..b6dd07f 100644
--- a/internal/dd/controltype.go
+++ b/internal/dd/controltype.go
@@ -14,8 +14,9 @@ import (
 //
 //	ControlType ::= OCTET STRING (SIZE(1))
 func (opts UnmarshalOptions) UnmarshalControlType(input []byte) (*ddv1.ControlType, error) {
-	if len(input) == 0 {
-		return nil, fmt.Errorf("insufficient data for control type")
+	const lenControlType = 1
+	if len(input) != lenControlType {
+		return nil, fmt.Errorf("invalid data length for ControlType: got %d, want %d", len(input), lenControlType)
 	}
 	b := input[0]
 	var output ddv1.ControlType
-- 
2.43.0


From e62da474acfc507e92376344fac6a3e4b8f1f1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 04/27] fix: map the issuing member state of a card number by
 its protocol code

---
 internal/dd/full_card_number.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index b68eb1d..6e7b0ec 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -45,8 +45,12 @@ func (opts UnmarshalOptions) UnmarshalFullCardNumber(data []byte) (*ddv1.FullCar
 	cardNumber.SetCardType(cardType)
 
 	// Parse issuing member state (1 byte)
-	issuingState := data[1]
-	cardNumber.SetCardIssuingMemberState(ddv1.NationNumeric(issuingState))
+	if issuingState, err := UnmarshalEnum[ddv1.NationNumeric](data[1]); err == nil {
+		cardNumber.SetCardIssuingMemberState(issuingState)
+	} else {
+		// Value not recognized - set UNRECOGNIZED (no unrecognized field for this type)
+		cardNumber.SetCardIssuingMemberState(ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED)
+	}
 
 	// Parse card number based on card type (16 bytes, may have padding)
 	cardNumberData := data[2:18]
@@ -106,7 +110,11 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 	dst = append(dst, cardTypeByte)
 
 	// Append issuing member state (1 byte)
-	dst = append(dst, byte(cardNumber.GetCardIssuingMemberState()))
+	issuingStateByte, err := MarshalEnum(cardNumber.GetCardIssuingMemberState())
+	if err != nil {
+		return nil, fmt.Errorf("failed to marshal issuing member state: %w", err)
+	}
+	dst = append(dst, issuingStateByte)
 
 	// Append card number based on card type (16 bytes with padding if needed)
 	switch cardNumber.GetCardType() {
-- 
2.43.0


From 3db1f3ddd82846d01a5597cc9fed749ad9dda910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 05/27] fix: decode and encode the card numbers of control
 cards

---
 internal/dd/full_card_number.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index 6e7b0ec..eb0b768 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -62,7 +62,7 @@ func (opts UnmarshalOptions) UnmarshalFullCardNumber(data []byte) (*ddv1.FullCar
 			return nil, fmt.Errorf("failed to parse driver identification: %w", err)
 		}
 		cardNumber.SetDriverIdentification(driverID)
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		// OwnerIdentification is 16 bytes (no padding)
 		ownerID, err := opts.UnmarshalOwnerIdentification(cardNumberData)
 		if err != nil {
@@ -131,7 +131,7 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 			// Empty driver ID: 16 zero bytes
 			dst = append(dst, make([]byte, 16)...)
 		}
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		if ownerID := cardNumber.GetOwnerIdentification(); ownerID != nil {
 			// OwnerIdentification is 16 bytes (no padding needed)
 			dst, err = AppendOwnerIdentification(dst, ownerID)
@@ -163,7 +163,7 @@ func AppendFullCardNumberAsString(dst []byte, cardNumber *ddv1.FullCardNumber, m
 		if driverID := cardNumber.GetDriverIdentification(); driverID != nil {
 			return AppendIa5StringValue(dst, driverID.GetDriverIdentificationNumber())
 		}
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		if ownerID := cardNumber.GetOwnerIdentification(); ownerID != nil {
 			return AppendIa5StringValue(dst, ownerID.GetOwnerIdentification())
 		}
-- 
2.43.0


From d8f604c9227450abc015a2d9709604de342c95a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 06/27] fix: keep the raw bytes of a VU card insertion record
 that have no field

---
 internal/dd/vu_card_iw_record.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/dd/vu_card_iw_record.go b/internal/dd/vu_card_iw_record.go
index c14147f..bf2ef01 100644
--- a/internal/dd/vu_card_iw_record.go
+++ b/internal/dd/vu_card_iw_record.go
@@ -165,7 +165,12 @@ func AppendVuCardIWRecord(dst []byte, record *ddv1.VuCardIWRecord) ([]byte, erro
 	if err != nil {
 		return nil, fmt.Errorf("failed to append full card number: %w", err)
 	}
-	copy(canvas[offset:offset+18], fullCardNumberBytes)
+	lenPainted := 18
+	if record.GetFullCardNumber().GetCardType() == ddv1.EquipmentType_DRIVER_CARD {
+		// The index bytes of a driver card number have no field in the message.
+		lenPainted = 16
+	}
+	copy(canvas[offset:offset+lenPainted], fullCardNumberBytes)
 	offset += 18
 
 	// cardExpiryDate (4 bytes)
@@ -217,7 +222,9 @@ func AppendVuCardIWRecord(dst []byte, record *ddv1.VuCardIWRecord) ([]byte, erro
 
 	// manualInputFlag (1 byte)
 	if record.GetManualInputFlag() {
-		canvas[offset] = 1
+		if canvas[offset] == 0 {
+			canvas[offset] = 1
+		}
 	} else {
 		canvas[offset] = 0
 	}
-- 
2.43.0


From 78a8f7dbed2f88ce32ca56df3fc24f33f5c07524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:56 +0000
Subject: [PATCH 07/27] fix: keep the padding of a VIN when encoding a vehicle
 record from raw data

---
 internal/dd/card_vehicle_record_g2.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/dd/card_vehicle_record_g2.go b/internal/dd/card_vehicle_record_g2.go
index f466497..524bd40 100644
--- a/internal/dd/card_vehicle_record_g2.go
+++ b/internal/dd/card_vehicle_record_g2.go
@@ -146,13 +146,16 @@ func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]
 
 	// VIN (17 bytes IA5String)
 	vin := record.GetVehicleIdentificationNumber()
-	vinBytes := make([]byte, 17)
-	copy(vinBytes, []byte(vin))
-	// Pad with spaces if shorter than 17 bytes
-	for i := len(vin); i < 17; i++ {
-		vinBytes[i] = ' '
+	// Raw data that already reads as this VIN keeps its own padding
+	if len(record.GetRawData()) == 0 || strings.TrimRight(string(canvas[31:48]), "\x00 ") != vin {
+		vinBytes := make([]byte, 17)
+		copy(vinBytes, []byte(vin))
+		// Pad with spaces if shorter than 17 bytes
+		for i := len(vin); i < 17; i++ {
+			vinBytes[i] = ' '
+		}
+		copy(canvas[31:48], vinBytes)
 	}
-	copy(canvas[31:48], vinBytes)
 
 	return append(dst, canvas[:]...), nil
 }
-- 
2.43.0


From ab0228c9d9de058234d93c980550412dbfb5a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 08/27] fix: reject times that TimeReal cannot represent

---
 internal/dd/time_real.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/dd/time_real.go b/internal/dd/time_real.go
index 568c20e..a36bfc7 100644
--- a/internal/dd/time_real.go
+++ b/internal/dd/time_real.go
@@ -3,6 +3,7 @@ package dd
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 	"time"
 
 	"google.golang.org/protobuf/types/known/timestamppb"
@@ -44,5 +45,8 @@ func AppendTimeReal(dst []byte, ts *timestamppb.Timestamp) ([]byte, error) {
 	if ts.GetNanos() > 0 {
 		return nil, fmt.Errorf("nanosecond resolution is not supported for TimeReal")
 	}
+	if sec := ts.GetSeconds(); sec < 0 || sec > math.MaxUint32 {
+		return nil, fmt.Errorf("time out of range for TimeReal: %d seconds", sec)
+	}
 	return binary.BigEndian.AppendUint32(dst, uint32(ts.GetSeconds())), nil
 }
-- 
2.43.0


From ba56d2242df6422cb44ec087fe4d9be9f12957d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 09/27] fix: reject coordinates that do not fit in three bytes

---
 internal/dd/geo_coordinates.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/dd/geo_coordinates.go b/internal/dd/geo_coordinates.go
index ecd2029..3ea5325 100644
--- a/internal/dd/geo_coordinates.go
+++ b/internal/dd/geo_coordinates.go
@@ -65,6 +65,11 @@ func readInt24(data []byte) int32 {
 //
 // Unknown position marker: 0x7FFFFF (8388607 decimal)
 func AppendGeoCoordinates(dst []byte, geoCoords *ddv1.GeoCoordinates) ([]byte, error) {
+	for _, val := range []int32{geoCoords.GetLatitude(), geoCoords.GetLongitude()} {
+		if val < -1<<23 || val >= 1<<23 {
+			return nil, fmt.Errorf("value out of range for GeoCoordinates: %d", val)
+		}
+	}
 	// Append latitude (3-byte signed integer)
 	dst = appendInt24(dst, geoCoords.GetLatitude())
 	// Append longitude (3-byte signed integer)
-- 
2.43.0


From 1af179022489acddc2a86f9d5b36fbb7c78b4b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 10/27] fix: reject dates that do not fit in eight decimal
 digits

---
 internal/dd/date.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/dd/date.go b/internal/dd/date.go
index 164eb01..21db82b 100644
--- a/internal/dd/date.go
+++ b/internal/dd/date.go
@@ -67,6 +67,9 @@ func AppendDate(dst []byte, date *ddv1.Date) ([]byte, error) {
 	year := int(date.GetYear())
 	month := int(date.GetMonth())
 	day := int(date.GetDay())
+	if year < 0 || year > 9999 || month < 0 || month > 99 || day < 0 || day > 99 {
+		return nil, fmt.Errorf("value out of range for Date: %d-%d-%d", year, month, day)
+	}
 	canvas[0] = byte((year/1000)%10<<4 | (year/100)%10)
 	canvas[1] = byte((year/10)%10<<4 | year%10)
 	canvas[2] = byte((month/10)%10<<4 | month%10)
-- 
2.43.0


From 774758651a40765d943821e65ea75671b0ac2c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 11/27] fix: decode and encode the replacement and renewal
 index of driver card numbers

---
 internal/dd/full_card_number.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index eb0b768..c1680b9 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -56,11 +56,21 @@ func (opts UnmarshalOptions) UnmarshalFullCardNumber(data []byte) (*ddv1.FullCar
 	cardNumberData := data[2:18]
 	switch cardType {
 	case ddv1.EquipmentType_DRIVER_CARD:
-		// DriverIdentification is 14 bytes + 2 bytes padding
+		// DriverIdentification is 14 bytes + replacement index (1 byte) + renewal index (1 byte)
 		driverID, err := opts.UnmarshalDriverIdentification(cardNumberData[:14])
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse driver identification: %w", err)
 		}
+		replacementIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[14:15])
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse card replacement index: %w", err)
+		}
+		driverID.SetCardReplacementIndex(replacementIndex)
+		renewalIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[15:16])
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse card renewal index: %w", err)
+		}
+		driverID.SetCardRenewalIndex(renewalIndex)
 		cardNumber.SetDriverIdentification(driverID)
 	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		// OwnerIdentification is 16 bytes (no padding)
@@ -120,13 +130,25 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 	switch cardNumber.GetCardType() {
 	case ddv1.EquipmentType_DRIVER_CARD:
 		if driverID := cardNumber.GetDriverIdentification(); driverID != nil {
-			// DriverIdentification is 14 bytes, pad to 16
+			// DriverIdentification is 14 bytes, followed by two one-byte indices
 			dst, err = AppendDriverIdentification(dst, driverID)
 			if err != nil {
 				return nil, fmt.Errorf("failed to append driver identification: %w", err)
 			}
-			// Add 2 bytes padding
-			dst = append(dst, 0x00, 0x00)
+			for _, index := range []*ddv1.Ia5StringValue{
+				driverID.GetCardReplacementIndex(),
+				driverID.GetCardRenewalIndex(),
+			} {
+				if index == nil {
+					// No index recorded
+					dst = append(dst, 0x00)
+					continue
+				}
+				dst, err = AppendIa5StringValue(dst, index)
+				if err != nil {
+					return nil, fmt.Errorf("failed to append card index: %w", err)
+				}
+			}
 		} else {
 			// Empty driver ID: 16 zero bytes
 			dst = append(dst, make([]byte, 16)...)
-- 
2.43.0


From 98095c57cf355c34ba308787d841065496a3cb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 12/27] fix: accept card file records of any 16-bit length

---
 internal/card/rawcardfile.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/card/rawcardfile.go b/internal/card/rawcardfile.go
index 9de8894..43c6a41 100644
--- a/internal/card/rawcardfile.go
+++ b/internal/card/rawcardfile.go
@@ -5,15 +5,20 @@ import (
 	"bytes"
 	"encoding/binary"
 	"io"
+	"math"
 
 	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 )
 
+// maxRecordSize is the size of the longest TLV record: 5 bytes header and a 16-bit length.
+const maxRecordSize = 5 + math.MaxUint16
+
 // UnmarshalRawCardFile parses raw card data.
 func UnmarshalRawCardFile(input []byte) (*cardv1.RawCardFile, error) {
 	var output cardv1.RawCardFile
 	sc := bufio.NewScanner(bytes.NewReader(input))
+	sc.Buffer(nil, maxRecordSize) // the default limit is shorter than the longest record
 	sc.Split(scanCardFile)
 	for sc.Scan() {
 		record, err := unmarshalRawCardFileRecord(sc.Bytes())
@@ -83,7 +88,7 @@ func unmarshalRawCardFileRecord(input []byte) (*cardv1.RawCardFile_Record, error
 	appendix := input[2]
 	output.SetTag((int32(fid) << 8) | int32(appendix))
 	// Parse length (2 bytes)
-	length := binary.BigEndian.Uint16(input[3:5])
+	length := int(binary.BigEndian.Uint16(input[3:5]))
 	output.SetLength(int32(length))
 	// Parse value - make a copy since input slice may be reused by scanner
 	value := make([]byte, length)
-- 
2.43.0


From 1e2a29ea1e938390533487e3c93585b008a9821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 13/27] fix: reject truncated vehicle unit transfers instead of
 panicking

---
 internal/vu/activities.go            | 8 ++++----
 internal/vu/card_download.go         | 2 +-
 internal/vu/detailed_speed.go        | 2 +-
 internal/vu/events_faults.go         | 8 ++++----
 internal/vu/overview.go              | 4 ++--
 internal/vu/raw_vehicle_unit_file.go | 4 ++--
 internal/vu/technical_data.go        | 2 +-
 7 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/internal/vu/activities.go b/internal/vu/activities.go
index 3d59e67..05e3f8b 100644
--- a/internal/vu/activities.go
+++ b/internal/vu/activities.go
@@ -57,7 +57,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += 3 // OdometerValueMidnight
 
 	// VuCardIWData: 2 bytes count + variable records
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfIWRecords")
 	}
 	noOfIWRecords := binary.BigEndian.Uint16(data[offset:])
@@ -71,7 +71,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfIWRecords) * vuCardIWRecordSize
 
 	// VuActivityDailyData: 2 bytes count + variable activity changes
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfActivityChanges")
 	}
 	noOfActivityChanges := binary.BigEndian.Uint16(data[offset:])
@@ -82,7 +82,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfActivityChanges) * activityChangeInfoSize
 
 	// VuPlaceDailyWorkPeriodData: 1 byte count + variable place records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfPlaceRecords")
 	}
 	noOfPlaceRecords := data[offset]
@@ -93,7 +93,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfPlaceRecords) * vuPlaceDailyWorkPeriodRecordSize
 
 	// VuSpecificConditionData: 2 bytes count + variable condition records
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfSpecificConditionRecords")
 	}
 	noOfSpecificConditionRecords := binary.BigEndian.Uint16(data[offset:])
diff --git a/internal/vu/card_download.go b/internal/vu/card_download.go
index fcfbba1..bf6b7b9 100644
--- a/internal/vu/card_download.go
+++ b/internal/vu/card_download.go
@@ -25,7 +25,7 @@ func sizeOfCardDownload(data []byte, transferType vuv1.TransferType) (int, error
 	for offset < len(data) {
 		// Need at least 5 bytes for TLV header (3-byte tag + 2-byte length)
 		const tlvHeaderSize = 5
-		if len(data[offset:]) < tlvHeaderSize {
+		if len(data)-offset < tlvHeaderSize {
 			// If we have less than a full header, we've reached the end
 			break
 		}
diff --git a/internal/vu/detailed_speed.go b/internal/vu/detailed_speed.go
index a2b4386..2988c66 100644
--- a/internal/vu/detailed_speed.go
+++ b/internal/vu/detailed_speed.go
@@ -37,7 +37,7 @@ func sizeOfDetailedSpeedGen1(data []byte) (int, error) {
 	offset := 0
 
 	// VuDetailedSpeedData: 2 bytes count + variable speed blocks
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfSpeedBlocks")
 	}
 	noOfSpeedBlocks := binary.BigEndian.Uint16(data[offset:])
diff --git a/internal/vu/events_faults.go b/internal/vu/events_faults.go
index 23b4f67..186cc51 100644
--- a/internal/vu/events_faults.go
+++ b/internal/vu/events_faults.go
@@ -77,7 +77,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset := 0
 
 	// VuFaultData: 1 byte count + variable fault records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuFaults")
 	}
 	noOfVuFaults := data[offset]
@@ -88,7 +88,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += int(noOfVuFaults) * vuFaultRecordSize
 
 	// VuEventData: 1 byte count + variable event records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuEvents")
 	}
 	noOfVuEvents := data[offset]
@@ -102,7 +102,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += 9
 
 	// VuOverSpeedingEventData: 1 byte count + variable overspeed records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuOverSpeedingEvents")
 	}
 	noOfVuOverSpeedingEvents := data[offset]
@@ -113,7 +113,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += int(noOfVuOverSpeedingEvents) * vuOverSpeedingEventRecordSize
 
 	// VuTimeAdjustmentData: 1 byte count + variable time adjustment records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuTimeAdjRecords")
 	}
 	noOfVuTimeAdjRecords := data[offset]
diff --git a/internal/vu/overview.go b/internal/vu/overview.go
index c33517e..ea726b2 100644
--- a/internal/vu/overview.go
+++ b/internal/vu/overview.go
@@ -58,7 +58,7 @@ func sizeOfOverviewGen1(data []byte) (int, error) {
 	offset += 58  // VuDownloadActivityData (4 + 18 + 36)
 
 	// VuCompanyLocksData: 1 byte count + variable records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfLocks")
 	}
 	noOfLocks := data[offset]
@@ -70,7 +70,7 @@ func sizeOfOverviewGen1(data []byte) (int, error) {
 	offset += int(noOfLocks) * vuCompanyLocksRecordSize
 
 	// VuControlActivityData: 1 byte count + variable records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfControls")
 	}
 	noOfControls := data[offset]
diff --git a/internal/vu/raw_vehicle_unit_file.go b/internal/vu/raw_vehicle_unit_file.go
index 5e82277..d52b1ec 100644
--- a/internal/vu/raw_vehicle_unit_file.go
+++ b/internal/vu/raw_vehicle_unit_file.go
@@ -100,8 +100,8 @@ func sizeOfTransferValue(data []byte, transferType vuv1.TransferType) (int, erro
 // Total size = 5 + (recordSize * noOfRecords)
 func sizeOfRecordArray(data []byte, offset int) (int, error) {
 	const headerSize = 5
-	if len(data[offset:]) < headerSize {
-		return 0, fmt.Errorf("insufficient data for RecordArray header: need %d, have %d", headerSize, len(data[offset:]))
+	if len(data)-offset < headerSize {
+		return 0, fmt.Errorf("insufficient data for RecordArray header: need %d, have %d", headerSize, len(data)-offset)
 	}
 
 	recordSize := binary.BigEndian.Uint16(data[offset+1:])
diff --git a/internal/vu/technical_data.go b/internal/vu/technical_data.go
index 5f1fbf6..9210b72 100644
--- a/internal/vu/technical_data.go
+++ b/internal/vu/technical_data.go
@@ -73,7 +73,7 @@ func sizeOfTechnicalDataGen1(data []byte) (int, error) {
 	offset += 20
 
 	// VuCalibrationData: 1 byte count + variable calibration records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuCalibrationRecords")
 	}
 	noOfVuCalibrationRecords := data[offset]
-- 
2.43.0


From f5a8a76e0d4f3b317073ab1e61eb88141fc90911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 14/27] fix: segment second-generation events and technical
 data by all their record arrays

---
 internal/vu/events_faults.go  |  8 -------
 internal/vu/technical_data.go | 41 ++++++++++++++++++++++++++++++++---
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/internal/vu/events_faults.go b/internal/vu/events_faults.go
index 186cc51..198b12b 100644
--- a/internal/vu/events_faults.go
+++ b/internal/vu/events_faults.go
@@ -179,7 +179,6 @@ func sizeOfEventsAndFaultsGen2V1(data []byte) (int, error) {
 }
 
 // sizeOfEventsAndFaultsGen2V2 calculates size by parsing all Gen2 V2 RecordArrays.
-// Gen2 V2 has an additional VuTimeAdjustmentGNSSRecordArray.
 func sizeOfEventsAndFaultsGen2V2(data []byte) (int, error) {
 	offset := 0
 
@@ -218,13 +217,6 @@ func sizeOfEventsAndFaultsGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// VuTimeAdjustmentGNSSRecordArray (Gen2 V2+)
-	size, err = sizeOfRecordArray(data, offset)
-	if err != nil {
-		return 0, fmt.Errorf("VuTimeAdjustmentGNSSRecordArray: %w", err)
-	}
-	offset += size
-
 	// SignatureRecordArray (last)
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
diff --git a/internal/vu/technical_data.go b/internal/vu/technical_data.go
index 9210b72..d4823fe 100644
--- a/internal/vu/technical_data.go
+++ b/internal/vu/technical_data.go
@@ -107,6 +107,13 @@ func sizeOfTechnicalDataGen2V1(data []byte) (int, error) {
 	}
 	offset += size
 
+	// SensorExternalGNSSCoupledRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("SensorExternalGNSSCoupledRecordArray: %w", err)
+	}
+	offset += size
+
 	// VuCalibrationRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
@@ -114,6 +121,27 @@ func sizeOfTechnicalDataGen2V1(data []byte) (int, error) {
 	}
 	offset += size
 
+	// VuCardRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuCardRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuITSConsentRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuITSConsentRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuPowerSupplyInterruptionRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuPowerSupplyInterruptionRecordArray: %w", err)
+	}
+	offset += size
+
 	// SignatureRecordArray (last)
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
@@ -142,7 +170,7 @@ func sizeOfTechnicalDataGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// SensorExternalGNSSCoupledRecordArray (Gen2 V2+)
+	// SensorExternalGNSSCoupledRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
 		return 0, fmt.Errorf("SensorExternalGNSSCoupledRecordArray: %w", err)
@@ -156,14 +184,21 @@ func sizeOfTechnicalDataGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// VuITSConsentRecordArray (Gen2 V2+)
+	// VuCardRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuCardRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuITSConsentRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
 		return 0, fmt.Errorf("VuITSConsentRecordArray: %w", err)
 	}
 	offset += size
 
-	// VuPowerSupplyInterruptionRecordArray (Gen2 V2+)
+	// VuPowerSupplyInterruptionRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
 		return 0, fmt.Errorf("VuPowerSupplyInterruptionRecordArray: %w", err)
-- 
2.43.0


From 685323358d81302d780dfa47a22deabeb7c8155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 15/27] fix: accept second-generation activities and events
 transfers with all their record arrays

---
 internal/vu/activities_gen2_v1.go    |  5 +++++
 internal/vu/activities_gen2_v2.go    | 15 +++++++++++++++
 internal/vu/events_faults_gen2_v1.go |  4 ++++
 internal/vu/events_faults_gen2_v2.go |  4 ++++
 4 files changed, 28 insertions(+)

diff --git a/internal/vu/activities_gen2_v1.go b/internal/vu/activities_gen2_v1.go
index 16aa91f..dba7955 100644
--- a/internal/vu/activities_gen2_v1.go
+++ b/internal/vu/activities_gen2_v1.go
@@ -75,6 +75,11 @@ func unmarshalActivitiesGen2V1(value []byte) (*vuv1.ActivitiesGen2V1, error) {
 		return nil, err
 	}
 
+	// VuGNSSADRecordArray
+	if err := skipRecordArray("VuGNSSAD"); err != nil {
+		return nil, err
+	}
+
 	// SignatureRecordArray (last)
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
diff --git a/internal/vu/activities_gen2_v2.go b/internal/vu/activities_gen2_v2.go
index 082db25..fc54a21 100644
--- a/internal/vu/activities_gen2_v2.go
+++ b/internal/vu/activities_gen2_v2.go
@@ -75,6 +75,21 @@ func unmarshalActivitiesGen2V2(value []byte) (*vuv1.ActivitiesGen2V2, error) {
 		return nil, err
 	}
 
+	// VuGNSSADRecordArray
+	if err := skipRecordArray("VuGNSSAD"); err != nil {
+		return nil, err
+	}
+
+	// VuBorderCrossingRecordArray
+	if err := skipRecordArray("VuBorderCrossing"); err != nil {
+		return nil, err
+	}
+
+	// VuLoadUnloadRecordArray
+	if err := skipRecordArray("VuLoadUnload"); err != nil {
+		return nil, err
+	}
+
 	// SignatureRecordArray (last)
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
diff --git a/internal/vu/events_faults_gen2_v1.go b/internal/vu/events_faults_gen2_v1.go
index 2d8103b..0f1f8c8 100644
--- a/internal/vu/events_faults_gen2_v1.go
+++ b/internal/vu/events_faults_gen2_v1.go
@@ -39,6 +39,10 @@ func unmarshalEventsAndFaultsGen2V1(value []byte) (*vuv1.EventsAndFaultsGen2V1,
 	if err := skipRecordArray("VuOverSpeedingControl"); err != nil {
 		return nil, err
 	}
+	// VuOverSpeedingEventRecordArray
+	if err := skipRecordArray("VuOverSpeedingEvent"); err != nil {
+		return nil, err
+	}
 	// VuTimeAdjustmentRecordArray
 	if err := skipRecordArray("VuTimeAdjustment"); err != nil {
 		return nil, err
diff --git a/internal/vu/events_faults_gen2_v2.go b/internal/vu/events_faults_gen2_v2.go
index b1f381e..c6e1416 100644
--- a/internal/vu/events_faults_gen2_v2.go
+++ b/internal/vu/events_faults_gen2_v2.go
@@ -39,6 +39,10 @@ func unmarshalEventsAndFaultsGen2V2(value []byte) (*vuv1.EventsAndFaultsGen2V2,
 	if err := skipRecordArray("VuOverSpeedingControl"); err != nil {
 		return nil, err
 	}
+	// VuOverSpeedingEventRecordArray
+	if err := skipRecordArray("VuOverSpeedingEvent"); err != nil {
+		return nil, err
+	}
 	// VuTimeAdjustmentRecordArray
 	if err := skipRecordArray("VuTimeAdjustment"); err != nil {
 		return nil, err
-- 
2.43.0


From 90542b68539fe114013c00f2a9c7f7e1dbbc5f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 16/27] fix: reject truncated data in UnmarshalVuActivities
 instead of panicking

---
 internal/vu/activities.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/internal/vu/activities.go b/internal/vu/activities.go
index 05e3f8b..93586c3 100644
--- a/internal/vu/activities.go
+++ b/internal/vu/activities.go
@@ -303,6 +303,9 @@ func unmarshalVuActivitiesGen1(data []byte, offset int, target *vuv1.Activities)
 	target.SetDateOfDay(timestamppb.New(time.Unix(timeReal, 0)))
 
 	// Read OdometerValueMidnight (3 bytes)
+	if offset+3 > len(data) {
+		return 0, fmt.Errorf("insufficient data for odometer value midnight")
+	}
 	odometerValue, err := opts.UnmarshalOdometer(data[offset : offset+3])
 	if err != nil {
 		return 0, fmt.Errorf("failed to read odometer value midnight: %w", err)
@@ -627,6 +630,9 @@ func parseVuActivityDailyData(data []byte, offset int) ([]*ddv1.ActivityChangeIn
 // parseActivityChangeInfo parses a single ActivityChangeInfo record (legacy function for Gen1)
 func parseActivityChangeInfo(data []byte, offset int) (*ddv1.ActivityChangeInfo, int, error) {
 	var opts dd.UnmarshalOptions
+	if offset+2 > len(data) {
+		return nil, offset, fmt.Errorf("insufficient data for activity change")
+	}
 	change, err := opts.UnmarshalActivityChangeInfo(data[offset : offset+2])
 	if err != nil {
 		return nil, offset, err
@@ -709,6 +715,9 @@ func unmarshalVuPlaceRecord(data []byte) (*vuv1.Activities_PlaceRecord, error) {
 
 // parseVuPlaceRecord parses a single PlaceRecord (legacy function for Gen1)
 func parseVuPlaceRecord(data []byte, offset int) (*vuv1.Activities_PlaceRecord, int, error) {
+	if offset+10 > len(data) {
+		return nil, offset, fmt.Errorf("insufficient data for place record")
+	}
 	record, err := unmarshalVuPlaceRecord(data[offset : offset+10])
 	if err != nil {
 		return nil, offset, err
@@ -746,6 +755,9 @@ func parseVuSpecificConditionData(data []byte, offset int) ([]*ddv1.SpecificCond
 // parseVuSpecificConditionRecord parses a single SpecificConditionRecord (legacy function for Gen1)
 func parseVuSpecificConditionRecord(data []byte, offset int) (*ddv1.SpecificConditionRecord, int, error) {
 	var opts dd.UnmarshalOptions
+	if offset+5 > len(data) {
+		return nil, offset, fmt.Errorf("insufficient data for specific condition record")
+	}
 	record, err := opts.UnmarshalSpecificConditionRecord(data[offset : offset+5])
 	if err != nil {
 		return nil, offset, err
@@ -849,6 +861,9 @@ func parseOdometerValueMidnightRecordArray(data []byte, offset int) ([]int32, in
 
 	// Parse each OdometerShort record
 	for i := 0; i < int(noOfRecords); i++ {
+		if offset+3 > len(data) {
+			return nil, offset, fmt.Errorf("insufficient data for OdometerShort record")
+		}
 		odometerValue, err := opts.UnmarshalOdometer(data[offset : offset+3])
 		if err != nil {
 			return nil, offset, fmt.Errorf("failed to read OdometerShort record %d: %w", i, err)
@@ -975,6 +990,9 @@ func parseVuCardIWRecordGen2(data []byte, offset int) (*vuv1.Activities_CardIWRe
 	record.SetCardInsertionTime(timestamppb.New(time.Unix(insertionTime, 0)))
 
 	// Parse vehicleOdometerValueAtInsertion (OdometerShort - 3 bytes)
+	if offset+3 > len(data) {
+		return nil, offset, fmt.Errorf("insufficient data for odometer at insertion")
+	}
 	odometerAtInsertion, err := opts.UnmarshalOdometer(data[offset : offset+3])
 	if err != nil {
 		return nil, offset, fmt.Errorf("failed to read odometer at insertion: %w", err)
@@ -997,6 +1015,9 @@ func parseVuCardIWRecordGen2(data []byte, offset int) (*vuv1.Activities_CardIWRe
 	record.SetCardWithdrawalTime(timestamppb.New(time.Unix(withdrawalTime, 0)))
 
 	// Parse vehicleOdometerValueAtWithdrawal (OdometerShort - 3 bytes)
+	if offset+3 > len(data) {
+		return nil, offset, fmt.Errorf("insufficient data for odometer at withdrawal")
+	}
 	odometerAtWithdrawal, err := opts.UnmarshalOdometer(data[offset : offset+3])
 	if err != nil {
 		return nil, offset, fmt.Errorf("failed to read odometer at withdrawal: %w", err)
-- 
2.43.0


From 82312b51077fd6cdd6d10186b2375ab00d18b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:55 +0000
Subject: [PATCH 17/27] fix: follow driver activity records that wrap around
 the buffer and accept more than 366 of them

---
 internal/card/activity.go | 41 ++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 061c706..0bd5a4d 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -261,7 +261,7 @@ func appendDriverActivity(dst []byte, activity *cardv1.DriverActivityData) ([]by
 type cyclicRecordIterator struct {
 	buffer      []byte
 	currentPos  int
-	recordCount int
+	totalLength int // total length of the records visited so far
 	err         error
 
 	// Current record state
@@ -283,24 +283,18 @@ func NewCyclicRecordIterator(buffer []byte, startPos int) *cyclicRecordIterator
 // Returns true if a record was found, false if end of chain or error.
 // The iterator traverses backwards from newest to oldest record.
 func (it *cyclicRecordIterator) Next() bool {
-	const maxRecords = 366 // Safety limit to prevent infinite loops (max days per year + 1)
 	if it.err != nil {
 		return false
 	}
-	if it.recordCount >= maxRecords {
-		it.err = fmt.Errorf("exceeded maximum record count (%d), possible infinite loop", maxRecords)
-		return false
-	}
-	if len(it.buffer) == 0 {
-		return false // No data to parse
+	if it.currentPos < 0 || it.currentPos >= len(it.buffer) {
+		return false // No data to parse, or end of chain
 	}
-	// Validate current position for reading header
-	if it.currentPos < 0 || it.currentPos+4 > len(it.buffer) {
-		return false // Invalid position for header
+	if len(it.buffer) < 4 {
+		return false // No room for a record header
 	}
-	// Read record header (4 bytes: prevRecordLength + currentRecordLength)
-	prevRecordLength := int(binary.BigEndian.Uint16(it.buffer[it.currentPos : it.currentPos+2]))
-	currentRecordLength := int(binary.BigEndian.Uint16(it.buffer[it.currentPos+2 : it.currentPos+4]))
+	// Read record header (4 bytes: prevRecordLength + currentRecordLength), handling buffer wrap-around
+	prevRecordLength := int(it.byteAt(0))<<8 | int(it.byteAt(1))
+	currentRecordLength := int(it.byteAt(2))<<8 | int(it.byteAt(3))
 	if currentRecordLength == 0 {
 		return false // Zero-length record signifies end of chain
 	}
@@ -309,15 +303,20 @@ func (it *cyclicRecordIterator) Next() bool {
 		it.err = fmt.Errorf("invalid record length %d at position %d", currentRecordLength, it.currentPos)
 		return false
 	}
+	// The records of a chain do not overlap; a chain longer than the buffer would never end.
+	if currentRecordLength > len(it.buffer)-it.totalLength {
+		it.err = fmt.Errorf("record at position %d exceeds the cyclic buffer, possible infinite loop", it.currentPos)
+		return false
+	}
+	it.totalLength += currentRecordLength
 	// Store current record information
 	it.recordStart = it.currentPos
 	it.recordLength = currentRecordLength
 	// Extract record bytes, handling buffer wrap-around
 	it.recordBytes = make([]byte, currentRecordLength)
 	for i := 0; i < currentRecordLength; i++ {
-		it.recordBytes[i] = it.buffer[(it.currentPos+i)%len(it.buffer)]
+		it.recordBytes[i] = it.byteAt(i)
 	}
-	it.recordCount++
 	// Move to previous record for next iteration
 	if prevRecordLength == 0 {
 		// End of chain marker - no more records
@@ -332,6 +331,16 @@ func (it *cyclicRecordIterator) Next() bool {
 	return true
 }
 
+// byteAt returns the byte at the given offset (less than the buffer size) from the current position,
+// handling buffer wrap-around.
+func (it *cyclicRecordIterator) byteAt(offset int) byte {
+	pos := it.currentPos + offset
+	if pos >= len(it.buffer) {
+		pos -= len(it.buffer)
+	}
+	return it.buffer[pos]
+}
+
 // Record returns the bytes of the current record along with its position and length
 // in the original buffer. This information is needed for the buffer painting strategy.
 func (it *cyclicRecordIterator) Record() (recordBytes []byte, position int, length int) {
-- 
2.43.0


From 51f998a4f755e7cbc5487bc3da07a6d8cb942de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:53 +0000
Subject: [PATCH 18/27] fix: accept first-generation VU places with undefined
 entry type or country codes

One place record with a code outside the enumeration made the whole
vehicle unit file unreadable, while the card's place records keep it as
UNRECOGNIZED. The transfer's bytes are kept in raw_data either way.
---
 internal/vu/activities_gen1.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/internal/vu/activities_gen1.go b/internal/vu/activities_gen1.go
index 0c280b5..27f0a61 100644
--- a/internal/vu/activities_gen1.go
+++ b/internal/vu/activities_gen1.go
@@ -163,19 +163,21 @@ func unmarshalActivitiesGen1(value []byte) (*vuv1.ActivitiesGen1, error) {
 		recordOffset += 4
 
 		// entryTypeDailyWorkPeriod (1 byte)
-		entryType, err := dd.UnmarshalEnum[ddv1.EntryTypeDailyWorkPeriod](value[offset+recordOffset])
-		if err != nil {
-			return nil, fmt.Errorf("unmarshal entry type: %w", err)
+		if entryType, err := dd.UnmarshalEnum[ddv1.EntryTypeDailyWorkPeriod](value[offset+recordOffset]); err == nil {
+			record.SetEntryType(entryType)
+		} else {
+			// Value not recognized - set UNRECOGNIZED (no unrecognized field for this type)
+			record.SetEntryType(ddv1.EntryTypeDailyWorkPeriod_ENTRY_TYPE_DAILY_WORK_PERIOD_UNRECOGNIZED)
 		}
-		record.SetEntryType(entryType)
 		recordOffset += 1
 
 		// dailyWorkPeriodCountry (1 byte)
-		country, err := dd.UnmarshalEnum[ddv1.NationNumeric](value[offset+recordOffset])
-		if err != nil {
-			return nil, fmt.Errorf("unmarshal country: %w", err)
+		if country, err := dd.UnmarshalEnum[ddv1.NationNumeric](value[offset+recordOffset]); err == nil {
+			record.SetCountry(country)
+		} else {
+			// Value not recognized - set UNRECOGNIZED (no unrecognized field for this type)
+			record.SetCountry(ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED)
 		}
-		record.SetCountry(country)
 		recordOffset += 1
 
 		// dailyWorkPeriodRegion (1 byte)
-- 
2.43.0


From 72c6114acb9894afc731f17449c1e57184036077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:37 +0000
Subject: [PATCH 19/27] fix: attach a signature record only to the file of its
 own generation

---
 internal/card/driver_card_file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 1da85a1..f2b4564 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -71,7 +71,7 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 		var signature []byte
 		if i+1 < len(input.GetRecords()) {
 			nextRecord := input.GetRecords()[i+1]
-			if nextRecord.GetFile() == record.GetFile() && nextRecord.GetContentType() == cardv1.ContentType_SIGNATURE {
+			if nextRecord.GetFile() == record.GetFile() && nextRecord.GetGeneration() == efGeneration && nextRecord.GetContentType() == cardv1.ContentType_SIGNATURE {
 				signature = nextRecord.GetValue()
 				i++
 			}
-- 
2.43.0


From beee6bbe214464c77c8ab59d953d6df9ab2856f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:42 +0000
Subject: [PATCH 20/27] fix: do not store a generation 1 record of a generation
 2 file

---
 internal/card/driver_card_file.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index f2b4564..74e94da 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -450,6 +450,10 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			}
 
 		case cardv1.ElementaryFileType_EF_VEHICLE_UNITS_USED:
+			// Only appears in Gen2 DF (Tachograph_G2)
+			if efGeneration != ddv1.Generation_GENERATION_2 {
+				return nil, fmt.Errorf("EF_VEHICLE_UNITS_USED should only appear in Gen2 DF, got generation: %v", efGeneration)
+			}
 			vehicleUnits, err := opts.unmarshalVehicleUnitsUsed(record.GetValue())
 			if err != nil {
 				return nil, err
@@ -458,13 +462,16 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 				vehicleUnits.SetSignature(signature)
 			}
 
-			// Only Gen2
 			if tachographG2DF == nil {
 				tachographG2DF = &cardv1.DriverCardFile_TachographG2{}
 			}
 			tachographG2DF.SetVehicleUnitsUsed(vehicleUnits)
 
 		case cardv1.ElementaryFileType_EF_GNSS_PLACES:
+			// Only appears in Gen2 DF (Tachograph_G2)
+			if efGeneration != ddv1.Generation_GENERATION_2 {
+				return nil, fmt.Errorf("EF_GNSS_PLACES should only appear in Gen2 DF, got generation: %v", efGeneration)
+			}
 			gnssPlaces, err := opts.unmarshalGnssPlaces(record.GetValue())
 			if err != nil {
 				return nil, err
@@ -473,13 +480,16 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 				gnssPlaces.SetSignature(signature)
 			}
 
-			// Only Gen2
 			if tachographG2DF == nil {
 				tachographG2DF = &cardv1.DriverCardFile_TachographG2{}
 			}
 			tachographG2DF.SetGnssPlaces(gnssPlaces)
 
 		case cardv1.ElementaryFileType_EF_APPLICATION_IDENTIFICATION_V2:
+			// Only appears in Gen2 DF (Tachograph_G2)
+			if efGeneration != ddv1.Generation_GENERATION_2 {
+				return nil, fmt.Errorf("EF_APPLICATION_IDENTIFICATION_V2 should only appear in Gen2 DF, got generation: %v", efGeneration)
+			}
 			appIdV2, err := opts.unmarshalApplicationIdentificationV2(record.GetValue())
 			if err != nil {
 				return nil, err
@@ -488,7 +498,6 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 				appIdV2.SetSignature(signature)
 			}
 
-			// Only Gen2
 			if tachographG2DF == nil {
 				tachographG2DF = &cardv1.DriverCardFile_TachographG2{}
 			}
-- 
2.43.0


From 418ca332f61ffc394c5eab5748b6c7b5ce00f971 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:05:25 +0000
Subject: [PATCH 21/27] fix: slice event and fault records from the EF value
 instead of the scanner's buffer

The records with begin time zero kept a slice of bufio.Scanner's buffer, which
is overwritten when the EF is longer than the buffer; and trailing bytes that
make no whole record were dropped silently.
---
 internal/card/events.go | 27 +++++----------------------
 internal/card/faults.go | 27 +++++----------------------
 2 files changed, 10 insertions(+), 44 deletions(-)

diff --git a/internal/card/events.go b/internal/card/events.go
index 7419d2c..b6a6e82 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -1,8 +1,6 @@
 package card
 
 import (
-	"bufio"
-	"bytes"
 	"encoding/binary"
 	"fmt"
 
@@ -31,25 +29,14 @@ const (
 	cardEventRecordSize = 24
 )
 
-// splitCardEventRecord returns a SplitFunc that splits data into 24-byte event records
-func splitCardEventRecord(data []byte, atEOF bool) (advance int, token []byte, err error) {
-	if len(data) < cardEventRecordSize {
-		if atEOF {
-			return 0, nil, nil // No more complete records, but not an error
-		}
-		return 0, nil, nil // Need more data
-	}
-
-	return cardEventRecordSize, data[:cardEventRecordSize], nil
-}
-
 func (opts UnmarshalOptions) unmarshalEventsData(data []byte) (*cardv1.EventsData, error) {
-	scanner := bufio.NewScanner(bytes.NewReader(data))
-	scanner.Split(splitCardEventRecord)
+	if len(data)%cardEventRecordSize != 0 {
+		return nil, fmt.Errorf("invalid data length for CardEventData: got %d bytes, not a multiple of %d", len(data), cardEventRecordSize)
+	}
 
 	var records []*cardv1.EventsData_Record
-	for scanner.Scan() {
-		recordData := scanner.Bytes()
+	for offset := 0; offset < len(data); offset += cardEventRecordSize {
+		recordData := data[offset : offset+cardEventRecordSize]
 		// Check if this is a valid record by examining the event begin time (first 4 bytes after event type)
 		// Event type is 1 byte, so event begin time starts at byte 1
 		eventBeginTime := binary.BigEndian.Uint32(recordData[1:5])
@@ -70,10 +57,6 @@ func (opts UnmarshalOptions) unmarshalEventsData(data []byte) (*cardv1.EventsDat
 		}
 	}
 
-	if err := scanner.Err(); err != nil {
-		return nil, err
-	}
-
 	// Use simplified schema with single events array in chronological order
 	var ed cardv1.EventsData
 	ed.SetEvents(records)
diff --git a/internal/card/faults.go b/internal/card/faults.go
index 7c2724f..5b78618 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -1,8 +1,6 @@
 package card
 
 import (
-	"bufio"
-	"bytes"
 	"encoding/binary"
 	"fmt"
 
@@ -31,25 +29,14 @@ const (
 	cardFaultRecordSize = 24
 )
 
-// splitCardFaultRecord returns a SplitFunc that splits data into 24-byte fault records
-func splitCardFaultRecord(data []byte, atEOF bool) (advance int, token []byte, err error) {
-	if len(data) < cardFaultRecordSize {
-		if atEOF {
-			return 0, nil, nil // No more complete records, but not an error
-		}
-		return 0, nil, nil // Need more data
-	}
-
-	return cardFaultRecordSize, data[:cardFaultRecordSize], nil
-}
-
 func (opts UnmarshalOptions) unmarshalFaultsData(data []byte) (*cardv1.FaultsData, error) {
-	scanner := bufio.NewScanner(bytes.NewReader(data))
-	scanner.Split(splitCardFaultRecord)
+	if len(data)%cardFaultRecordSize != 0 {
+		return nil, fmt.Errorf("invalid data length for CardFaultData: got %d bytes, not a multiple of %d", len(data), cardFaultRecordSize)
+	}
 
 	var records []*cardv1.FaultsData_Record
-	for scanner.Scan() {
-		recordData := scanner.Bytes()
+	for offset := 0; offset < len(data); offset += cardFaultRecordSize {
+		recordData := data[offset : offset+cardFaultRecordSize]
 		// Check if this is a valid record by examining the fault begin time (first 4 bytes after fault type)
 		// Fault type is 1 byte, so fault begin time starts at byte 1
 		faultBeginTime := binary.BigEndian.Uint32(recordData[1:5])
@@ -71,10 +58,6 @@ func (opts UnmarshalOptions) unmarshalFaultsData(data []byte) (*cardv1.FaultsDat
 		records = append(records, rec)
 	}
 
-	if err := scanner.Err(); err != nil {
-		return nil, err
-	}
-
 	// Use simplified schema with single faults array in chronological order
 	var fd cardv1.FaultsData
 	fd.SetFaults(records)
-- 
2.43.0


From 417091ddc1cfbb809b3c996198919620b082c2bd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:05:25 +0000
Subject: [PATCH 22/27] fix: copy record bytes out of the scanner's buffer

The raw data kept by vehicle unit and GNSS records was a slice of
bufio.Scanner's buffer, which later records overwrite.
---
 internal/card/gnss_places.go        | 2 +-
 internal/card/vehicle_units_used.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/card/gnss_places.go b/internal/card/gnss_places.go
index e4fc1b5..8e57a1f 100644
--- a/internal/card/gnss_places.go
+++ b/internal/card/gnss_places.go
@@ -89,7 +89,7 @@ func parseGNSSAccumulatedDrivingRecords(data []byte, opts UnmarshalOptions) ([]*
 
 	var records []*cardv1.GnssPlaces_Record
 	for scanner.Scan() {
-		record, err := unmarshalGNSSAccumulatedDrivingRecord(scanner.Bytes(), opts)
+		record, err := unmarshalGNSSAccumulatedDrivingRecord(bytes.Clone(scanner.Bytes()), opts)
 		if err != nil {
 			return nil, fmt.Errorf("failed to unmarshal GNSS accumulated driving record: %w", err)
 		}
diff --git a/internal/card/vehicle_units_used.go b/internal/card/vehicle_units_used.go
index 8d8e680..bf7a13f 100644
--- a/internal/card/vehicle_units_used.go
+++ b/internal/card/vehicle_units_used.go
@@ -91,7 +91,7 @@ func parseCardVehicleUnitRecords(data []byte, opts UnmarshalOptions) ([]*cardv1.
 
 	var records []*cardv1.VehicleUnitsUsed_Record
 	for scanner.Scan() {
-		record, err := unmarshalCardVehicleUnitRecord(scanner.Bytes(), opts)
+		record, err := unmarshalCardVehicleUnitRecord(bytes.Clone(scanner.Bytes()), opts)
 		if err != nil {
 			return nil, fmt.Errorf("failed to unmarshal vehicle unit record: %w", err)
 		}
-- 
2.43.0


From 6283e090fb34195cda8293eee570cbbefd1c4886 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:05:25 +0000
Subject: [PATCH 23/27] fix: reject card record lists whose length does not fit
 their layout

A trailing partial record was dropped silently, and an undecodable specific
condition record ended the list without an error.
---
 internal/card/places.go                 | 4 ++++
 internal/card/places_g2.go              | 4 ++++
 internal/card/specific_conditions.go    | 6 +++++-
 internal/card/specific_conditions_g2.go | 8 ++++++--
 internal/card/vehicles_used.go          | 4 ++++
 internal/card/vehicles_used_g2.go       | 4 ++++
 6 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/internal/card/places.go b/internal/card/places.go
index 80e1ab8..6764085 100644
--- a/internal/card/places.go
+++ b/internal/card/places.go
@@ -20,6 +20,10 @@ func (opts UnmarshalOptions) unmarshalPlaces(data []byte) (*cardv1.Places, error
 		return nil, fmt.Errorf("insufficient data for places: got %d bytes, need at least 1", len(data))
 	}
 
+	if (len(data)-1)%10 != 0 {
+		return nil, fmt.Errorf("invalid data length for places: got %d bytes of records, not a multiple of 10", len(data)-1)
+	}
+
 	target := &cardv1.Places{}
 
 	// Save complete raw data for painting
diff --git a/internal/card/places_g2.go b/internal/card/places_g2.go
index 89b5525..d2f155f 100644
--- a/internal/card/places_g2.go
+++ b/internal/card/places_g2.go
@@ -21,6 +21,10 @@ func (opts UnmarshalOptions) unmarshalPlacesG2(data []byte) (*cardv1.PlacesG2, e
 		return nil, fmt.Errorf("insufficient data for places: got %d bytes, need at least 2", len(data))
 	}
 
+	if (len(data)-2)%21 != 0 {
+		return nil, fmt.Errorf("invalid data length for places: got %d bytes of records, not a multiple of 21", len(data)-2)
+	}
+
 	target := &cardv1.PlacesG2{}
 
 	// Save complete raw data for painting
diff --git a/internal/card/specific_conditions.go b/internal/card/specific_conditions.go
index bc62edc..6ae93cc 100644
--- a/internal/card/specific_conditions.go
+++ b/internal/card/specific_conditions.go
@@ -29,6 +29,10 @@ func (opts UnmarshalOptions) unmarshalSpecificConditions(data []byte) (*cardv1.S
 		return &target, nil
 	}
 
+	if len(data)%lenSpecificConditionRecord != 0 {
+		return nil, fmt.Errorf("invalid data length for specific conditions: got %d bytes, not a multiple of %d", len(data), lenSpecificConditionRecord)
+	}
+
 	var target cardv1.SpecificConditions
 
 	// Save complete raw data for painting
@@ -41,7 +45,7 @@ func (opts UnmarshalOptions) unmarshalSpecificConditions(data []byte) (*cardv1.S
 	for offset+lenSpecificConditionRecord <= len(data) {
 		record, err := opts.UnmarshalSpecificConditionRecord(data[offset : offset+lenSpecificConditionRecord])
 		if err != nil {
-			break // Stop parsing on error, but return what we have
+			return nil, fmt.Errorf("failed to parse specific condition record: %w", err)
 		}
 		records = append(records, record)
 		offset += lenSpecificConditionRecord
diff --git a/internal/card/specific_conditions_g2.go b/internal/card/specific_conditions_g2.go
index 0df51c6..a506c3e 100644
--- a/internal/card/specific_conditions_g2.go
+++ b/internal/card/specific_conditions_g2.go
@@ -30,6 +30,10 @@ func (opts UnmarshalOptions) unmarshalSpecificConditionsG2(data []byte) (*cardv1
 		return nil, fmt.Errorf("insufficient data for Gen2 specific conditions: got %d bytes, need at least %d", len(data), lenPointer)
 	}
 
+	if (len(data)-lenPointer)%lenSpecificConditionRecord != 0 {
+		return nil, fmt.Errorf("invalid data length for Gen2 specific conditions: got %d bytes of records, not a multiple of %d", len(data)-lenPointer, lenSpecificConditionRecord)
+	}
+
 	target := &cardv1.SpecificConditionsG2{}
 
 	// Save complete raw data for painting (includes pointer + records + trailing bytes)
@@ -47,7 +51,7 @@ func (opts UnmarshalOptions) unmarshalSpecificConditionsG2(data []byte) (*cardv1
 	for offset+lenSpecificConditionRecord <= len(recordsData) {
 		record, err := opts.UnmarshalSpecificConditionRecord(recordsData[offset : offset+lenSpecificConditionRecord])
 		if err != nil {
-			break // Stop parsing on error, but return what we have
+			return nil, fmt.Errorf("failed to parse specific condition record: %w", err)
 		}
 		records = append(records, record)
 		offset += lenSpecificConditionRecord
@@ -73,7 +77,7 @@ func appendCardSpecificConditionsG2(data []byte, conditions *cardv1.SpecificCond
 	}
 
 	// Use raw_data as canvas if available (includes pointer + records + trailing bytes)
-	if rawData := conditions.GetRawData(); len(rawData) > 0 {
+	if rawData := conditions.GetRawData(); len(rawData) >= 2 {
 		const (
 			lenPointer = 2
 			recordSize = 5
diff --git a/internal/card/vehicles_used.go b/internal/card/vehicles_used.go
index ef945c9..1bb15bb 100644
--- a/internal/card/vehicles_used.go
+++ b/internal/card/vehicles_used.go
@@ -21,6 +21,10 @@ func (opts UnmarshalOptions) unmarshalVehiclesUsed(data []byte) (*cardv1.Vehicle
 		return nil, fmt.Errorf("insufficient data for vehicles used: got %d bytes, need at least %d", len(data), lenMinEfVehiclesUsed)
 	}
 
+	if (len(data)-lenMinEfVehiclesUsed)%31 != 0 {
+		return nil, fmt.Errorf("invalid data length for vehicles used: got %d bytes of records, not a multiple of 31", len(data)-lenMinEfVehiclesUsed)
+	}
+
 	var target cardv1.VehiclesUsed
 
 	// Save complete raw data for painting
diff --git a/internal/card/vehicles_used_g2.go b/internal/card/vehicles_used_g2.go
index 1694a59..2d2d828 100644
--- a/internal/card/vehicles_used_g2.go
+++ b/internal/card/vehicles_used_g2.go
@@ -21,6 +21,10 @@ func (opts UnmarshalOptions) unmarshalVehiclesUsedG2(data []byte) (*cardv1.Vehic
 		return nil, fmt.Errorf("insufficient data for vehicles used: got %d bytes, need at least %d", len(data), lenMinEfVehiclesUsed)
 	}
 
+	if (len(data)-lenMinEfVehiclesUsed)%48 != 0 {
+		return nil, fmt.Errorf("invalid data length for vehicles used: got %d bytes of records, not a multiple of 48", len(data)-lenMinEfVehiclesUsed)
+	}
+
 	var target cardv1.VehiclesUsedG2
 
 	// Save complete raw data for painting
-- 
2.43.0


From f5e054991bd368ea8b2ffe5c6c3e9eec3c2aa1be Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 24/27] fix: encode every odometer value a GNSS record can hold

Values above 999999 km decode (the field is 24 bits wide) but were refused by
the encoder, so such a file could not be written back.
---
 internal/card/gnss_places.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/card/gnss_places.go b/internal/card/gnss_places.go
index 8e57a1f..cafa0e9 100644
--- a/internal/card/gnss_places.go
+++ b/internal/card/gnss_places.go
@@ -218,7 +218,7 @@ func appendGNSSAccumulatedDrivingRecord(dst []byte, record *cardv1.GnssPlaces_Re
 
 	// Append vehicle odometer (OdometerShort - 3 bytes)
 	odometer := record.GetVehicleOdometerKm()
-	if odometer < 0 || odometer > 999999 {
+	if odometer < 0 || odometer > 0xFFFFFF {
 		return nil, fmt.Errorf("invalid vehicle odometer value: %d", odometer)
 	}
 	dst = dd.AppendOdometer(dst, uint32(odometer))
-- 
2.43.0


From d90c37f5f12a5770192e7827995b6834402d358f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 25/27] fix: decode the control card number of EF
 Control_Activity_Data by its layout

The card type and the issuing member state were read as the first characters of
a driver identification, other card types were lost, and the reserved bits of
the control type were dropped; the encoder did not give back the same bytes.
Content longer than the layout is refused instead of being cut.
---
 internal/card/control_activity.go | 52 ++++++-------------------------
 1 file changed, 9 insertions(+), 43 deletions(-)

diff --git a/internal/card/control_activity.go b/internal/card/control_activity.go
index 3810245..7efcbf6 100644
--- a/internal/card/control_activity.go
+++ b/internal/card/control_activity.go
@@ -29,8 +29,8 @@ func (opts UnmarshalOptions) unmarshalControlActivityData(data []byte) (*cardv1.
 		lenCardControlActivityDataRecord = 46 // CardControlActivityDataRecord total size
 	)
 
-	if len(data) < lenCardControlActivityDataRecord {
-		return nil, fmt.Errorf("insufficient data for control activity data")
+	if len(data) != lenCardControlActivityDataRecord {
+		return nil, fmt.Errorf("invalid data length for control activity data: got %d, want %d", len(data), lenCardControlActivityDataRecord)
 	}
 	var target cardv1.ControlActivityData
 	controlTime := binary.BigEndian.Uint32(data[1:5])
@@ -65,28 +65,18 @@ func (opts UnmarshalOptions) unmarshalControlActivityData(data []byte) (*cardv1.
 	target.SetControlTime(controlTimestamp)
 	offset += 4
 
-	// Read control card number (18 bytes) - this should be parsed as a proper FullCardNumberAndGeneration
-	// For now, create a basic structure - this needs proper protocol parsing
+	// Read control card number (18 bytes)
 	fullCardNumberAndGeneration := &ddv1.FullCardNumberAndGeneration{}
 
-	fullCardNumber := &ddv1.FullCardNumber{}
-	fullCardNumber.SetCardType(ddv1.EquipmentType_DRIVER_CARD)
-
-	// Read the card number as IA5 string
 	if offset+18 > len(data) {
 		return nil, fmt.Errorf("insufficient data for control card number")
 	}
-	cardNumberStr, err := opts.UnmarshalIa5StringValue(data[offset : offset+18])
+	fullCardNumber, err := opts.UnmarshalFullCardNumber(data[offset : offset+18])
 	if err != nil {
 		return nil, fmt.Errorf("failed to read control card number: %w", err)
 	}
 	offset += 18
 
-	// Create driver identification with the card number
-	driverID := &ddv1.DriverIdentification{}
-	driverID.SetDriverIdentificationNumber(cardNumberStr)
-	fullCardNumber.SetDriverIdentification(driverID)
-
 	// Set the full card number in the generation wrapper
 	fullCardNumberAndGeneration.SetFullCardNumber(fullCardNumber)
 	// Default to Generation 1 for now - this should be determined from context
@@ -161,35 +151,11 @@ func appendCardControlActivityData(data []byte, controlData *cardv1.ControlActiv
 
 	// Valid record: serialize semantic data
 	// Control type (1 byte)
-	controlType := controlData.GetControlType()
-	var controlTypeByte byte
-	if controlType != nil {
-		// Build bitmask from boolean fields
-		// Structure: 'cvpdexxx'B
-		// - 'c': card downloading
-		// - 'v': VU downloading
-		// - 'p': printing
-		// - 'd': display
-		// - 'e': calibration checking
-		if controlType.GetCardDownloading() {
-			controlTypeByte |= 0x80 // bit 7
-		}
-		if controlType.GetVuDownloading() {
-			controlTypeByte |= 0x40 // bit 6
-		}
-		if controlType.GetPrinting() {
-			controlTypeByte |= 0x20 // bit 5
-		}
-		if controlType.GetDisplay() {
-			controlTypeByte |= 0x10 // bit 4
-		}
-		if controlType.GetCalibrationChecking() {
-			controlTypeByte |= 0x08 // bit 3
-		}
-	}
-	data = append(data, controlTypeByte)
-
 	var err error
+	data, err = dd.AppendControlType(data, controlData.GetControlType())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append control type: %w", err)
+	}
 
 	// Control time (4 bytes)
 	data, err = dd.AppendTimeReal(data, controlData.GetControlTime())
@@ -198,7 +164,7 @@ func appendCardControlActivityData(data []byte, controlData *cardv1.ControlActiv
 	}
 
 	// Control card number (18 bytes)
-	data, err = dd.AppendFullCardNumberAsString(data, controlData.GetControlCardNumber().GetFullCardNumber(), 18)
+	data, err = dd.AppendFullCardNumber(data, controlData.GetControlCardNumber().GetFullCardNumber())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 83587d4e015c48991877e0131604f23a994b3201 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 26/27] fix: refuse card files longer than their fixed layout

EF ICC, IC, Card_Download, Current_Usage and Driving_Licence_Info ignored
trailing bytes, which were lost when the file was written back.
---
 internal/card/card_download.go   | 4 ++--
 internal/card/current_usage.go   | 4 ++--
 internal/card/driving_licence.go | 5 ++---
 internal/card/ic.go              | 4 ++--
 internal/card/icc.go             | 5 ++---
 5 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/internal/card/card_download.go b/internal/card/card_download.go
index a0aa448..9db670f 100644
--- a/internal/card/card_download.go
+++ b/internal/card/card_download.go
@@ -20,8 +20,8 @@ func (opts UnmarshalOptions) unmarshalCardDownload(data []byte) (*cardv1.CardDow
 		lenCardDownloadDriver = 4 // TimeReal size
 	)
 
-	if len(data) < lenCardDownloadDriver {
-		return nil, fmt.Errorf("insufficient data for card download")
+	if len(data) != lenCardDownloadDriver {
+		return nil, fmt.Errorf("invalid data length for card download: got %d, want %d", len(data), lenCardDownloadDriver)
 	}
 
 	var target cardv1.CardDownloadDriver
diff --git a/internal/card/current_usage.go b/internal/card/current_usage.go
index a6de7f7..fb0cf35 100644
--- a/internal/card/current_usage.go
+++ b/internal/card/current_usage.go
@@ -23,8 +23,8 @@ func (opts UnmarshalOptions) unmarshalCurrentUsage(data []byte) (*cardv1.Current
 		lenCardCurrentUse = 19 // 4 bytes time + 15 bytes vehicle registration
 	)
 
-	if len(data) < lenCardCurrentUse {
-		return nil, fmt.Errorf("insufficient data for current usage")
+	if len(data) != lenCardCurrentUse {
+		return nil, fmt.Errorf("invalid data length for current usage: got %d, want %d", len(data), lenCardCurrentUse)
 	}
 	var target cardv1.CurrentUsage
 	offset := 0
diff --git a/internal/card/driving_licence.go b/internal/card/driving_licence.go
index 9b044ce..971ff80 100644
--- a/internal/card/driving_licence.go
+++ b/internal/card/driving_licence.go
@@ -1,7 +1,6 @@
 package card
 
 import (
-	"errors"
 	"fmt"
 
 	"github.com/way-platform/tachograph-go/internal/dd"
@@ -26,8 +25,8 @@ func (opts UnmarshalOptions) unmarshalDrivingLicenceInfo(data []byte) (*cardv1.D
 		lenCardDrivingLicenceInformation = 53 // CardDrivingLicenceInformation total size
 	)
 
-	if len(data) < lenCardDrivingLicenceInformation {
-		return nil, errors.New("not enough data for DrivingLicenceInfo")
+	if len(data) != lenCardDrivingLicenceInformation {
+		return nil, fmt.Errorf("invalid data length for DrivingLicenceInfo: got %d, want %d", len(data), lenCardDrivingLicenceInformation)
 	}
 	var dli cardv1.DrivingLicenceInfo
 	offset := 0
diff --git a/internal/card/ic.go b/internal/card/ic.go
index 43677e9..e207193 100644
--- a/internal/card/ic.go
+++ b/internal/card/ic.go
@@ -24,8 +24,8 @@ func (opts UnmarshalOptions) unmarshalIc(data []byte) (*cardv1.Ic, error) {
 		lenCardChipIdentification    = lenIcSerialNumber + lenIcManufacturingReferences
 	)
 
-	if len(data) < lenCardChipIdentification {
-		return nil, fmt.Errorf("insufficient data for IC identification: got %d bytes, need %d", len(data), lenCardChipIdentification)
+	if len(data) != lenCardChipIdentification {
+		return nil, fmt.Errorf("invalid data length for IC identification: got %d bytes, want %d", len(data), lenCardChipIdentification)
 	}
 
 	var target cardv1.Ic
diff --git a/internal/card/icc.go b/internal/card/icc.go
index 8606bee..c95b24c 100644
--- a/internal/card/icc.go
+++ b/internal/card/icc.go
@@ -2,7 +2,6 @@ package card
 
 import (
 	"encoding/binary"
-	"errors"
 	"fmt"
 
 	"github.com/way-platform/tachograph-go/internal/dd"
@@ -37,8 +36,8 @@ func (opts UnmarshalOptions) unmarshalIcc(data []byte) (*cardv1.Icc, error) {
 	)
 
 	var icc cardv1.Icc
-	if len(data) < lenCardIccIdentification {
-		return nil, errors.New("not enough data for IccIdentification")
+	if len(data) != lenCardIccIdentification {
+		return nil, fmt.Errorf("invalid data length for IccIdentification: got %d, want %d", len(data), lenCardIccIdentification)
 	}
 	offset := 0
 
-- 
2.43.0


From 8ad59320e614322a5bae8d28972f99cb00824fe4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:59:33 +0000
Subject: [PATCH 27/27] fix: encode the card number of EF Identification from
 its bytes

---
 internal/card/identification.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index fd549cc..8813569 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -333,7 +333,7 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 		identification := driverID.GetDriverIdentificationNumber()
 		if identification != nil {
 			// Pad or truncate to exactly 14 bytes
-			identStr := identification.GetValue()
+			identStr := ia5Content(identification, 14)
 			if len(identStr) > 14 {
 				identStr = identStr[:14]
 			}
@@ -345,14 +345,14 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 		}
 		// Write replacement and renewal indices (1 byte each)
 		replacementIndex := driverID.GetCardReplacementIndex()
-		if replacementIndex != nil && len(replacementIndex.GetValue()) > 0 {
-			cardNumberBytes[14] = replacementIndex.GetValue()[0]
+		if content := ia5Content(replacementIndex, 1); len(content) > 0 {
+			cardNumberBytes[14] = content[0]
 		} else {
 			cardNumberBytes[14] = '0' // Default replacement index
 		}
 		renewalIndex := driverID.GetCardRenewalIndex()
-		if renewalIndex != nil && len(renewalIndex.GetValue()) > 0 {
-			cardNumberBytes[15] = renewalIndex.GetValue()[0]
+		if content := ia5Content(renewalIndex, 1); len(content) > 0 {
+			cardNumberBytes[15] = content[0]
 		} else {
 			cardNumberBytes[15] = '0' // Default renewal index
 		}
@@ -361,7 +361,7 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 		identification := ownerID.GetOwnerIdentification()
 		if identification != nil {
 			// Pad or truncate to exactly 13 bytes
-			identStr := identification.GetValue()
+			identStr := ia5Content(identification, 13)
 			if len(identStr) > 13 {
 				identStr = identStr[:13]
 			}
@@ -374,7 +374,7 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 		consecutive := ownerID.GetConsecutiveIndex()
 		if consecutive != nil {
 			// Convert string to byte value
-			consecutiveStr := consecutive.GetValue()
+			consecutiveStr := ia5Content(consecutive, 1)
 			if len(consecutiveStr) > 0 {
 				cardNumberBytes[13] = consecutiveStr[0]
 			}
@@ -382,7 +382,7 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 		replacement := ownerID.GetReplacementIndex()
 		if replacement != nil {
 			// Convert string to byte value
-			replacementStr := replacement.GetValue()
+			replacementStr := ia5Content(replacement, 1)
 			if len(replacementStr) > 0 {
 				cardNumberBytes[14] = replacementStr[0]
 			}
@@ -390,7 +390,7 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 		renewal := ownerID.GetRenewalIndex()
 		if renewal != nil {
 			// Convert string to byte value
-			renewalStr := renewal.GetValue()
+			renewalStr := ia5Content(renewal, 1)
 			if len(renewalStr) > 0 {
 				cardNumberBytes[15] = renewalStr[0]
 			}
@@ -416,6 +416,14 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 	return dst, nil
 }
 
+// ia5Content returns the bytes a fixed-length string was read from, or its value when they are not known.
+func ia5Content(sv *ddv1.Ia5StringValue, length int) string {
+	if raw := sv.GetRawData(); len(raw) == length {
+		return string(raw)
+	}
+	return sv.GetValue()
+}
+
 // AppendDriverCardHolderIdentification appends the binary representation of DriverCardHolderIdentification to dst.
 //
 // The data type `DriverCardHolderIdentification` is specified in the Data Dictionary, Section 2.1.
-- 
2.43.0

