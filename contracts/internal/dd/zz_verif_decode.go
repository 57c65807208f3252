package dd

import (
	"bytes"
	"strings"
	"unicode/utf8"

	"github.com/way-platform/tachograph-go/internal/vc"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	"golang.org/x/text/encoding/charmap"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// Decoding lemmas: every field against the offset, width, byte order and bit position of Annex 1C, appendix 1.

func vTime(ts *timestamppb.Timestamp, b []byte) bool {
	v := vBE(b)
	return (ts == nil) == (v == 0) && ts.GetSeconds() == int64(v) && ts.GetNanos() == 0
}

func vOdo(km int32, b []byte) bool { return km == int32(vBE(b)) }

// vCutset: white space, filler bytes of strings.
const vCutset = "\t\n\v\f\r \x85\xA0\x00\xFF"

func vUTF8(s string) string {
	if !utf8.ValidString(s) {
		return strings.ToValidUTF8(s, "\uFFFD")
	}
	return s
}

func vIA5(b []byte) string { return vUTF8(string(bytes.Trim(b, vCutset))) }

func vPageEncoding(page byte) ddv1.Encoding {
	switch page {
	case 0:
		return ddv1.Encoding_ENCODING_DEFAULT
	case 1:
		return ddv1.Encoding_ISO_8859_1
	case 2:
		return ddv1.Encoding_ISO_8859_2
	case 3:
		return ddv1.Encoding_ISO_8859_3
	case 5:
		return ddv1.Encoding_ISO_8859_5
	case 7:
		return ddv1.Encoding_ISO_8859_7
	case 9:
		return ddv1.Encoding_ISO_8859_9
	case 13:
		return ddv1.Encoding_ISO_8859_13
	case 15:
		return ddv1.Encoding_ISO_8859_15
	case 16:
		return ddv1.Encoding_ISO_8859_16
	case 80:
		return ddv1.Encoding_KOI8_R
	case 85:
		return ddv1.Encoding_KOI8_U
	case 255:
		return ddv1.Encoding_ENCODING_EMPTY
	}
	return ddv1.Encoding_ENCODING_UNRECOGNIZED
}

func vPageMap(page byte) *charmap.Charmap {
	switch page {
	case 2:
		return charmap.ISO8859_2
	case 3:
		return charmap.ISO8859_3
	case 5:
		return charmap.ISO8859_5
	case 7:
		return charmap.ISO8859_7
	case 9:
		return charmap.ISO8859_9
	case 13:
		return charmap.ISO8859_13
	case 15:
		return charmap.ISO8859_15
	case 16:
		return charmap.ISO8859_16
	case 80:
		return charmap.KOI8R
	case 85:
		return charmap.KOI8U
	}
	return charmap.ISO8859_1
}

func vPageText(page byte, b []byte) string {
	s, err := vPageMap(page).NewDecoder().String(string(b))
	if err != nil {
		return ""
	}
	return vUTF8(string(bytes.Trim([]byte(s), vCutset)))
}

//vc:lemma C05 C08
func vStringValueDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalStringValue(data)
	vc.Assert((err == nil) == (len(data) >= 2), "a code page and at least one byte are needed")
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.AssertBytes(m.GetRawData(), data, "raw data kept")
	vc.Assert(int(m.GetLength()) == int(int32(len(data)-1)), "length")
	vc.Assert(m.GetEncoding() == vPageEncoding(data[0]), "encoding")
	if data[0] == 255 {
		vc.Assert(m.GetValue() == "", "no information")
	}
}

//vc:lemma C05
func vStringValueText(o UnmarshalOptions, data []byte, k int) {
	if len(data) < 2 || k < 1 || k >= len(data) {
		return
	}
	vc.Assume(data[0] != 255 && data[k] != 0 && data[k] != 255)
	m, err := o.UnmarshalStringValue(data)
	vc.Assert(err == nil, "decodes")
	vc.Reach("decoded")
	vc.At(k - 1)
	vc.At(k)
	vc.AssertString(m.GetValue(), vPageText(data[0], data[1:]), "text in the code page")
}

//vc:lemma C08
func vCodePages(e ddv1.Encoding, page byte) {
	if x := getEncodingFromCodePage(page); x != ddv1.Encoding_ENCODING_UNRECOGNIZED {
		vc.Assert(getCodePageFromEncoding(x) == page, "the same code page is encoded")
	}
	vc.Assert(getEncodingFromCodePage(page) == vPageEncoding(page), "the code page's own encoding")
	if p := getCodePageFromEncoding(e); p != 255 {
		vc.Assert(getEncodingFromCodePage(p) == e, "decodes to the same encoding")
	}
}

//vc:lemma C05
func vIa5StringDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalIa5StringValue(data)
	vc.Assert((err == nil) == (len(data) >= 1), "at least one byte is needed")
	if err != nil {
		return
	}
	vc.AssertBytes(m.GetRawData(), data, "raw data kept")
	vc.Assert(int(m.GetLength()) == int(int32(len(data))), "length")
	vc.AssertString(m.GetValue(), vIA5(data), "text")
}

//vc:lemma C05
func vActivityChangeInfoDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalActivityChangeInfo(data)
	vc.Assert((err == nil) == (len(data) == 2), "exactly two bytes are accepted")
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.AssertBytes(m.GetRawData(), data, "raw data kept")
	v := vBE(data)
	slot, _ := vTableCardSlotNumber(byte(v >> 15))
	act, _ := vTableDriverActivityValue(byte(v >> 11 & 3))
	vc.Assert(m.GetSlot() == slot, "slot is bit 15")
	vc.Assert(m.GetCrew() == (v>>14&1 == 1), "crew is bit 14")
	vc.Assert(m.GetInserted() == (v>>13&1 == 0), "inserted is bit 13 clear")
	vc.Assert(m.GetActivity() == act, "activity is bits 12-11")
	vc.Assert(m.GetTimeOfChangeMinutes() == int32(v%2048), "time is bits 10-0")
}

//vc:lemma C05
func vCardStructureVersionDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalCardStructureVersion(data)
	vc.Assert((err == nil) == (len(data) == 2), "exactly two bytes are accepted")
	if err != nil {
		return
	}
	vc.AssertBytes(m.GetRawData(), data, "raw data kept")
	if vDigit(data[0]) && vDigit(data[1]) {
		vc.Reach("valid digits")
		vc.Assert(m.GetMajor() == vBCD(data[0]), "major")
		vc.Assert(m.GetMinor() == vBCD(data[1]), "minor")
	}
}

//vc:lemma C05
func vCardVehicleRecordDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalCardVehicleRecord(data)
	digits := len(data) == 31 && vDigit(data[29]) && vDigit(data[30])
	vc.Assert((err == nil) == digits, "31 bytes with a decimal counter are accepted")
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.AssertBytes(m.GetRawData(), data, "raw data kept")
	vc.Assert(vOdo(m.GetVehicleOdometerBeginKm(), data[0:3]), "odometer begin")
	vc.Assert(vOdo(m.GetVehicleOdometerEndKm(), data[3:6]), "odometer end")
	vc.Assert(vTime(m.GetVehicleFirstUse(), data[6:10]), "first use")
	vc.Assert(vTime(m.GetVehicleLastUse(), data[10:14]), "last use")
	reg, _ := o.UnmarshalVehicleRegistration(data[14:29])
	vc.AssertMsg(m.GetVehicleRegistration(), reg, "registration")
	vc.Assert(m.GetVuDataBlockCounter().GetValue() == vBCD(data[29])*100+vBCD(data[30]), "counter")
	vc.Assert(m.GetVuDataBlockCounter().GetLength() == 2, "counter length")
}

//vc:lemma C05
func vCardVehicleRecordG2Decode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalCardVehicleRecordG2(data)
	digits := len(data) == 48 && vDigit(data[29]) && vDigit(data[30])
	vc.Assert((err == nil) == digits, "48 bytes with a decimal counter are accepted")
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.AssertBytes(m.GetRawData(), data, "raw data kept")
	vc.Assert(vOdo(m.GetVehicleOdometerBeginKm(), data[0:3]), "odometer begin")
	vc.Assert(vOdo(m.GetVehicleOdometerEndKm(), data[3:6]), "odometer end")
	vc.Assert(vTime(m.GetVehicleFirstUse(), data[6:10]), "first use")
	vc.Assert(vTime(m.GetVehicleLastUse(), data[10:14]), "last use")
	reg, _ := o.UnmarshalVehicleRegistration(data[14:29])
	vc.AssertMsg(m.GetVehicleRegistration(), reg, "registration")
	vc.Assert(m.GetVuDataBlockCounter().GetValue() == vBCD(data[29])*100+vBCD(data[30]), "counter")
	vc.AssertString(m.GetVehicleIdentificationNumber(), strings.TrimRight(string(data[31:48]), "\x00 "), "VIN")
}

//vc:lemma C05
func vControlTypeDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalControlType(data)
	vc.Assert((err == nil) == (len(data) == 1), "exactly one byte is accepted")
	if err != nil {
		return
	}
	vc.AssertBytes(m.GetRawData(), data, "raw data kept")
	vc.Assert(m.GetCardDownloading() == (data[0]/128 == 1), "card downloading is bit 7")
	vc.Assert(m.GetVuDownloading() == (data[0]/64%2 == 1), "VU downloading is bit 6")
	vc.Assert(m.GetPrinting() == (data[0]/32%2 == 1), "printing is bit 5")
	vc.Assert(m.GetDisplay() == (data[0]/16%2 == 1), "display is bit 4")
	vc.Assert(m.GetCalibrationChecking() == (data[0]/8%2 == 1), "calibration checking is bit 3")
}

//vc:lemma C05
func vDriverIdentificationDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalDriverIdentification(data)
	vc.Assert((err == nil) == (len(data) == 14), "exactly 14 bytes are accepted")
	if err != nil {
		return
	}
	id, _ := o.UnmarshalIa5StringValue(data[:14])
	vc.AssertMsg(m.GetDriverIdentificationNumber(), id, "identification number")
}

//vc:lemma C05
func vOwnerIdentificationDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalOwnerIdentification(data)
	vc.Assert((err == nil) == (len(data) == 16), "exactly 16 bytes are accepted")
	if err != nil {
		return
	}
	a, _ := o.UnmarshalIa5StringValue(data[0:13])
	b, _ := o.UnmarshalIa5StringValue(data[13:14])
	c, _ := o.UnmarshalIa5StringValue(data[14:15])
	d, _ := o.UnmarshalIa5StringValue(data[15:16])
	vc.AssertMsg(m.GetOwnerIdentification(), a, "identification")
	vc.AssertMsg(m.GetConsecutiveIndex(), b, "consecutive index")
	vc.AssertMsg(m.GetReplacementIndex(), c, "replacement index")
	vc.AssertMsg(m.GetRenewalIndex(), d, "renewal index")
}

//vc:lemma C05 C18
func vMonthYearDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalMonthYear(data)
	vc.Assert((err == nil) == (len(data) == 2), "exactly two bytes are accepted")
	if err != nil {
		return
	}
	vc.AssertBytes(m.GetRawData(), data, "raw data kept")
	switch {
	case !vDigit(data[0]) || !vDigit(data[1]), data[0] == 0 && data[1] == 0:
		vc.Reach("no month")
		vc.Assert(m.GetMonth() == 0 && m.GetYear() == 0, "no month and year")
	default:
		vc.Reach("month")
		vc.Assert(m.GetMonth() == vBCD(data[0]), "month")
		vc.Assert(m.GetYear() == 2000+vBCD(data[1]), "year")
	}
}

//vc:lemma C05
func vExtendedSerialNumberDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalExtendedSerialNumber(data)
	vc.Assert((err == nil) == (len(data) == 8), "exactly eight bytes are accepted")
	if err != nil {
		return
	}
	vc.Assert(m.GetSerialNumber() == int64(vBE(data[0:4])), "serial number")
	my, _ := o.UnmarshalMonthYear(data[4:6])
	vc.AssertMsg(m.GetMonthYear(), my, "month and year")
	want, ok := vTableEquipmentType(data[6])
	if ok {
		vc.Assert(m.GetType() == want, "type")
	} else {
		vc.Assert(m.GetType() == ddv1.EquipmentType_EQUIPMENT_TYPE_UNRECOGNIZED, "undefined type")
	}
	vc.Assert(m.GetManufacturerCode() == int32(data[7]), "manufacturer code")
}

//vc:lemma C05
func vFullCardNumberDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalFullCardNumber(data)
	vc.Assert((err == nil) == (len(data) == 18 && data[0] >= 1 && data[0] <= 4), "18 bytes of a card of a defined kind are accepted")
	if err != nil {
		return
	}
	vc.Reach("decoded")
	typ, _ := vTableEquipmentType(data[0])
	vc.Assert(m.GetCardType() == typ, "card type")
	n, ok := vTableNationNumeric(data[1])
	if ok {
		vc.Assert(m.GetCardIssuingMemberState() == n, "issuing member state")
	} else {
		vc.Assert(m.GetCardIssuingMemberState() == ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED, "undefined member state")
	}
	if data[0] == 1 {
		vc.Reach("driver card")
		d, _ := o.UnmarshalDriverIdentification(data[2:16])
		vc.AssertMsg(m.GetDriverIdentification().GetDriverIdentificationNumber(), d.GetDriverIdentificationNumber(), "driver identification")
		ri, _ := o.UnmarshalIa5StringValue(data[16:17])
		vc.AssertMsg(m.GetDriverIdentification().GetCardReplacementIndex(), ri, "replacement index")
		rn, _ := o.UnmarshalIa5StringValue(data[17:18])
		vc.AssertMsg(m.GetDriverIdentification().GetCardRenewalIndex(), rn, "renewal index")
		vc.Assert(m.GetOwnerIdentification() == nil, "no owner identification")
	} else {
		vc.Reach("other card")
		w, _ := o.UnmarshalOwnerIdentification(data[2:18])
		vc.AssertMsg(m.GetOwnerIdentification(), w, "owner identification")
		vc.Assert(m.GetDriverIdentification() == nil, "no driver identification")
	}
}

//vc:lemma C05
func vFullCardNumberAndGenerationDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalFullCardNumberAndGeneration(data)
	vc.Assert((err == nil) == (len(data) == 19 && data[0] >= 1 && data[0] <= 4 && (data[18] == 1 || data[18] == 2)), "19 bytes of a card of a defined kind and generation are accepted")
	if err != nil {
		return
	}
	vc.Reach("decoded")
	f, _ := o.UnmarshalFullCardNumber(data[0:18])
	vc.AssertMsg(m.GetFullCardNumber(), f, "card number")
	g, _ := vTableGeneration(data[18])
	vc.Assert(m.GetGeneration() == g, "generation")
}

//vc:lemma C05 C18
func vGeoCoordinatesDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalGeoCoordinates(data)
	vc.Assert((err == nil) == (len(data) == 6), "exactly six bytes are accepted")
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.Assert(m.GetLatitude() == vInt24(data[0:3]), "latitude")
	vc.Assert(m.GetLongitude() == vInt24(data[3:6]), "longitude")
}

func vInt24(b []byte) int32 {
	v := int32(vBE(b))
	if v >= 1<<23 {
		return v - 1<<24
	}
	return v
}

//vc:lemma C18 C07
func vGeoCoordinatesEncode(m *ddv1.GeoCoordinates, dst []byte) {
	pre := vc.Snap(dst)
	lat, lon := m.GetLatitude(), m.GetLongitude()
	out, err := AppendGeoCoordinates(dst, m)
	vc.Assert((err == nil) == (lat >= -(1<<23) && lat < 1<<23 && lon >= -(1<<23) && lon < 1<<23), "exactly the 24-bit range is encoded")
	if err != nil {
		return
	}
	vc.Reach("in range")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.Assert(len(out) == len(pre)+6, "adds six bytes")
	vc.Assert(vInt24(out[len(pre):len(pre)+3]) == lat, "latitude")
	vc.Assert(vInt24(out[len(pre)+3:]) == lon, "longitude")
}

//vc:lemma C05
func vGNSSPlaceRecordDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalGNSSPlaceRecord(data)
	vc.Assert((err == nil) == (len(data) == 11), "exactly 11 bytes are accepted")
	if err != nil {
		return
	}
	vc.Assert(vTime(m.GetTimestamp(), data[0:4]), "time stamp")
	vc.Assert(m.GetGnssAccuracy() == int32(data[4]), "accuracy")
	g, _ := o.UnmarshalGeoCoordinates(data[5:11])
	vc.AssertMsg(m.GetGeoCoordinates(), g, "coordinates")
}

//vc:lemma C05
func vGNSSPlaceAuthRecordDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalGNSSPlaceAuthRecord(data)
	vc.Assert((err == nil) == (len(data) == 12), "exactly 12 bytes are accepted")
	if err != nil {
		return
	}
	vc.Assert(vTime(m.GetTimestamp(), data[0:4]), "time stamp")
	vc.Assert(m.GetGnssAccuracy() == int32(data[4]), "accuracy")
	g, _ := o.UnmarshalGeoCoordinates(data[5:11])
	vc.AssertMsg(m.GetGeoCoordinates(), g, "coordinates")
	want, ok := vTablePositionAuthenticationStatus(data[11])
	if ok {
		vc.Assert(m.GetAuthenticationStatus() == want, "authentication status")
	} else {
		vc.Assert(m.GetAuthenticationStatus() == ddv1.PositionAuthenticationStatus_POSITION_AUTHENTICATION_STATUS_UNRECOGNIZED, "undefined status")
		vc.Assert(m.GetUnrecognizedAuthenticationStatus() == int32(data[11]), "undefined status kept")
	}
}

//vc:lemma C05
func vHolderNameDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalHolderName(data)
	vc.Assert((err == nil) == (len(data) == 72), "exactly 72 bytes are accepted")
	if err != nil {
		return
	}
	a, _ := o.UnmarshalStringValue(data[0:36])
	b, _ := o.UnmarshalStringValue(data[36:72])
	vc.AssertMsg(m.GetHolderSurname(), a, "surname")
	vc.AssertMsg(m.GetHolderFirstNames(), b, "first names")
}

func vEntryType(got ddv1.EntryTypeDailyWorkPeriod, code int32, b byte) bool {
	want, ok := vTableEntryTypeDailyWorkPeriod(b)
	if ok {
		return got == want
	}
	return got == ddv1.EntryTypeDailyWorkPeriod_ENTRY_TYPE_DAILY_WORK_PERIOD_UNRECOGNIZED && code == int32(b)
}

func vNation(got ddv1.NationNumeric, code int32, b byte) bool {
	want, ok := vTableNationNumeric(b)
	if ok {
		return got == want
	}
	return got == ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED && code == int32(b)
}

//vc:lemma C05
func vPlaceRecordDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalPlaceRecord(data)
	vc.Assert((err == nil) == (len(data) == 10), "exactly ten bytes are accepted")
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.AssertBytes(m.GetRawData(), data, "raw data kept")
	vc.Assert(vTime(m.GetEntryTime(), data[0:4]), "entry time")
	vc.Assert(vEntryType(m.GetEntryTypeDailyWorkPeriod(), m.GetUnrecognizedEntryTypeDailyWorkPeriod(), data[4]), "entry type")
	vc.Assert(vNation(m.GetDailyWorkPeriodCountry(), m.GetUnrecognizedDailyWorkPeriodCountry(), data[5]), "country")
	vc.AssertBytes(m.GetDailyWorkPeriodRegion(), data[6:7], "region")
	vc.Assert(vOdo(m.GetVehicleOdometerKm(), data[7:10]), "odometer")
}

//vc:lemma C05
func vPlaceRecordG2Decode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalPlaceRecordG2(data)
	vc.Assert((err == nil) == (len(data) == 21), "exactly 21 bytes are accepted")
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.AssertBytes(m.GetRawData(), data, "raw data kept")
	vc.Assert(vTime(m.GetEntryTime(), data[0:4]), "entry time")
	vc.Assert(vEntryType(m.GetEntryTypeDailyWorkPeriod(), m.GetUnrecognizedEntryTypeDailyWorkPeriod(), data[4]), "entry type")
	vc.Assert(vNation(m.GetDailyWorkPeriodCountry(), m.GetUnrecognizedDailyWorkPeriodCountry(), data[5]), "country")
	vc.AssertBytes(m.GetDailyWorkPeriodRegion(), data[6:7], "region")
	vc.Assert(vOdo(m.GetVehicleOdometerKm(), data[7:10]), "odometer")
	g, _ := o.UnmarshalGNSSPlaceRecord(data[10:21])
	vc.AssertMsg(m.GetEntryGnssPlaceRecord(), g, "GNSS record")
}

//vc:lemma C05
func vPreviousVehicleInfoDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalPreviousVehicleInfo(data)
	vc.Assert((err == nil) == (len(data) == 19), "exactly 19 bytes are accepted")
	if err != nil {
		return
	}
	vc.AssertBytes(m.GetRawData(), data, "raw data kept")
	reg, _ := o.UnmarshalVehicleRegistration(data[0:15])
	vc.AssertMsg(m.GetVehicleRegistration(), reg, "registration")
	vc.Assert(vTime(m.GetCardWithdrawalTime(), data[15:19]), "withdrawal time")
}

//vc:lemma C05
func vPreviousVehicleInfoG2Decode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalPreviousVehicleInfoG2(data)
	vc.Assert((err == nil) == (len(data) == 20 && (data[19] == 1 || data[19] == 2)), "20 bytes with a defined generation are accepted")
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.AssertBytes(m.GetRawData(), data, "raw data kept")
	reg, _ := o.UnmarshalVehicleRegistration(data[0:15])
	vc.AssertMsg(m.GetVehicleRegistration(), reg, "registration")
	vc.Assert(vTime(m.GetCardWithdrawalTime(), data[15:19]), "withdrawal time")
	g, _ := vTableGeneration(data[19])
	vc.Assert(m.GetVuGeneration() == g, "generation")
}

//vc:lemma C05
func vSpecificConditionRecordDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalSpecificConditionRecord(data)
	vc.Assert((err == nil) == (len(data) == 5), "exactly five bytes are accepted")
	if err != nil {
		return
	}
	vc.Assert(vTime(m.GetEntryTime(), data[0:4]), "entry time")
	want, ok := vTableSpecificConditionType(data[4])
	if ok {
		vc.Assert(m.GetSpecificConditionType() == want, "condition type")
	} else {
		vc.Assert(m.GetSpecificConditionType() == ddv1.SpecificConditionType_SPECIFIC_CONDITION_TYPE_UNRECOGNIZED, "undefined type")
		vc.Assert(m.GetUnrecognizedSpecificConditionType() == int32(data[4]), "undefined type kept")
	}
}

//vc:lemma C05
func vVehicleRegistrationDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalVehicleRegistration(data)
	vc.Assert((err == nil) == (len(data) == 15), "exactly 15 bytes are accepted")
	if err != nil {
		return
	}
	n, ok := vTableNationNumeric(data[0])
	if ok {
		vc.Assert(m.GetNation() == n, "nation")
	} else {
		vc.Assert(m.GetNation() == ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED, "undefined nation")
	}
	num, _ := o.UnmarshalStringValue(data[1:15])
	vc.AssertMsg(m.GetNumber(), num, "number")
}

//vc:lemma C05
func vVuCardIWRecordDecode(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalVuCardIWRecord(data)
	vc.Assert((err == nil) == (len(data) == 129 && data[72] >= 1 && data[72] <= 4 && data[101] <= 1), "129 bytes with a defined card kind and slot are accepted")
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.AssertBytes(m.GetRawData(), data, "raw data kept")
	h, _ := o.UnmarshalHolderName(data[0:72])
	vc.AssertMsg(m.GetCardHolderName(), h, "holder name")
	f, _ := o.UnmarshalFullCardNumber(data[72:90])
	vc.AssertMsg(m.GetFullCardNumber(), f, "card number")
	d, _ := o.UnmarshalDate(data[90:94])
	vc.AssertMsg(m.GetCardExpiryDate(), d, "expiry date")
	vc.Assert(vTime(m.GetCardInsertionTime(), data[94:98]), "insertion time")
	vc.Assert(vOdo(m.GetOdometerAtInsertionKm(), data[98:101]), "odometer at insertion")
	s, _ := vTableCardSlotNumber(data[101])
	vc.Assert(m.GetCardSlotNumber() == s, "slot")
	vc.Assert(vTime(m.GetCardWithdrawalTime(), data[102:106]), "withdrawal time")
	vc.Assert(vOdo(m.GetOdometerAtWithdrawalKm(), data[106:109]), "odometer at withdrawal")
	p, _ := o.UnmarshalPreviousVehicleInfo(data[109:128])
	vc.AssertMsg(m.GetPreviousVehicleInfo(), p, "previous vehicle")
	vc.Assert(m.GetManualInputFlag() == (data[128] != 0), "manual input")
}

//vc:lemma C18
func vBCD2(dst []byte, value int) {
	pre := vc.Snap(dst)
	out, err := appendBCD(dst, value, 2)
	vc.Assert((err == nil) == (value >= 0 && value <= 9999), "values of four digits are encoded")
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+2, "adds two bytes")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	a, b := out[len(pre)], out[len(pre)+1]
	vc.Assert(vDigit(a) && vDigit(b), "digits")
	vc.Assert(int(vBCD(a))*100+int(vBCD(b)) == value, "the number")
	back, err := decodeBCD(out[len(pre):])
	vc.Assert(err == nil && back == value, "decodes to the same number")
}

//vc:lemma C18 C05
func vBcdString1(o UnmarshalOptions, data []byte, dst []byte) {
	if len(data) != 1 {
		return
	}
	m, err := o.UnmarshalBcdString(data)
	ok := true
	for i := range data {
		ok = ok && vDigit(data[i])
	}
	vc.Assert((err == nil) == ok, "exactly decimal digits are accepted")
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.Assert(int(m.GetLength()) == len(data), "length")
	out, err := AppendBcdString(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out[len(dst):], data, "same bytes")
}

//vc:lemma C18 C05
func vBcdString2(o UnmarshalOptions, data []byte, dst []byte) {
	if len(data) != 2 {
		return
	}
	m, err := o.UnmarshalBcdString(data)
	ok := true
	for i := range data {
		ok = ok && vDigit(data[i])
	}
	vc.Assert((err == nil) == ok, "exactly decimal digits are accepted")
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.Assert(int(m.GetLength()) == len(data), "length")
	out, err := AppendBcdString(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out[len(dst):], data, "same bytes")
}

//vc:lemma C18 C05
func vBcdString3(o UnmarshalOptions, data []byte, dst []byte) {
	if len(data) != 3 {
		return
	}
	m, err := o.UnmarshalBcdString(data)
	ok := true
	for i := range data {
		ok = ok && vDigit(data[i])
	}
	vc.Assert((err == nil) == ok, "exactly decimal digits are accepted")
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.Assert(int(m.GetLength()) == len(data), "length")
	out, err := AppendBcdString(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out[len(dst):], data, "same bytes")
}

//vc:lemma C18 C05
func vBcdString4(o UnmarshalOptions, data []byte, dst []byte) {
	if len(data) != 4 {
		return
	}
	m, err := o.UnmarshalBcdString(data)
	ok := true
	for i := range data {
		ok = ok && vDigit(data[i])
	}
	vc.Assert((err == nil) == ok, "exactly decimal digits are accepted")
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.Assert(int(m.GetLength()) == len(data), "length")
	out, err := AppendBcdString(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out[len(dst):], data, "same bytes")
}


//vc:lemma C18 C07
func vMonthYearEncode(month, year int32, dst []byte) {
	vc.Assume(month >= 0 && month <= 99 && year >= 2000 && year <= 2099)
	m := &ddv1.MonthYear{}
	m.SetMonth(month)
	m.SetYear(year)
	pre := vc.Snap(dst)
	out, err := AppendMonthYear(dst, m)
	vc.Assert(err == nil && len(out) == len(pre)+2, "adds two bytes")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	a, b := out[len(pre)], out[len(pre)+1]
	vc.Assert(vDigit(a) && vBCD(a) == month, "month")
	vc.Assert(vDigit(b) && vBCD(b) == year-2000, "year")
}

//vc:lemma C18 C07
func vDateEncode(year, month, day int32, dst []byte) {
	ok := year >= 0 && year <= 9999 && month >= 0 && month <= 99 && day >= 0 && day <= 99
	m := &ddv1.Date{}
	m.SetYear(year)
	m.SetMonth(month)
	m.SetDay(day)
	pre := vc.Snap(dst)
	out, err := AppendDate(dst, m)
	vc.Assert((err == nil) == ok, "exactly dates of eight decimal digits are encoded")
	if err != nil {
		return
	}
	vc.Assert(len(out) == len(pre)+4, "adds four bytes")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	n := len(pre)
	vc.Assert(vDigit(out[n]) && vDigit(out[n+1]) && vBCD(out[n])*100+vBCD(out[n+1]) == year, "year")
	vc.Assert(vDigit(out[n+2]) && vBCD(out[n+2]) == month, "month")
	vc.Assert(vDigit(out[n+3]) && vBCD(out[n+3]) == day, "day")
}

//vc:lemma C18 C07
func vTimeRealEncode(ts *timestamppb.Timestamp, dst []byte) {
	pre := vc.Snap(dst)
	sec := ts.GetSeconds()
	out, err := AppendTimeReal(dst, ts)
	vc.Assert((err == nil) == (sec >= 0 && sec < 1<<32 && ts.GetNanos() <= 0), "exactly the whole seconds of 32 bits are encoded")
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+4, "adds four bytes")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.Assert(int64(vBE(out[len(pre):])) == sec || ts == nil && vBE(out[len(pre):]) == 0, "the number of seconds")
}
