// Code generated by tools/gen_dd.py; DO NOT EDIT.

package dd

import (
	"github.com/way-platform/tachograph-go/internal/vc"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

//vc:lemma C01 C05
func vActivityChangeInfoTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalActivityChangeInfo(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 2, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vActivityChangeInfoRT(o UnmarshalOptions, data []byte, dst []byte) {
	m, err := o.UnmarshalActivityChangeInfo(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendActivityChangeInfo(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+2, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vActivityChangeInfoAppend(m *ddv1.ActivityChangeInfo, dst []byte) {
	pre := vc.Snap(dst)
	out, err := AppendActivityChangeInfo(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+2, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vCardStructureVersionTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalCardStructureVersion(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 2, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vCardStructureVersionRT(o UnmarshalOptions, data []byte, dst []byte) {
	m, err := o.UnmarshalCardStructureVersion(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendCardStructureVersion(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+2, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vCardStructureVersionAppend(m *ddv1.CardStructureVersion, dst []byte) {
	pre := vc.Snap(dst)
	out, err := AppendCardStructureVersion(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+2, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vCardVehicleRecordTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalCardVehicleRecord(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 31, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vCardVehicleRecordRT(o UnmarshalOptions, data []byte, dst []byte) {
	if len(data) != 31 {
		return
	}
	vc.Assume(vKnown[ddv1.NationNumeric](data[14]))
	m, err := o.UnmarshalCardVehicleRecord(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendCardVehicleRecord(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+31, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vCardVehicleRecordAppend(m *ddv1.CardVehicleRecord, dst []byte) {
	vc.Assume(strVR(m.GetVehicleRegistration()) && strBCD(m.GetVuDataBlockCounter(), 2))
	pre := vc.Snap(dst)
	out, err := AppendCardVehicleRecord(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+31, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vCardVehicleRecordG2Total(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalCardVehicleRecordG2(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 48, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vCardVehicleRecordG2RT(o UnmarshalOptions, data []byte, dst []byte) {
	if len(data) != 48 {
		return
	}
	vc.Assume(vKnown[ddv1.NationNumeric](data[14]))
	m, err := o.UnmarshalCardVehicleRecordG2(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendCardVehicleRecordG2(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+48, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vCardVehicleRecordG2Append(m *ddv1.CardVehicleRecordG2, dst []byte) {
	vc.Assume(strVR(m.GetVehicleRegistration()) && strBCD(m.GetVuDataBlockCounter(), 2))
	pre := vc.Snap(dst)
	out, err := AppendCardVehicleRecordG2(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+48, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vControlTypeTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalControlType(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 1, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vControlTypeRT(o UnmarshalOptions, data []byte, dst []byte) {
	m, err := o.UnmarshalControlType(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendControlType(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+1, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vControlTypeAppend(m *ddv1.ControlType, dst []byte) {
	pre := vc.Snap(dst)
	out, err := AppendControlType(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+1, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vDateTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalDate(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 4, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vDateRT(o UnmarshalOptions, data []byte, dst []byte) {
	m, err := o.UnmarshalDate(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendDate(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+4, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vDateAppend(m *ddv1.Date, dst []byte) {
	pre := vc.Snap(dst)
	out, err := AppendDate(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+4, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vDriverIdentificationTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalDriverIdentification(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 14, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vDriverIdentificationRT(o UnmarshalOptions, data []byte, dst []byte) {
	m, err := o.UnmarshalDriverIdentification(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendDriverIdentification(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+14, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vDriverIdentificationAppend(m *ddv1.DriverIdentification, dst []byte) {
	vc.Assume(strIA(m.GetDriverIdentificationNumber(), 14))
	pre := vc.Snap(dst)
	out, err := AppendDriverIdentification(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+14, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vExtendedSerialNumberTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalExtendedSerialNumber(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 8, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vExtendedSerialNumberRT(o UnmarshalOptions, data []byte, dst []byte) {
	if len(data) != 8 {
		return
	}
	vc.Assume(vKnown[ddv1.EquipmentType](data[6]))
	m, err := o.UnmarshalExtendedSerialNumber(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendExtendedSerialNumber(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+8, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vExtendedSerialNumberAppend(m *ddv1.ExtendedSerialNumber, dst []byte) {
	pre := vc.Snap(dst)
	out, err := AppendExtendedSerialNumber(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+8, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vFullCardNumberTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalFullCardNumber(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 18, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vFullCardNumberRT(o UnmarshalOptions, data []byte, dst []byte) {
	if len(data) != 18 {
		return
	}
	vc.Assume(vKnown[ddv1.NationNumeric](data[1]))
	m, err := o.UnmarshalFullCardNumber(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendFullCardNumber(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+18, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vFullCardNumberAppend(m *ddv1.FullCardNumber, dst []byte) {
	vc.Assume(strFC(m))
	pre := vc.Snap(dst)
	out, err := AppendFullCardNumber(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+18, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vFullCardNumberAndGenerationTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalFullCardNumberAndGeneration(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 19, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vFullCardNumberAndGenerationRT(o UnmarshalOptions, data []byte, dst []byte) {
	if len(data) != 19 {
		return
	}
	vc.Assume(vKnown[ddv1.NationNumeric](data[1]))
	m, err := o.UnmarshalFullCardNumberAndGeneration(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendFullCardNumberAndGeneration(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+19, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vFullCardNumberAndGenerationAppend(m *ddv1.FullCardNumberAndGeneration, dst []byte) {
	vc.Assume(m.GetFullCardNumber() != nil && strFC(m.GetFullCardNumber()))
	pre := vc.Snap(dst)
	out, err := AppendFullCardNumberAndGeneration(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+19, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vGeoCoordinatesTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalGeoCoordinates(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 6, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vGeoCoordinatesRT(o UnmarshalOptions, data []byte, dst []byte) {
	m, err := o.UnmarshalGeoCoordinates(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendGeoCoordinates(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+6, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vGeoCoordinatesAppend(m *ddv1.GeoCoordinates, dst []byte) {
	pre := vc.Snap(dst)
	out, err := AppendGeoCoordinates(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+6, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vGNSSPlaceAuthRecordTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalGNSSPlaceAuthRecord(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 12, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vGNSSPlaceAuthRecordRT(o UnmarshalOptions, data []byte, dst []byte) {
	m, err := o.UnmarshalGNSSPlaceAuthRecord(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendGNSSPlaceAuthRecord(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+12, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vGNSSPlaceAuthRecordAppend(m *ddv1.GNSSPlaceAuthRecord, dst []byte) {
	pre := vc.Snap(dst)
	out, err := AppendGNSSPlaceAuthRecord(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+12, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vGNSSPlaceRecordTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalGNSSPlaceRecord(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 11, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vGNSSPlaceRecordRT(o UnmarshalOptions, data []byte, dst []byte) {
	m, err := o.UnmarshalGNSSPlaceRecord(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendGNSSPlaceRecord(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+11, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vGNSSPlaceRecordAppend(m *ddv1.GNSSPlaceRecord, dst []byte) {
	pre := vc.Snap(dst)
	out, err := AppendGNSSPlaceRecord(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+11, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vHolderNameTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalHolderName(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 72, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vHolderNameRT(o UnmarshalOptions, data []byte, dst []byte) {
	m, err := o.UnmarshalHolderName(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendHolderName(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+72, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vHolderNameAppend(m *ddv1.HolderName, dst []byte) {
	vc.Assume(strSV(m.GetHolderSurname(), 35) && strSV(m.GetHolderFirstNames(), 35))
	pre := vc.Snap(dst)
	out, err := AppendHolderName(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+72, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vMonthYearTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalMonthYear(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 2, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vMonthYearRT(o UnmarshalOptions, data []byte, dst []byte) {
	m, err := o.UnmarshalMonthYear(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendMonthYear(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+2, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vMonthYearAppend(m *ddv1.MonthYear, dst []byte) {
	pre := vc.Snap(dst)
	out, err := AppendMonthYear(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+2, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vOwnerIdentificationTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalOwnerIdentification(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 16, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vOwnerIdentificationRT(o UnmarshalOptions, data []byte, dst []byte) {
	m, err := o.UnmarshalOwnerIdentification(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendOwnerIdentification(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+16, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vOwnerIdentificationAppend(m *ddv1.OwnerIdentification, dst []byte) {
	vc.Assume(strIA(m.GetOwnerIdentification(), 13) && strIA(m.GetConsecutiveIndex(), 1) && strIA(m.GetReplacementIndex(), 1) && strIA(m.GetRenewalIndex(), 1))
	pre := vc.Snap(dst)
	out, err := AppendOwnerIdentification(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+16, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vPlaceRecordTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalPlaceRecord(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 10, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vPlaceRecordRT(o UnmarshalOptions, data []byte, dst []byte) {
	m, err := o.UnmarshalPlaceRecord(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendPlaceRecord(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+10, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vPlaceRecordAppend(m *ddv1.PlaceRecord, dst []byte) {
	pre := vc.Snap(dst)
	out, err := AppendPlaceRecord(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+10, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vPlaceRecordG2Total(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalPlaceRecordG2(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 21, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vPlaceRecordG2RT(o UnmarshalOptions, data []byte, dst []byte) {
	m, err := o.UnmarshalPlaceRecordG2(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendPlaceRecordG2(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+21, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vPlaceRecordG2Append(m *ddv1.PlaceRecordG2, dst []byte) {
	pre := vc.Snap(dst)
	out, err := AppendPlaceRecordG2(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+21, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vPreviousVehicleInfoTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalPreviousVehicleInfo(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 19, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vPreviousVehicleInfoRT(o UnmarshalOptions, data []byte, dst []byte) {
	if len(data) != 19 {
		return
	}
	vc.Assume(vKnown[ddv1.NationNumeric](data[0]))
	m, err := o.UnmarshalPreviousVehicleInfo(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendPreviousVehicleInfo(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+19, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vPreviousVehicleInfoAppend(m *ddv1.PreviousVehicleInfo, dst []byte) {
	pre := vc.Snap(dst)
	out, err := AppendPreviousVehicleInfo(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+19, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vPreviousVehicleInfoG2Total(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalPreviousVehicleInfoG2(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 20, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vPreviousVehicleInfoG2RT(o UnmarshalOptions, data []byte, dst []byte) {
	if len(data) != 20 {
		return
	}
	vc.Assume(vKnown[ddv1.NationNumeric](data[0]))
	m, err := o.UnmarshalPreviousVehicleInfoG2(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendPreviousVehicleInfoG2(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+20, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vPreviousVehicleInfoG2Append(m *ddv1.PreviousVehicleInfoG2, dst []byte) {
	pre := vc.Snap(dst)
	out, err := AppendPreviousVehicleInfoG2(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+20, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vSpecificConditionRecordTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalSpecificConditionRecord(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 5, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vSpecificConditionRecordRT(o UnmarshalOptions, data []byte, dst []byte) {
	m, err := o.UnmarshalSpecificConditionRecord(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendSpecificConditionRecord(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+5, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vSpecificConditionRecordAppend(m *ddv1.SpecificConditionRecord, dst []byte) {
	pre := vc.Snap(dst)
	out, err := AppendSpecificConditionRecord(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+5, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vVehicleRegistrationTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalVehicleRegistration(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 15, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vVehicleRegistrationRT(o UnmarshalOptions, data []byte, dst []byte) {
	if len(data) != 15 {
		return
	}
	vc.Assume(vKnown[ddv1.NationNumeric](data[0]))
	m, err := o.UnmarshalVehicleRegistration(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendVehicleRegistration(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+15, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vVehicleRegistrationAppend(m *ddv1.VehicleRegistrationIdentification, dst []byte) {
	vc.Assume(strVR(m))
	pre := vc.Snap(dst)
	out, err := AppendVehicleRegistration(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+15, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}

//vc:lemma C01 C05
func vVuCardIWRecordTotal(o UnmarshalOptions, data []byte) {
	m, err := o.UnmarshalVuCardIWRecord(data)
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(len(data) == 129, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C06 C07
func vVuCardIWRecordRT(o UnmarshalOptions, data []byte, dst []byte) {
	if len(data) != 129 {
		return
	}
	vc.Assume(vKnown[ddv1.NationNumeric](data[73]) && vKnown[ddv1.NationNumeric](data[109]))
	m, err := o.UnmarshalVuCardIWRecord(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendVuCardIWRecord(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+129, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C07
func vVuCardIWRecordAppend(m *ddv1.VuCardIWRecord, dst []byte) {
	pre := vc.Snap(dst)
	out, err := AppendVuCardIWRecord(dst, m)
	if err != nil {
		return
	}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+129, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}
