package card

// Generated by tools/gen_card_rt.py.

import (
	"github.com/way-platform/tachograph-go/internal/dd"
	"github.com/way-platform/tachograph-go/internal/vc"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

// The messages have no field for an undefined nation code (a known finding: vUndefined*).
func vNation(b byte) bool {
	_, err := dd.UnmarshalEnum[ddv1.NationNumeric](b)
	return err == nil
}

//vc:lemma C10
func vRTIcc(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalIcc(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendIcc(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out, data, "same bytes")
}

//vc:lemma C10
func vRTIc(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalIc(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendCardIc(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out, data, "same bytes")
}

//vc:lemma C10
func vRTApplicationIdentification(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalApplicationIdentification(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendCardApplicationIdentification(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out, data, "same bytes")
}

//vc:lemma C10
func vRTApplicationIdentificationG2(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalApplicationIdentificationG2(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendCardApplicationIdentificationG2(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out, data, "same bytes")
}

//vc:lemma C10
func vRTApplicationIdentificationV2(o UnmarshalOptions, data []byte) {
	if len(data) > 4 {
		return
	}
	m, err := o.unmarshalApplicationIdentificationV2(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendCardApplicationIdentificationV2(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out, data, "same bytes")
}

//vc:lemma C10
func vRTCardDownload(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalCardDownload(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendCardDownload(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out, data, "same bytes")
}

//vc:lemma C10
func vUndefinedControlActivityData(o UnmarshalOptions, data []byte) {
	if len(data) != 46 {
		return
	}
	if !(!(data[1] == 0 && data[2] == 0 && data[3] == 0 && data[4] == 0) && (!vNation(data[6]) || !vNation(data[23]))) {
		return
	}
	m, err := o.unmarshalControlActivityData(data)
	if err != nil {
		return
	}
	_, err = appendCardControlActivityData(nil, m)
	vc.Assert(err == nil, "encodes")
}

//vc:lemma C10
func vRTControlActivityData(o UnmarshalOptions, data []byte) {
	if len(data) == 46 && (!(data[1] == 0 && data[2] == 0 && data[3] == 0 && data[4] == 0) && (!vNation(data[6]) || !vNation(data[23]))) {
		return
	}
	m, err := o.unmarshalControlActivityData(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendCardControlActivityData(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out, data, "same bytes")
}

//vc:lemma C10
func vUndefinedCurrentUsage(o UnmarshalOptions, data []byte) {
	if len(data) != 19 {
		return
	}
	if !(!vNation(data[4])) {
		return
	}
	m, err := o.unmarshalCurrentUsage(data)
	if err != nil {
		return
	}
	_, err = appendCurrentUsage(nil, m)
	vc.Assert(err == nil, "encodes")
}

//vc:lemma C10
func vRTCurrentUsage(o UnmarshalOptions, data []byte) {
	if len(data) == 19 && (!vNation(data[4])) {
		return
	}
	m, err := o.unmarshalCurrentUsage(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendCurrentUsage(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out, data, "same bytes")
}

//vc:lemma C10
func vUndefinedDrivingLicenceInfo(o UnmarshalOptions, data []byte) {
	if len(data) != 53 {
		return
	}
	if !(!vNation(data[36])) {
		return
	}
	m, err := o.unmarshalDrivingLicenceInfo(data)
	if err != nil {
		return
	}
	_, err = appendDrivingLicenceInfo(nil, m)
	vc.Assert(err == nil, "encodes")
}

//vc:lemma C10
func vRTDrivingLicenceInfo(o UnmarshalOptions, data []byte) {
	if len(data) == 53 && (!vNation(data[36])) {
		return
	}
	m, err := o.unmarshalDrivingLicenceInfo(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendDrivingLicenceInfo(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out, data, "same bytes")
}

//vc:lemma C10
func vUndefinedEventsData(o UnmarshalOptions, data []byte) {
	if len(data) != 24 {
		return
	}
	i := 0
	if !(!(data[i+1] == 0 && data[i+2] == 0 && data[i+3] == 0 && data[i+4] == 0) && (!vNation(data[i+9]))) {
		return
	}
	m, err := o.unmarshalEventsData(data)
	if err != nil {
		return
	}
	_, err = appendEventsData(nil, m)
	vc.Assert(err == nil, "encodes")
}

//vc:lemma C10
func vRTEventsData(o UnmarshalOptions, data []byte) {
	for i := 0; i+24 <= len(data); i += 24 {
		if !(data[i+1] == 0 && data[i+2] == 0 && data[i+3] == 0 && data[i+4] == 0) && (!vNation(data[i+9])) {
			return
		}
	}
	vc.Follow()
	m, err := o.unmarshalEventsData(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendEventsData(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out, data, "same bytes")
}

//vc:lemma C10
func vUndefinedFaultsData(o UnmarshalOptions, data []byte) {
	if len(data) != 24 {
		return
	}
	i := 0
	if !(!(data[i+1] == 0 && data[i+2] == 0 && data[i+3] == 0 && data[i+4] == 0) && (!vNation(data[i+9]))) {
		return
	}
	m, err := o.unmarshalFaultsData(data)
	if err != nil {
		return
	}
	_, err = appendFaultsData(nil, m)
	vc.Assert(err == nil, "encodes")
}

//vc:lemma C10
func vRTFaultsData(o UnmarshalOptions, data []byte) {
	for i := 0; i+24 <= len(data); i += 24 {
		if !(data[i+1] == 0 && data[i+2] == 0 && data[i+3] == 0 && data[i+4] == 0) && (!vNation(data[i+9])) {
			return
		}
	}
	vc.Follow()
	m, err := o.unmarshalFaultsData(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendFaultsData(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out, data, "same bytes")
}

//vc:lemma C10
func vRTGnssPlaces(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalGnssPlaces(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendCardGnssPlaces(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out, data, "same bytes")
}

//vc:lemma C10
func vRTPlaces(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalPlaces(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendPlaces(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out, data, "same bytes")
}

//vc:lemma C10
func vRTPlacesG2(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalPlacesG2(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendPlacesG2(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out, data, "same bytes")
}

//vc:lemma C10
func vRTSpecificConditions(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalSpecificConditions(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendCardSpecificConditions(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out, data, "same bytes")
}

//vc:lemma C10
func vRTSpecificConditionsG2(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalSpecificConditionsG2(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendCardSpecificConditionsG2(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out, data, "same bytes")
}

//vc:lemma C10
func vRTVehicleUnitsUsed(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalVehicleUnitsUsed(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendCardVehicleUnitsUsed(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out, data, "same bytes")
}

//vc:lemma C10
func vUndefinedVehiclesUsed(o UnmarshalOptions, data []byte) {
	if len(data) != 33 {
		return
	}
	i := 2
	if !(!vNation(data[i+14])) {
		return
	}
	m, err := o.unmarshalVehiclesUsed(data)
	if err != nil {
		return
	}
	_, err = appendVehiclesUsed(nil, m)
	vc.Assert(err == nil, "encodes")
}

//vc:lemma C10
func vRTVehiclesUsed(o UnmarshalOptions, data []byte, k uint64) {
	for i := 2; i+31 <= len(data); i += 31 {
		if !vNation(data[i+14]) {
			return
		}
	}
	vc.Follow()
	m, err := o.unmarshalVehiclesUsed(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendVehiclesUsed(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(data), "same length")
	vc.AssertBytes(out[:2], data[:2], "same header")
	at := 2 + 31*int(k>>20)
	if at+31 > len(data) {
		return
	}


	vc.Assert(out[at+0] == data[at+0], "same byte 0")
	vc.Assert(out[at+1] == data[at+1], "same byte 1")
	vc.Assert(out[at+2] == data[at+2], "same byte 2")
	vc.Assert(out[at+3] == data[at+3], "same byte 3")
	vc.Assert(out[at+4] == data[at+4], "same byte 4")
	vc.Assert(out[at+5] == data[at+5], "same byte 5")
	vc.Assert(out[at+6] == data[at+6], "same byte 6")
	vc.Assert(out[at+7] == data[at+7], "same byte 7")
	vc.Assert(out[at+8] == data[at+8], "same byte 8")
	vc.Assert(out[at+9] == data[at+9], "same byte 9")
	vc.Assert(out[at+10] == data[at+10], "same byte 10")
	vc.Assert(out[at+11] == data[at+11], "same byte 11")
	vc.Assert(out[at+12] == data[at+12], "same byte 12")
	vc.Assert(out[at+13] == data[at+13], "same byte 13")
	vc.Assert(out[at+14] == data[at+14], "same byte 14")
	vc.Assert(out[at+15] == data[at+15], "same byte 15")
	vc.Assert(out[at+16] == data[at+16], "same byte 16")
	vc.Assert(out[at+17] == data[at+17], "same byte 17")
	vc.Assert(out[at+18] == data[at+18], "same byte 18")
	vc.Assert(out[at+19] == data[at+19], "same byte 19")
	vc.Assert(out[at+20] == data[at+20], "same byte 20")
	vc.Assert(out[at+21] == data[at+21], "same byte 21")
	vc.Assert(out[at+22] == data[at+22], "same byte 22")
	vc.Assert(out[at+23] == data[at+23], "same byte 23")
	vc.Assert(out[at+24] == data[at+24], "same byte 24")
	vc.Assert(out[at+25] == data[at+25], "same byte 25")
	vc.Assert(out[at+26] == data[at+26], "same byte 26")
	vc.Assert(out[at+27] == data[at+27], "same byte 27")
	vc.Assert(out[at+28] == data[at+28], "same byte 28")
	vc.Assert(out[at+29] == data[at+29], "same byte 29")
	vc.Assert(out[at+30] == data[at+30], "same byte 30")
}

//vc:lemma C10
func vUndefinedVehiclesUsedG2(o UnmarshalOptions, data []byte) {
	if len(data) != 50 {
		return
	}
	i := 2
	if !(!vNation(data[i+14])) {
		return
	}
	m, err := o.unmarshalVehiclesUsedG2(data)
	if err != nil {
		return
	}
	_, err = appendVehiclesUsedG2(nil, m)
	vc.Assert(err == nil, "encodes")
}

//vc:lemma C10
func vRTVehiclesUsedG2(o UnmarshalOptions, data []byte, k uint64) {
	for i := 2; i+48 <= len(data); i += 48 {
		if !vNation(data[i+14]) {
			return
		}
	}
	vc.Follow()
	m, err := o.unmarshalVehiclesUsedG2(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendVehiclesUsedG2(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(data), "same length")
	vc.AssertBytes(out[:2], data[:2], "same header")
	at := 2 + 48*int(k>>20)
	if at+48 > len(data) {
		return
	}


	vc.Assert(out[at+0] == data[at+0], "same byte 0")
	vc.Assert(out[at+1] == data[at+1], "same byte 1")
	vc.Assert(out[at+2] == data[at+2], "same byte 2")
	vc.Assert(out[at+3] == data[at+3], "same byte 3")
	vc.Assert(out[at+4] == data[at+4], "same byte 4")
	vc.Assert(out[at+5] == data[at+5], "same byte 5")
	vc.Assert(out[at+6] == data[at+6], "same byte 6")
	vc.Assert(out[at+7] == data[at+7], "same byte 7")
	vc.Assert(out[at+8] == data[at+8], "same byte 8")
	vc.Assert(out[at+9] == data[at+9], "same byte 9")
	vc.Assert(out[at+10] == data[at+10], "same byte 10")
	vc.Assert(out[at+11] == data[at+11], "same byte 11")
	vc.Assert(out[at+12] == data[at+12], "same byte 12")
	vc.Assert(out[at+13] == data[at+13], "same byte 13")
	vc.Assert(out[at+14] == data[at+14], "same byte 14")
	vc.Assert(out[at+15] == data[at+15], "same byte 15")
	vc.Assert(out[at+16] == data[at+16], "same byte 16")
	vc.Assert(out[at+17] == data[at+17], "same byte 17")
	vc.Assert(out[at+18] == data[at+18], "same byte 18")
	vc.Assert(out[at+19] == data[at+19], "same byte 19")
	vc.Assert(out[at+20] == data[at+20], "same byte 20")
	vc.Assert(out[at+21] == data[at+21], "same byte 21")
	vc.Assert(out[at+22] == data[at+22], "same byte 22")
	vc.Assert(out[at+23] == data[at+23], "same byte 23")
	vc.Assert(out[at+24] == data[at+24], "same byte 24")
	vc.Assert(out[at+25] == data[at+25], "same byte 25")
	vc.Assert(out[at+26] == data[at+26], "same byte 26")
	vc.Assert(out[at+27] == data[at+27], "same byte 27")
	vc.Assert(out[at+28] == data[at+28], "same byte 28")
	vc.Assert(out[at+29] == data[at+29], "same byte 29")
	vc.Assert(out[at+30] == data[at+30], "same byte 30")
	vc.Assert(out[at+31] == data[at+31], "same byte 31")
	vc.Assert(out[at+32] == data[at+32], "same byte 32")
	vc.Assert(out[at+33] == data[at+33], "same byte 33")
	vc.Assert(out[at+34] == data[at+34], "same byte 34")
	vc.Assert(out[at+35] == data[at+35], "same byte 35")
	vc.Assert(out[at+36] == data[at+36], "same byte 36")
	vc.Assert(out[at+37] == data[at+37], "same byte 37")
	vc.Assert(out[at+38] == data[at+38], "same byte 38")
	vc.Assert(out[at+39] == data[at+39], "same byte 39")
	vc.Assert(out[at+40] == data[at+40], "same byte 40")
	vc.Assert(out[at+41] == data[at+41], "same byte 41")
	vc.Assert(out[at+42] == data[at+42], "same byte 42")
	vc.Assert(out[at+43] == data[at+43], "same byte 43")
	vc.Assert(out[at+44] == data[at+44], "same byte 44")
	vc.Assert(out[at+45] == data[at+45], "same byte 45")
	vc.Assert(out[at+46] == data[at+46], "same byte 46")
	vc.Assert(out[at+47] == data[at+47], "same byte 47")
}

//vc:lemma C10
func vLongApplicationIdentificationV2(o UnmarshalOptions, data []byte) {
	if len(data) <= 4 {
		return
	}
	m, err := o.unmarshalApplicationIdentificationV2(data)
	if err != nil {
		return
	}
	out, err := appendCardApplicationIdentificationV2(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out, data, "same bytes")
}

// EF_Identification is encoded in two parts, as appendDriverCard does.
//
//vc:lemma C10
func vRTIdentification(o UnmarshalOptions, data []byte) {
	if len(data) > 143 || (len(data) > 0 && !vNation(data[0])) {
		return
	}
	m, err := o.unmarshalIdentification(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendCardIdentification(nil, m.GetCard())
	vc.Assert(err == nil, "encodes the card part")
	out, err = appendDriverCardHolderIdentification(out, m.GetDriverCardHolder())
	vc.Assert(err == nil, "encodes the holder part")
	vc.AssertBytes(out, data, "same bytes")
}

//vc:lemma C10
func vLongIdentification(o UnmarshalOptions, data []byte) {
	if len(data) <= 143 || !vNation(data[0]) {
		return
	}
	m, err := o.unmarshalIdentification(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendCardIdentification(nil, m.GetCard())
	vc.Assert(err == nil, "encodes the card part")
	out, err = appendDriverCardHolderIdentification(out, m.GetDriverCardHolder())
	vc.Assert(err == nil, "encodes the holder part")
	vc.AssertBytes(out, data, "same bytes")
}

//vc:lemma C10
func vUndefinedIdentification(o UnmarshalOptions, data []byte) {
	if len(data) != 143 || vNation(data[0]) {
		return
	}
	m, err := o.unmarshalIdentification(data)
	if err != nil {
		return
	}
	_, err = appendCardIdentification(nil, m.GetCard())
	vc.Assert(err == nil, "encodes")
}
