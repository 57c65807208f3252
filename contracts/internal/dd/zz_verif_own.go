package dd

// Generated by tools/gen_own.py.

import "github.com/way-platform/tachograph-go/internal/vc"

//vc:lemma C15
func vInputUnmarshalActivityChangeInfo(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalActivityChangeInfo(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalBcdString(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalBcdString(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalCardStructureVersion(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalCardStructureVersion(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalCardVehicleRecord(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalCardVehicleRecord(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalCardVehicleRecordG2(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalCardVehicleRecordG2(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalControlType(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalControlType(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalDate(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalDate(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalDriverIdentification(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalDriverIdentification(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalExtendedSerialNumber(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalExtendedSerialNumber(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalFullCardNumber(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalFullCardNumber(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalFullCardNumberAndGeneration(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalFullCardNumberAndGeneration(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalGeoCoordinates(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalGeoCoordinates(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalGNSSPlaceAuthRecord(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalGNSSPlaceAuthRecord(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalGNSSPlaceRecord(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalGNSSPlaceRecord(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalHolderName(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalHolderName(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalIa5StringValue(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalIa5StringValue(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalMonthYear(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalMonthYear(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalOdometer(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalOdometer(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalOwnerIdentification(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalOwnerIdentification(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalPlaceRecord(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalPlaceRecord(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalPlaceRecordG2(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalPlaceRecordG2(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalPreviousVehicleInfo(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalPreviousVehicleInfo(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalPreviousVehicleInfoG2(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalPreviousVehicleInfoG2(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalSpecificConditionRecord(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalSpecificConditionRecord(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalStringValue(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalStringValue(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalTimeReal(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalTimeReal(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalVehicleRegistration(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalVehicleRegistration(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalVuCardIWRecord(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.UnmarshalVuCardIWRecord(data)
	vc.AssertBytes(data, in, "input unchanged")
}
