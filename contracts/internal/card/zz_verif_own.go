package card

// Generated by tools/gen_own.py.

import "github.com/way-platform/tachograph-go/internal/vc"

//vc:lemma C15
func vInputUnmarshalDriverActivityData(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalDriverActivityData(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalApplicationIdentification(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalApplicationIdentification(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalApplicationIdentificationG2(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalApplicationIdentificationG2(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalApplicationIdentificationV2(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalApplicationIdentificationV2(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalCardDownload(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalCardDownload(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalControlActivityData(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalControlActivityData(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalCurrentUsage(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalCurrentUsage(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalDrivingLicenceInfo(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalDrivingLicenceInfo(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalEventsData(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalEventsData(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalEventRecord(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalEventRecord(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalFaultsData(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalFaultsData(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalGnssPlaces(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalGnssPlaces(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalIc(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalIc(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalIcc(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalIcc(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalIdentification(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalIdentification(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalPlaces(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalPlaces(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalPlacesG2(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalPlacesG2(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalRawCardFile(data []byte) {
	in := vc.Snap(data)
	UnmarshalRawCardFile(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalSpecificConditions(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalSpecificConditions(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalSpecificConditionsG2(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalSpecificConditionsG2(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalVehicleUnitsUsed(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalVehicleUnitsUsed(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalVehiclesUsed(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalVehiclesUsed(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalVehiclesUsedG2(opts UnmarshalOptions, data []byte) {
	in := vc.Snap(data)
	opts.unmarshalVehiclesUsedG2(data)
	vc.AssertBytes(data, in, "input unchanged")
}
