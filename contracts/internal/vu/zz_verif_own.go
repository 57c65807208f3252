package vu

// Generated by tools/gen_own.py.

import "github.com/way-platform/tachograph-go/internal/vc"

//vc:lemma C15
func vInputUnmarshalVuCardIWRecord(data []byte) {
	in := vc.Snap(data)
	unmarshalVuCardIWRecord(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalVuPlaceRecord(data []byte) {
	in := vc.Snap(data)
	unmarshalVuPlaceRecord(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalVuGNSSADRecord(data []byte) {
	in := vc.Snap(data)
	unmarshalVuGNSSADRecord(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalVuBorderCrossingRecord(data []byte) {
	in := vc.Snap(data)
	unmarshalVuBorderCrossingRecord(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalVuLoadUnloadRecord(data []byte) {
	in := vc.Snap(data)
	unmarshalVuLoadUnloadRecord(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalActivitiesGen1(data []byte) {
	in := vc.Snap(data)
	unmarshalActivitiesGen1(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalActivitiesGen2V1(data []byte) {
	in := vc.Snap(data)
	unmarshalActivitiesGen2V1(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalActivitiesGen2V2(data []byte) {
	in := vc.Snap(data)
	unmarshalActivitiesGen2V2(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalDetailedSpeedGen1(data []byte) {
	in := vc.Snap(data)
	unmarshalDetailedSpeedGen1(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalDetailedSpeedGen2(data []byte) {
	in := vc.Snap(data)
	unmarshalDetailedSpeedGen2(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalEventsAndFaultsGen1(data []byte) {
	in := vc.Snap(data)
	unmarshalEventsAndFaultsGen1(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalEventsAndFaultsGen2V1(data []byte) {
	in := vc.Snap(data)
	unmarshalEventsAndFaultsGen2V1(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalEventsAndFaultsGen2V2(data []byte) {
	in := vc.Snap(data)
	unmarshalEventsAndFaultsGen2V2(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalOverviewGen1(data []byte) {
	in := vc.Snap(data)
	unmarshalOverviewGen1(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalOverviewGen2V1(data []byte) {
	in := vc.Snap(data)
	unmarshalOverviewGen2V1(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalOverviewGen2V2(data []byte) {
	in := vc.Snap(data)
	unmarshalOverviewGen2V2(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalTechnicalDataGen1(data []byte) {
	in := vc.Snap(data)
	unmarshalTechnicalDataGen1(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalTechnicalDataGen2V1(data []byte) {
	in := vc.Snap(data)
	unmarshalTechnicalDataGen2V1(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalTechnicalDataGen2V2(data []byte) {
	in := vc.Snap(data)
	unmarshalTechnicalDataGen2V2(data)
	vc.AssertBytes(data, in, "input unchanged")
}
