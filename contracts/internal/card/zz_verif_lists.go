package card

// Generated by tools/gen_card_lists.py.

import (
	"github.com/way-platform/tachograph-go/internal/vc"
	"github.com/way-platform/tachograph-go/internal/dd"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

func vDD(o UnmarshalOptions) dd.UnmarshalOptions { return o.UnmarshalOptions }

// A length that does not fit the layout of Places is an error.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalPlaceRecord
func vLengthPlaces(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalPlaces(data)
	if len(data) < 1 || (len(data)-1)%10 != 0 {
		vc.Reach("unfit")
		vc.Assert(err != nil, "unfit length rejected")
		return
	}
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.Assert(m != nil, "a value")
	vc.Assert(len(m.GetRecords()) == (len(data)-1)/10, "number of records")
	vc.Assert(m.GetNewestRecordIndex() == int32(data[0]), "pointer")
}

// Record k of Places comes from its own bytes.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalPlaceRecord
func vRecordPlaces(o UnmarshalOptions, data []byte, k int) {
	m, err := o.unmarshalPlaces(data)
	if err != nil {
		return
	}
	vc.Assume(k >= 0 && k < len(m.GetRecords()))
	vc.At(k)
	r := m.GetRecords()[k]
	b := data[1+10*k : 1+10*k+10]
	w, e := vDD(o).UnmarshalPlaceRecord(b)
	if e != nil {
		vc.Reach("undecodable record")
		vc.Assert(!r.GetValid(), "marked invalid")
		vc.AssertBytes(r.GetRawData(), b, "kept")
		return
	}
	vc.Reach("record")
	vc.AssertMsg(r, w, "record")
}

// A length that does not fit the layout of PlacesG2 is an error.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalPlaceRecordG2
func vLengthPlacesG2(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalPlacesG2(data)
	if len(data) < 2 || (len(data)-2)%21 != 0 {
		vc.Reach("unfit")
		vc.Assert(err != nil, "unfit length rejected")
		return
	}
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.Assert(m != nil, "a value")
	vc.Assert(len(m.GetRecords()) == (len(data)-2)/21, "number of records")
	vc.Assert(m.GetNewestRecordIndex() == int32(data[0])<<8|int32(data[1]), "pointer")
}

// Record k of PlacesG2 comes from its own bytes.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalPlaceRecordG2
func vRecordPlacesG2(o UnmarshalOptions, data []byte, k int) {
	m, err := o.unmarshalPlacesG2(data)
	if err != nil {
		return
	}
	vc.Assume(k >= 0 && k < len(m.GetRecords()))
	vc.At(k)
	r := m.GetRecords()[k]
	b := data[2+21*k : 2+21*k+21]
	w, e := vDD(o).UnmarshalPlaceRecordG2(b)
	if e != nil {
		vc.Reach("undecodable record")
		vc.Assert(!r.GetValid(), "marked invalid")
		vc.AssertBytes(r.GetRawData(), b, "kept")
		return
	}
	vc.Reach("record")
	vc.AssertMsg(r, w, "record")
}

// A length that does not fit the layout of VehiclesUsed is an error.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalCardVehicleRecord
func vLengthVehiclesUsed(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalVehiclesUsed(data)
	if len(data) < 2 || (len(data)-2)%31 != 0 {
		vc.Reach("unfit")
		vc.Assert(err != nil, "unfit length rejected")
		return
	}
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.Assert(m != nil, "a value")
	vc.Assert(len(m.GetRecords()) == (len(data)-2)/31, "number of records")
	vc.Assert(m.GetNewestRecordIndex() == int32(data[0])<<8|int32(data[1]), "pointer")
}

// Record k of VehiclesUsed comes from its own bytes.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalCardVehicleRecord
func vRecordVehiclesUsed(o UnmarshalOptions, data []byte, k int) {
	m, err := o.unmarshalVehiclesUsed(data)
	if err != nil {
		return
	}
	vc.Assume(k >= 0 && k < len(m.GetRecords()))
	vc.At(k)
	r := m.GetRecords()[k]
	b := data[2+31*k : 2+31*k+31]
	w, e := vDD(o).UnmarshalCardVehicleRecord(b)
	vc.Reach("record")
	vc.Assert(e == nil, "decoded")
	vc.AssertMsg(r, w, "record")
}

// A length that does not fit the layout of VehiclesUsedG2 is an error.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalCardVehicleRecordG2
func vLengthVehiclesUsedG2(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalVehiclesUsedG2(data)
	if len(data) < 2 || (len(data)-2)%48 != 0 {
		vc.Reach("unfit")
		vc.Assert(err != nil, "unfit length rejected")
		return
	}
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.Assert(m != nil, "a value")
	vc.Assert(len(m.GetRecords()) == (len(data)-2)/48, "number of records")
	vc.Assert(m.GetNewestRecordIndex() == int32(data[0])<<8|int32(data[1]), "pointer")
}

// Record k of VehiclesUsedG2 comes from its own bytes.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalCardVehicleRecordG2
func vRecordVehiclesUsedG2(o UnmarshalOptions, data []byte, k int) {
	m, err := o.unmarshalVehiclesUsedG2(data)
	if err != nil {
		return
	}
	vc.Assume(k >= 0 && k < len(m.GetRecords()))
	vc.At(k)
	r := m.GetRecords()[k]
	b := data[2+48*k : 2+48*k+48]
	w, e := vDD(o).UnmarshalCardVehicleRecordG2(b)
	vc.Reach("record")
	vc.Assert(e == nil, "decoded")
	vc.AssertMsg(r, w, "record")
}

// A length that does not fit the layout of SpecificConditions is an error.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalSpecificConditionRecord
func vLengthSpecificConditions(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalSpecificConditions(data)
	if len(data)%5 != 0 {
		vc.Reach("unfit")
		vc.Assert(err != nil, "unfit length rejected")
		return
	}
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.Assert(m != nil, "a value")
	vc.Assert(len(m.GetRecords()) == (len(data)-0)/5, "number of records")
}

// Record k of SpecificConditions comes from its own bytes.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalSpecificConditionRecord
func vRecordSpecificConditions(o UnmarshalOptions, data []byte, k int) {
	m, err := o.unmarshalSpecificConditions(data)
	if err != nil {
		return
	}
	vc.Assume(k >= 0 && k < len(m.GetRecords()))
	vc.At(k)
	r := m.GetRecords()[k]
	b := data[0+5*k : 0+5*k+5]
	w, e := vDD(o).UnmarshalSpecificConditionRecord(b)
	vc.Reach("record")
	vc.Assert(e == nil, "decoded")
	vc.AssertMsg(r, w, "record")
}

// A length that does not fit the layout of SpecificConditionsG2 is an error.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalSpecificConditionRecord
func vLengthSpecificConditionsG2(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalSpecificConditionsG2(data)
	if len(data) < 2 || (len(data)-2)%5 != 0 {
		vc.Reach("unfit")
		vc.Assert(err != nil, "unfit length rejected")
		return
	}
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.Assert(m != nil, "a value")
	vc.Assert(len(m.GetRecords()) == (len(data)-2)/5, "number of records")
	vc.Assert(m.GetNewestRecordIndex() == int32(data[0])<<8|int32(data[1]), "pointer")
}

// Record k of SpecificConditionsG2 comes from its own bytes.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalSpecificConditionRecord
func vRecordSpecificConditionsG2(o UnmarshalOptions, data []byte, k int) {
	m, err := o.unmarshalSpecificConditionsG2(data)
	if err != nil {
		return
	}
	vc.Assume(k >= 0 && k < len(m.GetRecords()))
	vc.At(k)
	r := m.GetRecords()[k]
	b := data[2+5*k : 2+5*k+5]
	w, e := vDD(o).UnmarshalSpecificConditionRecord(b)
	vc.Reach("record")
	vc.Assert(e == nil, "decoded")
	vc.AssertMsg(r, w, "record")
}

// A length that does not fit the layout of EventsData is an error.
//
//vc:lemma C09
func vLengthEventsData(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalEventsData(data)
	if len(data)%24 != 0 {
		vc.Reach("unfit")
		vc.Assert(err != nil, "unfit length rejected")
		return
	}
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.Assert(m != nil, "a value")
	vc.Assert(len(m.GetEvents()) == (len(data)-0)/24, "number of records")
}

// Record k of EventsData comes from its own bytes.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalTimeReal internal/dd/UnmarshalOptions.UnmarshalVehicleRegistration
func vRecordEventsData(o UnmarshalOptions, data []byte, k int) {
	m, err := o.unmarshalEventsData(data)
	if err != nil {
		return
	}
	vc.Assume(k >= 0 && k < len(m.GetEvents()))
	vc.At(k)
	r := m.GetEvents()[k]
	b := data[0+24*k : 0+24*k+24]
	if b[1] == 0 && b[2] == 0 && b[3] == 0 && b[4] == 0 {
		vc.Reach("empty record")
		vc.Assert(!r.GetValid(), "marked invalid")
		vc.AssertBytes(r.GetRawData(), b, "kept")
		return
	}
	w, e := o.unmarshalEventRecord(b)
	vc.Reach("record")
	vc.Assert(e == nil, "decoded")
	w.SetValid(true)
	vc.AssertMsg(r, w, "record")
}

// A length that does not fit the layout of FaultsData is an error.
//
//vc:lemma C09
func vLengthFaultsData(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalFaultsData(data)
	if len(data)%24 != 0 {
		vc.Reach("unfit")
		vc.Assert(err != nil, "unfit length rejected")
		return
	}
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.Assert(m != nil, "a value")
	vc.Assert(len(m.GetFaults()) == (len(data)-0)/24, "number of records")
}

// Record k of FaultsData comes from its own bytes.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalTimeReal internal/dd/UnmarshalOptions.UnmarshalVehicleRegistration
func vRecordFaultsData(o UnmarshalOptions, data []byte, k int) {
	m, err := o.unmarshalFaultsData(data)
	if err != nil {
		return
	}
	vc.Assume(k >= 0 && k < len(m.GetFaults()))
	vc.At(k)
	r := m.GetFaults()[k]
	b := data[0+24*k : 0+24*k+24]
	if b[1] == 0 && b[2] == 0 && b[3] == 0 && b[4] == 0 {
		vc.Reach("empty record")
		vc.Assert(!r.GetValid(), "marked invalid")
		vc.AssertBytes(r.GetRawData(), b, "kept")
		return
	}
	w := &cardv1.FaultsData_Record{}
	e := o.unmarshalFaultRecord(b, w)
	vc.Reach("record")
	vc.Assert(e == nil, "decoded")
	w.SetValid(true)
	vc.AssertMsg(r, w, "record")
}

// A length that does not fit the layout of GnssPlaces is an error.
//
//vc:lemma C09
//vc:using unmarshalGNSSAccumulatedDrivingRecord
func vLengthGnssPlaces(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalGnssPlaces(data)
	if len(data) < 2 || (len(data)-2)%18 != 0 {
		vc.Reach("unfit")
		vc.Assert(err != nil, "unfit length rejected")
		return
	}
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.Assert(m != nil, "a value")
	vc.Assert(len(m.GetRecords()) == (len(data)-2)/18, "number of records")
	vc.Assert(m.GetNewestRecordIndex() == int32(data[0])<<8|int32(data[1]), "pointer")
}

// Record k of GnssPlaces comes from its own bytes.
//
//vc:lemma C09
//vc:using unmarshalGNSSAccumulatedDrivingRecord
func vRecordGnssPlaces(o UnmarshalOptions, data []byte, k int) {
	m, err := o.unmarshalGnssPlaces(data)
	if err != nil {
		return
	}
	vc.Assume(k >= 0 && k < len(m.GetRecords()))
	vc.At(k)
	r := m.GetRecords()[k]
	b := data[2+18*k : 2+18*k+18]
	w, e := unmarshalGNSSAccumulatedDrivingRecord(b, o)
	vc.Reach("record")
	vc.Assert(e == nil, "decoded")
	vc.AssertMsg(r, w, "record")
}

// A length that does not fit the layout of VehicleUnitsUsed is an error.
//
//vc:lemma C09
//vc:using unmarshalCardVehicleUnitRecord
func vLengthVehicleUnitsUsed(o UnmarshalOptions, data []byte) {
	m, err := o.unmarshalVehicleUnitsUsed(data)
	if len(data) < 2 || (len(data)-2)%10 != 0 {
		vc.Reach("unfit")
		vc.Assert(err != nil, "unfit length rejected")
		return
	}
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.Assert(m != nil, "a value")
	vc.Assert(len(m.GetRecords()) == (len(data)-2)/10, "number of records")
	vc.Assert(m.GetVehicleUnitPointerNewestRecord() == int32(data[0])<<8|int32(data[1]), "pointer")
}

// Record k of VehicleUnitsUsed comes from its own bytes.
//
//vc:lemma C09
//vc:using unmarshalCardVehicleUnitRecord
func vRecordVehicleUnitsUsed(o UnmarshalOptions, data []byte, k int) {
	m, err := o.unmarshalVehicleUnitsUsed(data)
	if err != nil {
		return
	}
	vc.Assume(k >= 0 && k < len(m.GetRecords()))
	vc.At(k)
	r := m.GetRecords()[k]
	b := data[2+10*k : 2+10*k+10]
	w, e := unmarshalCardVehicleUnitRecord(b, o)
	vc.Reach("record")
	vc.Assert(e == nil, "decoded")
	vc.AssertMsg(r, w, "record")
}

// Event records: type, begin, end, registration at their own offsets.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalTimeReal internal/dd/UnmarshalOptions.UnmarshalVehicleRegistration
func vFieldsEvent(o UnmarshalOptions, data []byte) {
	r, err := o.unmarshalEventRecord(data)
	if len(data) < 24 {
		vc.Assert(err != nil, "short")
		return
	}
	if err != nil {
		return
	}
	vc.Reach("decoded")
	t, e0 := dd.UnmarshalEnum[ddv1.EventFaultType](data[0])
	vc.Assert(e0 == nil && r.GetEventType() == t, "type")
	begin, e1 := vDD(o).UnmarshalTimeReal(data[1:5])
	vc.Assert(e1 == nil, "begin decoded")
	vc.AssertMsg(r.GetEventBeginTime(), begin, "begin")
	end, e2 := vDD(o).UnmarshalTimeReal(data[5:9])
	vc.Assert(e2 == nil, "end decoded")
	vc.AssertMsg(r.GetEventEndTime(), end, "end")
	reg, e3 := vDD(o).UnmarshalVehicleRegistration(data[9:24])
	vc.Assert(e3 == nil, "registration decoded")
	vc.AssertMsg(r.GetEventVehicleRegistration(), reg, "registration")
}

// Fault records: type, begin, end, registration at their own offsets.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalTimeReal internal/dd/UnmarshalOptions.UnmarshalVehicleRegistration
func vFieldsFault(o UnmarshalOptions, data []byte) {
	r := &cardv1.FaultsData_Record{}
	err := o.unmarshalFaultRecord(data, r)
	if len(data) < 24 {
		vc.Assert(err != nil, "short")
		return
	}
	if err != nil {
		return
	}
	vc.Reach("decoded")
	t, e0 := dd.UnmarshalEnum[ddv1.EventFaultType](data[0])
	vc.Assert(e0 == nil && r.GetFaultType() == t, "type")
	begin, e1 := vDD(o).UnmarshalTimeReal(data[1:5])
	vc.Assert(e1 == nil, "begin decoded")
	vc.AssertMsg(r.GetFaultBeginTime(), begin, "begin")
	end, e2 := vDD(o).UnmarshalTimeReal(data[5:9])
	vc.Assert(e2 == nil, "end decoded")
	vc.AssertMsg(r.GetFaultEndTime(), end, "end")
	reg, e3 := vDD(o).UnmarshalVehicleRegistration(data[9:24])
	vc.Assert(e3 == nil, "registration decoded")
	vc.AssertMsg(r.GetFaultVehicleRegistration(), reg, "registration")
}

// GNSS records: time, place and odometer at their own offsets.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalTimeReal internal/dd/UnmarshalOptions.UnmarshalGNSSPlaceRecord
func vFieldsGnss(o UnmarshalOptions, data []byte) {
	r, err := unmarshalGNSSAccumulatedDrivingRecord(data, o)
	if len(data) != 18 {
		vc.Assert(err != nil, "length")
		return
	}
	if err != nil {
		return
	}
	vc.Reach("decoded")
	t, e1 := vDD(o).UnmarshalTimeReal(data[0:4])
	vc.Assert(e1 == nil, "time decoded")
	vc.AssertMsg(r.GetTimestamp(), t, "time")
	p, e2 := vDD(o).UnmarshalGNSSPlaceRecord(data[4:15])
	vc.Assert(e2 == nil, "place decoded")
	vc.AssertMsg(r.GetGnssPlaceRecord(), p, "place")
	vc.Assert(r.GetVehicleOdometerKm() == int32(data[15])<<16|int32(data[16])<<8|int32(data[17]), "odometer")
}

// Vehicle unit records: time, manufacturer, device and software version at their own offsets.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalTimeReal
func vFieldsUnit(o UnmarshalOptions, data []byte) {
	r, err := unmarshalCardVehicleUnitRecord(data, o)
	if len(data) != 10 {
		vc.Assert(err != nil, "length")
		return
	}
	if err != nil {
		return
	}
	vc.Reach("decoded")
	t, e1 := vDD(o).UnmarshalTimeReal(data[0:4])
	vc.Assert(e1 == nil, "time decoded")
	vc.AssertMsg(r.GetTimestamp(), t, "time")
	vc.Assert(r.GetManufacturerCode() == int32(data[4]), "manufacturer")
	vc.AssertBytes(r.GetDeviceId(), data[5:6], "device")
	vc.AssertBytes(r.GetVuSoftwareVersion(), data[6:10], "version")
}
