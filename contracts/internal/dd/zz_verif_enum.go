// Code generated by tools/gen_enum.py; DO NOT EDIT.

package dd

import (
	"github.com/way-platform/tachograph-go/internal/vc"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

// vTableGeneration is the regulation's code table.
func vTableGeneration(b byte) (ddv1.Generation, bool) {
	switch b {
	case 0x01:
		return ddv1.Generation_GENERATION_1, true
	case 0x02:
		return ddv1.Generation_GENERATION_2, true
	}
	return 0, false
}

//vc:lemma C08
func vEnumGenerationDecode(b byte) {
	want, defined := vTableGeneration(b)
	got, err := UnmarshalEnum[ddv1.Generation](b)
	vc.Assert((err == nil) == defined, "exactly the defined codes are accepted")
	if err != nil {
		vc.Reach("undefined code")
		return
	}
	vc.Reach("defined code")
	vc.Assert(got == want, "the code's own enumerator")
	back, err := MarshalEnum(got)
	vc.Assert(err == nil, "the enumerator has a code")
	vc.Assert(back == b, "the same code is encoded")
}

//vc:lemma C08
func vEnumGenerationEncode(v ddv1.Generation) {
	b, err := MarshalEnum(v)
	if err != nil {
		vc.Assert(v < 1 || v > 2, "every defined enumerator is encoded")
		return
	}
	vc.Reach("encoded")
	want, defined := vTableGeneration(b)
	vc.Assert(defined && want == v, "the enumerator's own code")
	back, err := UnmarshalEnum[ddv1.Generation](b)
	vc.Assert(err == nil && back == v, "decodes to the same enumerator")
}

// vTableCompanyActivityType is the regulation's code table.
func vTableCompanyActivityType(b byte) (ddv1.CompanyActivityType, bool) {
	switch b {
	case 0x01:
		return ddv1.CompanyActivityType_CARD_DOWNLOADING, true
	case 0x02:
		return ddv1.CompanyActivityType_VU_DOWNLOADING, true
	case 0x03:
		return ddv1.CompanyActivityType_VU_LOCK_IN, true
	case 0x04:
		return ddv1.CompanyActivityType_VU_LOCK_OUT, true
	}
	return 0, false
}

//vc:lemma C08
func vEnumCompanyActivityTypeDecode(b byte) {
	want, defined := vTableCompanyActivityType(b)
	got, err := UnmarshalEnum[ddv1.CompanyActivityType](b)
	vc.Assert((err == nil) == defined, "exactly the defined codes are accepted")
	if err != nil {
		vc.Reach("undefined code")
		return
	}
	vc.Reach("defined code")
	vc.Assert(got == want, "the code's own enumerator")
	back, err := MarshalEnum(got)
	vc.Assert(err == nil, "the enumerator has a code")
	vc.Assert(back == b, "the same code is encoded")
}

//vc:lemma C08
func vEnumCompanyActivityTypeEncode(v ddv1.CompanyActivityType) {
	b, err := MarshalEnum(v)
	if err != nil {
		vc.Assert(v < 2 || v > 5, "every defined enumerator is encoded")
		return
	}
	vc.Reach("encoded")
	want, defined := vTableCompanyActivityType(b)
	vc.Assert(defined && want == v, "the enumerator's own code")
	back, err := UnmarshalEnum[ddv1.CompanyActivityType](b)
	vc.Assert(err == nil && back == v, "decodes to the same enumerator")
}

// vTableEquipmentType is the regulation's code table.
func vTableEquipmentType(b byte) (ddv1.EquipmentType, bool) {
	switch b {
	case 0x00:
		return ddv1.EquipmentType_RESERVED_MEMBER_STATE_OR_EUROPE, true
	case 0x01:
		return ddv1.EquipmentType_DRIVER_CARD, true
	case 0x02:
		return ddv1.EquipmentType_WORKSHOP_CARD, true
	case 0x03:
		return ddv1.EquipmentType_CONTROL_CARD, true
	case 0x04:
		return ddv1.EquipmentType_COMPANY_CARD, true
	case 0x05:
		return ddv1.EquipmentType_MANUFACTURING_CARD, true
	case 0x06:
		return ddv1.EquipmentType_VEHICLE_UNIT, true
	case 0x07:
		return ddv1.EquipmentType_MOTION_SENSOR, true
	case 0x08:
		return ddv1.EquipmentType_GNSS_FACILITY, true
	case 0x09:
		return ddv1.EquipmentType_REMOTE_COMMUNICATION_MODULE, true
	case 0x0a:
		return ddv1.EquipmentType_ITS_INTERFACE_MODULE, true
	case 0x0b:
		return ddv1.EquipmentType_PLAQUE, true
	case 0x0c:
		return ddv1.EquipmentType_M1_N1_ADAPTER, true
	case 0x0d:
		return ddv1.EquipmentType_EUROPEAN_ROOT_CA, true
	case 0x0e:
		return ddv1.EquipmentType_MEMBER_STATE_CA, true
	case 0x0f:
		return ddv1.EquipmentType_EXTERNAL_GNSS_CONNECTION, true
	case 0x10:
		return ddv1.EquipmentType_UNUSED, true
	case 0x11:
		return ddv1.EquipmentType_DRIVER_CARD_SIGN, true
	case 0x12:
		return ddv1.EquipmentType_WORKSHOP_CARD_SIGN, true
	case 0x13:
		return ddv1.EquipmentType_VEHICLE_UNIT_SIGN, true
	}
	return 0, false
}

//vc:lemma C08
func vEnumEquipmentTypeDecode(b byte) {
	want, defined := vTableEquipmentType(b)
	got, err := UnmarshalEnum[ddv1.EquipmentType](b)
	vc.Assert((err == nil) == defined, "exactly the defined codes are accepted")
	if err != nil {
		vc.Reach("undefined code")
		return
	}
	vc.Reach("defined code")
	vc.Assert(got == want, "the code's own enumerator")
	back, err := MarshalEnum(got)
	vc.Assert(err == nil, "the enumerator has a code")
	vc.Assert(back == b, "the same code is encoded")
}

//vc:lemma C08
func vEnumEquipmentTypeEncode(v ddv1.EquipmentType) {
	b, err := MarshalEnum(v)
	if err != nil {
		vc.Assert(v < 2 || v > 21, "every defined enumerator is encoded")
		return
	}
	vc.Reach("encoded")
	want, defined := vTableEquipmentType(b)
	vc.Assert(defined && want == v, "the enumerator's own code")
	back, err := UnmarshalEnum[ddv1.EquipmentType](b)
	vc.Assert(err == nil && back == v, "decodes to the same enumerator")
}

// vTableSlotCardType is the regulation's code table.
func vTableSlotCardType(b byte) (ddv1.SlotCardType, bool) {
	switch b {
	case 0x00:
		return ddv1.SlotCardType_NO_CARD, true
	case 0x01:
		return ddv1.SlotCardType_DRIVER_CARD_INSERTED, true
	case 0x02:
		return ddv1.SlotCardType_WORKSHOP_CARD_INSERTED, true
	case 0x03:
		return ddv1.SlotCardType_CONTROL_CARD_INSERTED, true
	case 0x04:
		return ddv1.SlotCardType_COMPANY_CARD_INSERTED, true
	}
	return 0, false
}

//vc:lemma C08
func vEnumSlotCardTypeDecode(b byte) {
	want, defined := vTableSlotCardType(b)
	got, err := UnmarshalEnum[ddv1.SlotCardType](b)
	vc.Assert((err == nil) == defined, "exactly the defined codes are accepted")
	if err != nil {
		vc.Reach("undefined code")
		return
	}
	vc.Reach("defined code")
	vc.Assert(got == want, "the code's own enumerator")
	back, err := MarshalEnum(got)
	vc.Assert(err == nil, "the enumerator has a code")
	vc.Assert(back == b, "the same code is encoded")
}

//vc:lemma C08
func vEnumSlotCardTypeEncode(v ddv1.SlotCardType) {
	b, err := MarshalEnum(v)
	if err != nil {
		vc.Assert(v < 2 || v > 6, "every defined enumerator is encoded")
		return
	}
	vc.Reach("encoded")
	want, defined := vTableSlotCardType(b)
	vc.Assert(defined && want == v, "the enumerator's own code")
	back, err := UnmarshalEnum[ddv1.SlotCardType](b)
	vc.Assert(err == nil && back == v, "decodes to the same enumerator")
}

// vTableCardSlotNumber is the regulation's code table.
func vTableCardSlotNumber(b byte) (ddv1.CardSlotNumber, bool) {
	switch b {
	case 0x00:
		return ddv1.CardSlotNumber_DRIVER_SLOT, true
	case 0x01:
		return ddv1.CardSlotNumber_CO_DRIVER_SLOT, true
	}
	return 0, false
}

//vc:lemma C08
func vEnumCardSlotNumberDecode(b byte) {
	want, defined := vTableCardSlotNumber(b)
	got, err := UnmarshalEnum[ddv1.CardSlotNumber](b)
	vc.Assert((err == nil) == defined, "exactly the defined codes are accepted")
	if err != nil {
		vc.Reach("undefined code")
		return
	}
	vc.Reach("defined code")
	vc.Assert(got == want, "the code's own enumerator")
	back, err := MarshalEnum(got)
	vc.Assert(err == nil, "the enumerator has a code")
	vc.Assert(back == b, "the same code is encoded")
}

//vc:lemma C08
func vEnumCardSlotNumberEncode(v ddv1.CardSlotNumber) {
	b, err := MarshalEnum(v)
	if err != nil {
		vc.Assert(v < 2 || v > 3, "every defined enumerator is encoded")
		return
	}
	vc.Reach("encoded")
	want, defined := vTableCardSlotNumber(b)
	vc.Assert(defined && want == v, "the enumerator's own code")
	back, err := UnmarshalEnum[ddv1.CardSlotNumber](b)
	vc.Assert(err == nil && back == v, "decodes to the same enumerator")
}

// vTablePositionAuthenticationStatus is the regulation's code table.
func vTablePositionAuthenticationStatus(b byte) (ddv1.PositionAuthenticationStatus, bool) {
	switch b {
	case 0x00:
		return ddv1.PositionAuthenticationStatus_NOT_AUTHENTICATED, true
	case 0x01:
		return ddv1.PositionAuthenticationStatus_AUTHENTICATED, true
	}
	return 0, false
}

//vc:lemma C08
func vEnumPositionAuthenticationStatusDecode(b byte) {
	want, defined := vTablePositionAuthenticationStatus(b)
	got, err := UnmarshalEnum[ddv1.PositionAuthenticationStatus](b)
	vc.Assert((err == nil) == defined, "exactly the defined codes are accepted")
	if err != nil {
		vc.Reach("undefined code")
		return
	}
	vc.Reach("defined code")
	vc.Assert(got == want, "the code's own enumerator")
	back, err := MarshalEnum(got)
	vc.Assert(err == nil, "the enumerator has a code")
	vc.Assert(back == b, "the same code is encoded")
}

//vc:lemma C08
func vEnumPositionAuthenticationStatusEncode(v ddv1.PositionAuthenticationStatus) {
	b, err := MarshalEnum(v)
	if err != nil {
		vc.Assert(v < 2 || v > 3, "every defined enumerator is encoded")
		return
	}
	vc.Reach("encoded")
	want, defined := vTablePositionAuthenticationStatus(b)
	vc.Assert(defined && want == v, "the enumerator's own code")
	back, err := UnmarshalEnum[ddv1.PositionAuthenticationStatus](b)
	vc.Assert(err == nil && back == v, "decodes to the same enumerator")
}

// vTableSpecificConditionType is the regulation's code table.
func vTableSpecificConditionType(b byte) (ddv1.SpecificConditionType, bool) {
	switch b {
	case 0x00:
		return ddv1.SpecificConditionType_RFU, true
	case 0x01:
		return ddv1.SpecificConditionType_OUT_OF_SCOPE_BEGIN, true
	case 0x02:
		return ddv1.SpecificConditionType_OUT_OF_SCOPE_END, true
	case 0x03:
		return ddv1.SpecificConditionType_FERRY_TRAIN_CROSSING_BEGIN, true
	case 0x04:
		return ddv1.SpecificConditionType_FERRY_TRAIN_CROSSING_END, true
	}
	return 0, false
}

//vc:lemma C08
func vEnumSpecificConditionTypeDecode(b byte) {
	want, defined := vTableSpecificConditionType(b)
	got, err := UnmarshalEnum[ddv1.SpecificConditionType](b)
	vc.Assert((err == nil) == defined, "exactly the defined codes are accepted")
	if err != nil {
		vc.Reach("undefined code")
		return
	}
	vc.Reach("defined code")
	vc.Assert(got == want, "the code's own enumerator")
	back, err := MarshalEnum(got)
	vc.Assert(err == nil, "the enumerator has a code")
	vc.Assert(back == b, "the same code is encoded")
}

//vc:lemma C08
func vEnumSpecificConditionTypeEncode(v ddv1.SpecificConditionType) {
	b, err := MarshalEnum(v)
	if err != nil {
		vc.Assert(v < 2 || v > 6, "every defined enumerator is encoded")
		return
	}
	vc.Reach("encoded")
	want, defined := vTableSpecificConditionType(b)
	vc.Assert(defined && want == v, "the enumerator's own code")
	back, err := UnmarshalEnum[ddv1.SpecificConditionType](b)
	vc.Assert(err == nil && back == v, "decodes to the same enumerator")
}

// vTableDriverActivityValue is the regulation's code table.
func vTableDriverActivityValue(b byte) (ddv1.DriverActivityValue, bool) {
	switch b {
	case 0x00:
		return ddv1.DriverActivityValue_BREAK_REST, true
	case 0x01:
		return ddv1.DriverActivityValue_AVAILABILITY, true
	case 0x02:
		return ddv1.DriverActivityValue_WORK, true
	case 0x03:
		return ddv1.DriverActivityValue_DRIVING, true
	}
	return 0, false
}

//vc:lemma C08
func vEnumDriverActivityValueDecode(b byte) {
	want, defined := vTableDriverActivityValue(b)
	got, err := UnmarshalEnum[ddv1.DriverActivityValue](b)
	vc.Assert((err == nil) == defined, "exactly the defined codes are accepted")
	if err != nil {
		vc.Reach("undefined code")
		return
	}
	vc.Reach("defined code")
	vc.Assert(got == want, "the code's own enumerator")
	back, err := MarshalEnum(got)
	vc.Assert(err == nil, "the enumerator has a code")
	vc.Assert(back == b, "the same code is encoded")
}

//vc:lemma C08
func vEnumDriverActivityValueEncode(v ddv1.DriverActivityValue) {
	b, err := MarshalEnum(v)
	if err != nil {
		vc.Assert(v < 2 || v > 5, "every defined enumerator is encoded")
		return
	}
	vc.Reach("encoded")
	want, defined := vTableDriverActivityValue(b)
	vc.Assert(defined && want == v, "the enumerator's own code")
	back, err := UnmarshalEnum[ddv1.DriverActivityValue](b)
	vc.Assert(err == nil && back == v, "decodes to the same enumerator")
}

// vTableClockStopMode is the regulation's code table.
func vTableClockStopMode(b byte) (ddv1.ClockStopMode, bool) {
	switch b {
	case 0x00:
		return ddv1.ClockStopMode_NOT_ALLOWED, true
	case 0x01:
		return ddv1.ClockStopMode_ALLOWED_NO_PREFERENCE, true
	case 0x02:
		return ddv1.ClockStopMode_ALLOWED_ONLY_HIGH_LEVEL, true
	case 0x03:
		return ddv1.ClockStopMode_ALLOWED_HIGH_LEVEL_PREFERRED, true
	case 0x04:
		return ddv1.ClockStopMode_ALLOWED_ONLY_LOW_LEVEL, true
	case 0x05:
		return ddv1.ClockStopMode_ALLOWED_LOW_LEVEL_PREFERRED, true
	}
	return 0, false
}

//vc:lemma C08
func vEnumClockStopModeDecode(b byte) {
	want, defined := vTableClockStopMode(b)
	got, err := UnmarshalEnum[ddv1.ClockStopMode](b)
	vc.Assert((err == nil) == defined, "exactly the defined codes are accepted")
	if err != nil {
		vc.Reach("undefined code")
		return
	}
	vc.Reach("defined code")
	vc.Assert(got == want, "the code's own enumerator")
	back, err := MarshalEnum(got)
	vc.Assert(err == nil, "the enumerator has a code")
	vc.Assert(back == b, "the same code is encoded")
}

//vc:lemma C08
func vEnumClockStopModeEncode(v ddv1.ClockStopMode) {
	b, err := MarshalEnum(v)
	if err != nil {
		vc.Assert(v < 2 || v > 7, "every defined enumerator is encoded")
		return
	}
	vc.Reach("encoded")
	want, defined := vTableClockStopMode(b)
	vc.Assert(defined && want == v, "the enumerator's own code")
	back, err := UnmarshalEnum[ddv1.ClockStopMode](b)
	vc.Assert(err == nil && back == v, "decodes to the same enumerator")
}

// vTableCalibrationPurpose is the regulation's code table.
func vTableCalibrationPurpose(b byte) (ddv1.CalibrationPurpose, bool) {
	switch b {
	case 0x00:
		return ddv1.CalibrationPurpose_CALIBRATION_PURPOSE_RESERVED, true
	case 0x01:
		return ddv1.CalibrationPurpose_ACTIVATION, true
	case 0x02:
		return ddv1.CalibrationPurpose_FIRST_INSTALLATION, true
	case 0x03:
		return ddv1.CalibrationPurpose_INSTALLATION, true
	case 0x04:
		return ddv1.CalibrationPurpose_PERIODIC_INSPECTION, true
	case 0x05:
		return ddv1.CalibrationPurpose_VRN_ENTRY_BY_COMPANY, true
	case 0x06:
		return ddv1.CalibrationPurpose_TIME_ADJUSTMENT, true
	}
	return 0, false
}

//vc:lemma C08
func vEnumCalibrationPurposeDecode(b byte) {
	want, defined := vTableCalibrationPurpose(b)
	got, err := UnmarshalEnum[ddv1.CalibrationPurpose](b)
	vc.Assert((err == nil) == defined, "exactly the defined codes are accepted")
	if err != nil {
		vc.Reach("undefined code")
		return
	}
	vc.Reach("defined code")
	vc.Assert(got == want, "the code's own enumerator")
	back, err := MarshalEnum(got)
	vc.Assert(err == nil, "the enumerator has a code")
	vc.Assert(back == b, "the same code is encoded")
}

//vc:lemma C08
func vEnumCalibrationPurposeEncode(v ddv1.CalibrationPurpose) {
	b, err := MarshalEnum(v)
	if err != nil {
		vc.Assert(v < 2 || v > 8, "every defined enumerator is encoded")
		return
	}
	vc.Reach("encoded")
	want, defined := vTableCalibrationPurpose(b)
	vc.Assert(defined && want == v, "the enumerator's own code")
	back, err := UnmarshalEnum[ddv1.CalibrationPurpose](b)
	vc.Assert(err == nil && back == v, "decodes to the same enumerator")
}

// vTableDrivingStatus is the regulation's code table.
func vTableDrivingStatus(b byte) (ddv1.DrivingStatus, bool) {
	switch b {
	case 0x00:
		return ddv1.DrivingStatus_SINGLE, true
	case 0x01:
		return ddv1.DrivingStatus_CREW, true
	}
	return 0, false
}

//vc:lemma C08
func vEnumDrivingStatusDecode(b byte) {
	want, defined := vTableDrivingStatus(b)
	got, err := UnmarshalEnum[ddv1.DrivingStatus](b)
	vc.Assert((err == nil) == defined, "exactly the defined codes are accepted")
	if err != nil {
		vc.Reach("undefined code")
		return
	}
	vc.Reach("defined code")
	vc.Assert(got == want, "the code's own enumerator")
	back, err := MarshalEnum(got)
	vc.Assert(err == nil, "the enumerator has a code")
	vc.Assert(back == b, "the same code is encoded")
}

//vc:lemma C08
func vEnumDrivingStatusEncode(v ddv1.DrivingStatus) {
	b, err := MarshalEnum(v)
	if err != nil {
		vc.Assert(v < 2 || v > 3, "every defined enumerator is encoded")
		return
	}
	vc.Reach("encoded")
	want, defined := vTableDrivingStatus(b)
	vc.Assert(defined && want == v, "the enumerator's own code")
	back, err := UnmarshalEnum[ddv1.DrivingStatus](b)
	vc.Assert(err == nil && back == v, "decodes to the same enumerator")
}

// vTableEventFaultRecordPurpose is the regulation's code table.
func vTableEventFaultRecordPurpose(b byte) (ddv1.EventFaultRecordPurpose, bool) {
	switch b {
	case 0x00:
		return ddv1.EventFaultRecordPurpose_TEN_MOST_RECENT, true
	case 0x01:
		return ddv1.EventFaultRecordPurpose_LONGEST_IN_LAST_10_DAYS, true
	case 0x02:
		return ddv1.EventFaultRecordPurpose_FIVE_LONGEST_IN_LAST_365_DAYS, true
	case 0x03:
		return ddv1.EventFaultRecordPurpose_LAST_IN_LAST_10_DAYS, true
	case 0x04:
		return ddv1.EventFaultRecordPurpose_MOST_SERIOUS_IN_LAST_10_DAYS, true
	case 0x05:
		return ddv1.EventFaultRecordPurpose_FIVE_MOST_SERIOUS_IN_LAST_365_DAYS, true
	case 0x06:
		return ddv1.EventFaultRecordPurpose_FIRST_AFTER_LAST_CALIBRATION, true
	case 0x07:
		return ddv1.EventFaultRecordPurpose_ACTIVE_OR_ONGOING, true
	}
	return 0, false
}

//vc:lemma C08
func vEnumEventFaultRecordPurposeDecode(b byte) {
	want, defined := vTableEventFaultRecordPurpose(b)
	got, err := UnmarshalEnum[ddv1.EventFaultRecordPurpose](b)
	vc.Assert((err == nil) == defined, "exactly the defined codes are accepted")
	if err != nil {
		vc.Reach("undefined code")
		return
	}
	vc.Reach("defined code")
	vc.Assert(got == want, "the code's own enumerator")
	back, err := MarshalEnum(got)
	vc.Assert(err == nil, "the enumerator has a code")
	vc.Assert(back == b, "the same code is encoded")
}

//vc:lemma C08
func vEnumEventFaultRecordPurposeEncode(v ddv1.EventFaultRecordPurpose) {
	b, err := MarshalEnum(v)
	if err != nil {
		vc.Assert(v < 2 || v > 9, "every defined enumerator is encoded")
		return
	}
	vc.Reach("encoded")
	want, defined := vTableEventFaultRecordPurpose(b)
	vc.Assert(defined && want == v, "the enumerator's own code")
	back, err := UnmarshalEnum[ddv1.EventFaultRecordPurpose](b)
	vc.Assert(err == nil && back == v, "decodes to the same enumerator")
}

// vTableOperationType is the regulation's code table.
func vTableOperationType(b byte) (ddv1.OperationType, bool) {
	switch b {
	case 0x01:
		return ddv1.OperationType_LOAD_OPERATION, true
	case 0x02:
		return ddv1.OperationType_UNLOAD_OPERATION, true
	case 0x03:
		return ddv1.OperationType_SIMULTANEOUS_LOAD_UNLOAD_OPERATION, true
	}
	return 0, false
}

//vc:lemma C08
func vEnumOperationTypeDecode(b byte) {
	want, defined := vTableOperationType(b)
	got, err := UnmarshalEnum[ddv1.OperationType](b)
	vc.Assert((err == nil) == defined, "exactly the defined codes are accepted")
	if err != nil {
		vc.Reach("undefined code")
		return
	}
	vc.Reach("defined code")
	vc.Assert(got == want, "the code's own enumerator")
	back, err := MarshalEnum(got)
	vc.Assert(err == nil, "the enumerator has a code")
	vc.Assert(back == b, "the same code is encoded")
}

//vc:lemma C08
func vEnumOperationTypeEncode(v ddv1.OperationType) {
	b, err := MarshalEnum(v)
	if err != nil {
		vc.Assert(v < 2 || v > 4, "every defined enumerator is encoded")
		return
	}
	vc.Reach("encoded")
	want, defined := vTableOperationType(b)
	vc.Assert(defined && want == v, "the enumerator's own code")
	back, err := UnmarshalEnum[ddv1.OperationType](b)
	vc.Assert(err == nil && back == v, "decodes to the same enumerator")
}

// vTableLoadType is the regulation's code table.
func vTableLoadType(b byte) (ddv1.LoadType, bool) {
	switch b {
	case 0x00:
		return ddv1.LoadType_NOT_DEFINED, true
	case 0x01:
		return ddv1.LoadType_GOODS, true
	case 0x02:
		return ddv1.LoadType_PASSENGERS, true
	}
	return 0, false
}

//vc:lemma C08
func vEnumLoadTypeDecode(b byte) {
	want, defined := vTableLoadType(b)
	got, err := UnmarshalEnum[ddv1.LoadType](b)
	vc.Assert((err == nil) == defined, "exactly the defined codes are accepted")
	if err != nil {
		vc.Reach("undefined code")
		return
	}
	vc.Reach("defined code")
	vc.Assert(got == want, "the code's own enumerator")
	back, err := MarshalEnum(got)
	vc.Assert(err == nil, "the enumerator has a code")
	vc.Assert(back == b, "the same code is encoded")
}

//vc:lemma C08
func vEnumLoadTypeEncode(v ddv1.LoadType) {
	b, err := MarshalEnum(v)
	if err != nil {
		vc.Assert(v < 2 || v > 4, "every defined enumerator is encoded")
		return
	}
	vc.Reach("encoded")
	want, defined := vTableLoadType(b)
	vc.Assert(defined && want == v, "the enumerator's own code")
	back, err := UnmarshalEnum[ddv1.LoadType](b)
	vc.Assert(err == nil && back == v, "decodes to the same enumerator")
}

// vTableEntryTypeDailyWorkPeriod is the regulation's code table.
func vTableEntryTypeDailyWorkPeriod(b byte) (ddv1.EntryTypeDailyWorkPeriod, bool) {
	switch b {
	case 0x00:
		return ddv1.EntryTypeDailyWorkPeriod_BEGIN, true
	case 0x01:
		return ddv1.EntryTypeDailyWorkPeriod_END, true
	case 0x02:
		return ddv1.EntryTypeDailyWorkPeriod_BEGIN_GNSS, true
	case 0x03:
		return ddv1.EntryTypeDailyWorkPeriod_END_GNSS, true
	case 0x04:
		return ddv1.EntryTypeDailyWorkPeriod_BEGIN_ITS, true
	case 0x05:
		return ddv1.EntryTypeDailyWorkPeriod_END_ITS, true
	}
	return 0, false
}

//vc:lemma C08
func vEnumEntryTypeDailyWorkPeriodDecode(b byte) {
	want, defined := vTableEntryTypeDailyWorkPeriod(b)
	got, err := UnmarshalEnum[ddv1.EntryTypeDailyWorkPeriod](b)
	vc.Assert((err == nil) == defined, "exactly the defined codes are accepted")
	if err != nil {
		vc.Reach("undefined code")
		return
	}
	vc.Reach("defined code")
	vc.Assert(got == want, "the code's own enumerator")
	back, err := MarshalEnum(got)
	vc.Assert(err == nil, "the enumerator has a code")
	vc.Assert(back == b, "the same code is encoded")
}

//vc:lemma C08
func vEnumEntryTypeDailyWorkPeriodEncode(v ddv1.EntryTypeDailyWorkPeriod) {
	b, err := MarshalEnum(v)
	if err != nil {
		vc.Assert(v < 2 || v > 7, "every defined enumerator is encoded")
		return
	}
	vc.Reach("encoded")
	want, defined := vTableEntryTypeDailyWorkPeriod(b)
	vc.Assert(defined && want == v, "the enumerator's own code")
	back, err := UnmarshalEnum[ddv1.EntryTypeDailyWorkPeriod](b)
	vc.Assert(err == nil && back == v, "decodes to the same enumerator")
}

// vTableEventFaultType is the regulation's code table.
func vTableEventFaultType(b byte) (ddv1.EventFaultType, bool) {
	switch b {
	case 0x00:
		return ddv1.EventFaultType_GENERAL_NO_FURTHER_DETAILS, true
	case 0x01:
		return ddv1.EventFaultType_GENERAL_INSERTION_OF_NON_VALID_CARD, true
	case 0x02:
		return ddv1.EventFaultType_GENERAL_CARD_CONFLICT, true
	case 0x03:
		return ddv1.EventFaultType_GENERAL_TIME_OVERLAP, true
	case 0x04:
		return ddv1.EventFaultType_GENERAL_DRIVING_WITHOUT_APPROPRIATE_CARD, true
	case 0x05:
		return ddv1.EventFaultType_GENERAL_CARD_INSERTION_WHILE_DRIVING, true
	case 0x06:
		return ddv1.EventFaultType_GENERAL_LAST_CARD_SESSION_NOT_CORRECTLY_CLOSED, true
	case 0x07:
		return ddv1.EventFaultType_GENERAL_OVER_SPEEDING, true
	case 0x08:
		return ddv1.EventFaultType_GENERAL_POWER_SUPPLY_INTERRUPTION, true
	case 0x09:
		return ddv1.EventFaultType_GENERAL_MOTION_DATA_ERROR, true
	case 0x0a:
		return ddv1.EventFaultType_GENERAL_VEHICLE_MOTION_CONFLICT, true
	case 0x0b:
		return ddv1.EventFaultType_GENERAL_TIME_CONFLICT_GNSS_VS_VU, true
	case 0x0c:
		return ddv1.EventFaultType_GENERAL_COMM_ERROR_REMOTE_COMM_FACILITY, true
	case 0x0d:
		return ddv1.EventFaultType_GENERAL_ABSENCE_OF_POSITION_INFO_FROM_GNSS, true
	case 0x0e:
		return ddv1.EventFaultType_GENERAL_COMM_ERROR_EXTERNAL_GNSS_FACILITY, true
	case 0x0f:
		return ddv1.EventFaultType_GENERAL_GNSS_ANOMALY, true
	case 0x10:
		return ddv1.EventFaultType_VU_SEC_NO_FURTHER_DETAILS, true
	case 0x11:
		return ddv1.EventFaultType_VU_SEC_MOTION_SENSOR_AUTH_FAILURE, true
	case 0x12:
		return ddv1.EventFaultType_VU_SEC_TACHOGRAPH_CARD_AUTH_FAILURE, true
	case 0x13:
		return ddv1.EventFaultType_VU_SEC_UNAUTHORISED_CHANGE_OF_MOTION_SENSOR, true
	case 0x14:
		return ddv1.EventFaultType_VU_SEC_CARD_DATA_INPUT_INTEGRITY_ERROR, true
	case 0x15:
		return ddv1.EventFaultType_VU_SEC_STORED_USER_DATA_INTEGRITY_ERROR, true
	case 0x16:
		return ddv1.EventFaultType_VU_SEC_INTERNAL_DATA_TRANSFER_ERROR, true
	case 0x17:
		return ddv1.EventFaultType_VU_SEC_UNAUTHORISED_CASE_OPENING, true
	case 0x18:
		return ddv1.EventFaultType_VU_SEC_HARDWARE_SABOTAGE, true
	case 0x19:
		return ddv1.EventFaultType_VU_SEC_TAMPER_DETECTION_OF_GNSS, true
	case 0x1a:
		return ddv1.EventFaultType_VU_SEC_EXTERNAL_GNSS_FACILITY_AUTH_FAILURE, true
	case 0x1b:
		return ddv1.EventFaultType_VU_SEC_EXTERNAL_GNSS_FACILITY_CERT_EXPIRED, true
	case 0x1c:
		return ddv1.EventFaultType_VU_SEC_INCONSISTENCY_MOTION_VS_ACTIVITY, true
	case 0x20:
		return ddv1.EventFaultType_SENSOR_SEC_NO_FURTHER_DETAILS, true
	case 0x21:
		return ddv1.EventFaultType_SENSOR_SEC_AUTHENTICATION_FAILURE, true
	case 0x22:
		return ddv1.EventFaultType_SENSOR_SEC_STORED_DATA_INTEGRITY_ERROR, true
	case 0x23:
		return ddv1.EventFaultType_SENSOR_SEC_INTERNAL_DATA_TRANSFER_ERROR, true
	case 0x24:
		return ddv1.EventFaultType_SENSOR_SEC_UNAUTHORISED_CASE_OPENING, true
	case 0x25:
		return ddv1.EventFaultType_SENSOR_SEC_HARDWARE_SABOTAGE, true
	case 0x30:
		return ddv1.EventFaultType_FAULT_REC_EQ_NO_FURTHER_DETAILS, true
	case 0x31:
		return ddv1.EventFaultType_FAULT_REC_EQ_VU_INTERNAL_FAULT, true
	case 0x32:
		return ddv1.EventFaultType_FAULT_REC_EQ_PRINTER_FAULT, true
	case 0x33:
		return ddv1.EventFaultType_FAULT_REC_EQ_DISPLAY_FAULT, true
	case 0x34:
		return ddv1.EventFaultType_FAULT_REC_EQ_DOWNLOADING_FAULT, true
	case 0x35:
		return ddv1.EventFaultType_FAULT_REC_EQ_SENSOR_FAULT, true
	case 0x36:
		return ddv1.EventFaultType_FAULT_REC_EQ_INTERNAL_GNSS_RECEIVER, true
	case 0x37:
		return ddv1.EventFaultType_FAULT_REC_EQ_EXTERNAL_GNSS_FACILITY, true
	case 0x38:
		return ddv1.EventFaultType_FAULT_REC_EQ_REMOTE_COMM_FACILITY, true
	case 0x39:
		return ddv1.EventFaultType_FAULT_REC_EQ_ITS_INTERFACE, true
	case 0x3a:
		return ddv1.EventFaultType_FAULT_REC_EQ_INTERNAL_SENSOR_FAULT, true
	case 0x40:
		return ddv1.EventFaultType_FAULT_CARD_NO_FURTHER_DETAILS, true
	}
	return 0, false
}

//vc:lemma C08
func vEnumEventFaultTypeDecode(b byte) {
	want, defined := vTableEventFaultType(b)
	got, err := UnmarshalEnum[ddv1.EventFaultType](b)
	vc.Assert((err == nil) == defined, "exactly the defined codes are accepted")
	if err != nil {
		vc.Reach("undefined code")
		return
	}
	vc.Reach("defined code")
	vc.Assert(got == want, "the code's own enumerator")
	back, err := MarshalEnum(got)
	vc.Assert(err == nil, "the enumerator has a code")
	vc.Assert(back == b, "the same code is encoded")
}

//vc:lemma C08
func vEnumEventFaultTypeEncode(v ddv1.EventFaultType) {
	b, err := MarshalEnum(v)
	if err != nil {
		vc.Assert(v < 2 || v > 48, "every defined enumerator is encoded")
		return
	}
	vc.Reach("encoded")
	want, defined := vTableEventFaultType(b)
	vc.Assert(defined && want == v, "the enumerator's own code")
	back, err := UnmarshalEnum[ddv1.EventFaultType](b)
	vc.Assert(err == nil && back == v, "decodes to the same enumerator")
}

// vTableNationNumeric is the regulation's code table.
func vTableNationNumeric(b byte) (ddv1.NationNumeric, bool) {
	switch b {
	case 0x00:
		return ddv1.NationNumeric_NATION_NUMERIC_DEFAULT, true
	case 0x01:
		return ddv1.NationNumeric_AUSTRIA, true
	case 0x02:
		return ddv1.NationNumeric_ALBANIA, true
	case 0x03:
		return ddv1.NationNumeric_ANDORRA, true
	case 0x04:
		return ddv1.NationNumeric_ARMENIA, true
	case 0x05:
		return ddv1.NationNumeric_AZERBAIJAN, true
	case 0x06:
		return ddv1.NationNumeric_BELGIUM, true
	case 0x07:
		return ddv1.NationNumeric_BULGARIA, true
	case 0x08:
		return ddv1.NationNumeric_BOSNIA_HERZEGOVINA, true
	case 0x09:
		return ddv1.NationNumeric_BELARUS, true
	case 0x0a:
		return ddv1.NationNumeric_SWITZERLAND, true
	case 0x0b:
		return ddv1.NationNumeric_CYPRUS, true
	case 0x0c:
		return ddv1.NationNumeric_CZECH_REPUBLIC, true
	case 0x0d:
		return ddv1.NationNumeric_GERMANY, true
	case 0x0e:
		return ddv1.NationNumeric_DENMARK, true
	case 0x0f:
		return ddv1.NationNumeric_SPAIN, true
	case 0x10:
		return ddv1.NationNumeric_ESTONIA, true
	case 0x11:
		return ddv1.NationNumeric_FRANCE, true
	case 0x12:
		return ddv1.NationNumeric_FINLAND, true
	case 0x13:
		return ddv1.NationNumeric_LIECHTENSTEIN, true
	case 0x14:
		return ddv1.NationNumeric_FAROE_ISLANDS, true
	case 0x15:
		return ddv1.NationNumeric_UNITED_KINGDOM, true
	case 0x16:
		return ddv1.NationNumeric_GEORGIA, true
	case 0x17:
		return ddv1.NationNumeric_GREECE, true
	case 0x18:
		return ddv1.NationNumeric_HUNGARY, true
	case 0x19:
		return ddv1.NationNumeric_CROATIA, true
	case 0x1a:
		return ddv1.NationNumeric_ITALY, true
	case 0x1b:
		return ddv1.NationNumeric_IRELAND, true
	case 0x1c:
		return ddv1.NationNumeric_ICELAND, true
	case 0x1d:
		return ddv1.NationNumeric_KAZAKHSTAN, true
	case 0x1e:
		return ddv1.NationNumeric_LUXEMBOURG, true
	case 0x1f:
		return ddv1.NationNumeric_LITHUANIA, true
	case 0x20:
		return ddv1.NationNumeric_LATVIA, true
	case 0x21:
		return ddv1.NationNumeric_MALTA, true
	case 0x22:
		return ddv1.NationNumeric_MONACO, true
	case 0x23:
		return ddv1.NationNumeric_MOLDOVA, true
	case 0x24:
		return ddv1.NationNumeric_NORTH_MACEDONIA, true
	case 0x25:
		return ddv1.NationNumeric_NORWAY, true
	case 0x26:
		return ddv1.NationNumeric_NETHERLANDS, true
	case 0x27:
		return ddv1.NationNumeric_PORTUGAL, true
	case 0x28:
		return ddv1.NationNumeric_POLAND, true
	case 0x29:
		return ddv1.NationNumeric_ROMANIA, true
	case 0x2a:
		return ddv1.NationNumeric_SAN_MARINO, true
	case 0x2b:
		return ddv1.NationNumeric_RUSSIA, true
	case 0x2c:
		return ddv1.NationNumeric_SWEDEN, true
	case 0x2d:
		return ddv1.NationNumeric_SLOVAKIA, true
	case 0x2e:
		return ddv1.NationNumeric_SLOVENIA, true
	case 0x2f:
		return ddv1.NationNumeric_TURKMENISTAN, true
	case 0x30:
		return ddv1.NationNumeric_TURKEY, true
	case 0x31:
		return ddv1.NationNumeric_UKRAINE, true
	case 0x32:
		return ddv1.NationNumeric_VATICAN_CITY, true
	case 0x35:
		return ddv1.NationNumeric_SERBIA, true
	case 0x36:
		return ddv1.NationNumeric_MONTENEGRO, true
	case 0x38:
		return ddv1.NationNumeric_KYRGYZ_REPUBLIC, true
	case 0xfd:
		return ddv1.NationNumeric_EUROPEAN_COMMUNITY, true
	case 0xfe:
		return ddv1.NationNumeric_REST_OF_WORLD, true
	case 0xff:
		return ddv1.NationNumeric_NATION_NUMERIC_EMPTY, true
	}
	return 0, false
}

//vc:lemma C08
func vEnumNationNumericDecode(b byte) {
	want, defined := vTableNationNumeric(b)
	got, err := UnmarshalEnum[ddv1.NationNumeric](b)
	vc.Assert((err == nil) == defined, "exactly the defined codes are accepted")
	if err != nil {
		vc.Reach("undefined code")
		return
	}
	vc.Reach("defined code")
	vc.Assert(got == want, "the code's own enumerator")
	back, err := MarshalEnum(got)
	vc.Assert(err == nil, "the enumerator has a code")
	vc.Assert(back == b, "the same code is encoded")
}

//vc:lemma C08
func vEnumNationNumericEncode(v ddv1.NationNumeric) {
	b, err := MarshalEnum(v)
	if err != nil {
		vc.Assert(v < 2 || v > 58, "every defined enumerator is encoded")
		return
	}
	vc.Reach("encoded")
	want, defined := vTableNationNumeric(b)
	vc.Assert(defined && want == v, "the enumerator's own code")
	back, err := UnmarshalEnum[ddv1.NationNumeric](b)
	vc.Assert(err == nil && back == v, "decodes to the same enumerator")
}
