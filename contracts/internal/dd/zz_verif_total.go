package dd

import (
	"github.com/way-platform/tachograph-go/internal/vc"
)

//vc:lemma C01
func vTotalActivityChangeInfo(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalActivityChangeInfo(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalBcdString(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalBcdString(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalCardStructureVersion(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalCardStructureVersion(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalCardVehicleRecord(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalCardVehicleRecord(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalCardVehicleRecordG2(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalCardVehicleRecordG2(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalControlType(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalControlType(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalDate(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalDate(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalDriverIdentification(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalDriverIdentification(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalExtendedSerialNumber(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalExtendedSerialNumber(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalFullCardNumber(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalFullCardNumber(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalFullCardNumberAndGeneration(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalFullCardNumberAndGeneration(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalGeoCoordinates(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalGeoCoordinates(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalGNSSPlaceAuthRecord(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalGNSSPlaceAuthRecord(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalGNSSPlaceRecord(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalGNSSPlaceRecord(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalHolderName(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalHolderName(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalIa5StringValue(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalIa5StringValue(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalMonthYear(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalMonthYear(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalOdometer(opts UnmarshalOptions, data []byte) {
	_, err := opts.UnmarshalOdometer(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
}

//vc:lemma C01
func vTotalOwnerIdentification(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalOwnerIdentification(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalPlaceRecord(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalPlaceRecord(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalPlaceRecordG2(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalPlaceRecordG2(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalPreviousVehicleInfo(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalPreviousVehicleInfo(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalPreviousVehicleInfoG2(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalPreviousVehicleInfoG2(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalSpecificConditionRecord(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalSpecificConditionRecord(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalStringValue(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalStringValue(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalTimeReal(opts UnmarshalOptions, data []byte) {
	_, err := opts.UnmarshalTimeReal(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
}

//vc:lemma C01
func vTotalVehicleRegistration(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalVehicleRegistration(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalVuCardIWRecord(opts UnmarshalOptions, data []byte) {
	m, err := opts.UnmarshalVuCardIWRecord(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}
