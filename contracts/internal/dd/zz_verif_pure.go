package dd

// Generated by tools/gen_card_lists.py: what the decoders of the card's records return depends on their input only.

import (
	"github.com/way-platform/tachograph-go/internal/vc"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	"google.golang.org/protobuf/types/known/timestamppb"
)

//vc:contract UnmarshalOptions.UnmarshalPlaceRecord C09 pure
func kPurePlaceRecord(o UnmarshalOptions, data []byte, m *ddv1.PlaceRecord, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.UnmarshalPlaceRecordG2 C09 pure
func kPurePlaceRecordG2(o UnmarshalOptions, data []byte, m *ddv1.PlaceRecordG2, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.UnmarshalCardVehicleRecord C09 pure
func kPureCardVehicleRecord(o UnmarshalOptions, data []byte, m *ddv1.CardVehicleRecord, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.UnmarshalCardVehicleRecordG2 C09 pure
func kPureCardVehicleRecordG2(o UnmarshalOptions, data []byte, m *ddv1.CardVehicleRecordG2, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.UnmarshalSpecificConditionRecord C09 pure
func kPureSpecificConditionRecord(o UnmarshalOptions, data []byte, m *ddv1.SpecificConditionRecord, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.UnmarshalGNSSPlaceRecord C09 pure
func kPureGNSSPlaceRecord(o UnmarshalOptions, data []byte, m *ddv1.GNSSPlaceRecord, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.UnmarshalVehicleRegistration C09 pure
func kPureVehicleRegistration(o UnmarshalOptions, data []byte, m *ddv1.VehicleRegistrationIdentification, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.UnmarshalTimeReal C09 pure
func kPureTimeReal(o UnmarshalOptions, data []byte, m *timestamppb.Timestamp, err error) {
}
