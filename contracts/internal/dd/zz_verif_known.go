package dd

import (
	"github.com/way-platform/tachograph-go/internal/vc"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

// The cases the round-trip lemmas leave out: an undefined code that the message has no field for.

//vc:lemma C06
func vVehicleRegistrationUndefinedNation(o UnmarshalOptions, data []byte) {
	if len(data) != 15 || vKnown[ddv1.NationNumeric](data[0]) {
		return
	}
	m, err := o.UnmarshalVehicleRegistration(data)
	if err != nil {
		return
	}
	_, err = AppendVehicleRegistration(nil, m)
	vc.Assert(err == nil, "encodes")
}

//vc:lemma C06
func vFullCardNumberUndefinedNation(o UnmarshalOptions, data []byte) {
	if len(data) != 18 || vKnown[ddv1.NationNumeric](data[1]) {
		return
	}
	m, err := o.UnmarshalFullCardNumber(data)
	if err != nil {
		return
	}
	_, err = AppendFullCardNumber(nil, m)
	vc.Assert(err == nil, "encodes")
}

//vc:lemma C06
func vExtendedSerialNumberUndefinedType(o UnmarshalOptions, data []byte) {
	if len(data) != 8 || vKnown[ddv1.EquipmentType](data[6]) {
		return
	}
	m, err := o.UnmarshalExtendedSerialNumber(data)
	if err != nil {
		return
	}
	_, err = AppendExtendedSerialNumber(nil, m)
	vc.Assert(err == nil, "encodes")
}
