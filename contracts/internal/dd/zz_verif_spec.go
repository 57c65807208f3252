package dd

import (
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// vKnown: the code is defined for the enumeration.
func vKnown[T interface {
	~int32
	protoreflect.Enum
}](b byte) bool {
	_, err := UnmarshalEnum[T](b)
	return err == nil
}

// vPage: a code page of the regulation (chapter 4), or "no information".
func vPage(b byte) bool {
	switch b {
	case 0, 1, 2, 3, 5, 7, 9, 13, 15, 16, 80, 85, 255:
		return true
	}
	return false
}

// strSV, strIA, ...: the strings in a message declare the layout's length.
func strSV(s *ddv1.StringValue, n int32) bool {
	return s != nil && s.HasLength() && s.GetLength() == n
}
func strIA(s *ddv1.Ia5StringValue, n int32) bool {
	return s != nil && s.HasLength() && s.GetLength() == n
}
func strVR(m *ddv1.VehicleRegistrationIdentification) bool {
	return m.GetNumber() == nil || strSV(m.GetNumber(), 13)
}
func strFC(m *ddv1.FullCardNumber) bool {
	switch m.GetCardType() {
	case ddv1.EquipmentType_DRIVER_CARD:
		d := m.GetDriverIdentification()
		return d == nil || strIA(d.GetDriverIdentificationNumber(), 14) &&
			(d.GetCardReplacementIndex() == nil || strIA(d.GetCardReplacementIndex(), 1)) &&
			(d.GetCardRenewalIndex() == nil || strIA(d.GetCardRenewalIndex(), 1))
	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
		w := m.GetOwnerIdentification()
		return w == nil || strIA(w.GetOwnerIdentification(), 13) && strIA(w.GetConsecutiveIndex(), 1) && strIA(w.GetReplacementIndex(), 1) && strIA(w.GetRenewalIndex(), 1)
	}
	return true
}
func strBCD(s *ddv1.BcdString, n int32) bool { return s == nil || s.GetLength() == n }
