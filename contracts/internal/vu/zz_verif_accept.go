package vu

import (
	"github.com/way-platform/tachograph-go/internal/vc"
)

// vCard reports whether a card number is that of a driver, workshop, control or company card.
func vCard(d []byte) bool { return 1 <= d[0] && d[0] <= 4 }

// vCards01 reports whether the card numbers of a first-generation overview have a card type.
func vCards01(d []byte) bool {
	if !vCard(d[437:]) {
		return false
	}
	n := int(d[491])
	for i := 0; i < n; i++ {
		if !vCard(d[492+98*i+80:]) {
			return false
		}
	}
	at := 492 + 98*n
	n = int(d[at])
	for i := 0; i < n; i++ {
		if !vCard(d[at+1+31*i+5:]) {
			return false
		}
	}
	return true
}

// vCards02 reports whether the card insertions of first-generation activities have a card type and a slot.
func vCards02(d []byte) bool {
	n := vU16(d[7:])
	for i := 0; i < n; i++ {
		if !vCard(d[9+129*i+72:]) || d[9+129*i+101] > 1 {
			return false
		}
	}
	return true
}

//vc:lemma C04
func vAcceptOverviewGen1(value []byte) {
	n, ok := vSize(0x01, value)
	vc.Assume(ok && n == len(value))
	vc.Assume(vCards01(value))
	vc.Follow()
	m, err := unmarshalOverviewGen1(value)
	vc.Assert(err == nil, "accepted")
	vc.Reach("accepted")
	vc.AssertBytes(m.GetRawData(), value, "bytes kept")
	vc.AssertBytes(m.GetSignature(), value[len(value)-128:], "signature kept")
}

//vc:lemma C04
func vAcceptActivitiesGen1(value []byte) {
	n, ok := vSize(0x02, value)
	vc.Assume(ok && n == len(value))
	vc.Assume(vCards02(value))
	vc.Follow()
	m, err := unmarshalActivitiesGen1(value)
	vc.Assert(err == nil, "accepted")
	vc.Reach("accepted")
	vc.AssertBytes(m.GetRawData(), value, "bytes kept")
	vc.AssertBytes(m.GetSignature(), value[len(value)-128:], "signature kept")
}

//vc:lemma C04
func vAcceptEventsAndFaultsGen1(value []byte) {
	n, ok := vSize(0x03, value)
	vc.Assume(ok && n == len(value))
	m, err := unmarshalEventsAndFaultsGen1(value)
	vc.Assert(err == nil, "accepted")
	vc.Reach("accepted")
	vc.AssertBytes(m.GetRawData(), value, "bytes kept")
	vc.AssertBytes(m.GetSignature(), value[len(value)-128:], "signature kept")
}

//vc:lemma C04
func vAcceptDetailedSpeedGen1(value []byte) {
	n, ok := vSize(0x04, value)
	vc.Assume(ok && n == len(value))
	m, err := unmarshalDetailedSpeedGen1(value)
	vc.Assert(err == nil, "accepted")
	vc.Reach("accepted")
	vc.AssertBytes(m.GetRawData(), value, "bytes kept")
	vc.AssertBytes(m.GetSignature(), value[len(value)-128:], "signature kept")
}

//vc:lemma C04
func vAcceptTechnicalDataGen1(value []byte) {
	n, ok := vSize(0x05, value)
	vc.Assume(ok && n == len(value))
	m, err := unmarshalTechnicalDataGen1(value)
	vc.Assert(err == nil, "accepted")
	vc.Reach("accepted")
	vc.AssertBytes(m.GetRawData(), value, "bytes kept")
	vc.AssertBytes(m.GetSignature(), value[len(value)-128:], "signature kept")
}

//vc:lemma C04
func vAcceptOverviewGen2V1(value []byte) {
	n, ok := vSize(0x21, value)
	vc.Assume(ok && n == len(value))
	m, err := unmarshalOverviewGen2V1(value)
	vc.Assert(err == nil, "accepted")
	vc.Reach("accepted")
	vc.AssertBytes(m.GetRawData(), value, "bytes kept")
}

//vc:lemma C04
func vAcceptActivitiesGen2V1(value []byte) {
	n, ok := vSize(0x22, value)
	vc.Assume(ok && n == len(value))
	m, err := unmarshalActivitiesGen2V1(value)
	vc.Assert(err == nil, "accepted")
	vc.Reach("accepted")
	vc.AssertBytes(m.GetRawData(), value, "bytes kept")
}

//vc:lemma C04
func vAcceptEventsAndFaultsGen2V1(value []byte) {
	n, ok := vSize(0x23, value)
	vc.Assume(ok && n == len(value))
	m, err := unmarshalEventsAndFaultsGen2V1(value)
	vc.Assert(err == nil, "accepted")
	vc.Reach("accepted")
	vc.AssertBytes(m.GetRawData(), value, "bytes kept")
}

//vc:lemma C04
func vAcceptDetailedSpeedGen2(value []byte) {
	n, ok := vSize(0x24, value)
	vc.Assume(ok && n == len(value))
	m, err := unmarshalDetailedSpeedGen2(value)
	vc.Assert(err == nil, "accepted")
	vc.Reach("accepted")
	vc.AssertBytes(m.GetRawData(), value, "bytes kept")
}

//vc:lemma C04
func vAcceptTechnicalDataGen2V1(value []byte) {
	n, ok := vSize(0x25, value)
	vc.Assume(ok && n == len(value))
	m, err := unmarshalTechnicalDataGen2V1(value)
	vc.Assert(err == nil, "accepted")
	vc.Reach("accepted")
	vc.AssertBytes(m.GetRawData(), value, "bytes kept")
}

//vc:lemma C04
func vAcceptOverviewGen2V2(value []byte) {
	n, ok := vSize(0x31, value)
	vc.Assume(ok && n == len(value))
	m, err := unmarshalOverviewGen2V2(value)
	vc.Assert(err == nil, "accepted")
	vc.Reach("accepted")
	vc.AssertBytes(m.GetRawData(), value, "bytes kept")
}

//vc:lemma C04
func vAcceptActivitiesGen2V2(value []byte) {
	n, ok := vSize(0x32, value)
	vc.Assume(ok && n == len(value))
	m, err := unmarshalActivitiesGen2V2(value)
	vc.Assert(err == nil, "accepted")
	vc.Reach("accepted")
	vc.AssertBytes(m.GetRawData(), value, "bytes kept")
}

//vc:lemma C04
func vAcceptEventsAndFaultsGen2V2(value []byte) {
	n, ok := vSize(0x33, value)
	vc.Assume(ok && n == len(value))
	m, err := unmarshalEventsAndFaultsGen2V2(value)
	vc.Assert(err == nil, "accepted")
	vc.Reach("accepted")
	vc.AssertBytes(m.GetRawData(), value, "bytes kept")
}

//vc:lemma C04
func vAcceptTechnicalDataGen2V2(value []byte) {
	n, ok := vSize(0x35, value)
	vc.Assume(ok && n == len(value))
	m, err := unmarshalTechnicalDataGen2V2(value)
	vc.Assert(err == nil, "accepted")
	vc.Reach("accepted")
	vc.AssertBytes(m.GetRawData(), value, "bytes kept")
}

