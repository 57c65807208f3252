package card

import (
	"github.com/way-platform/tachograph-go/internal/vc"
)

// These decoders read through a scanner, whose buffer is overwritten as it goes on: what a record keeps must still
// be the bytes of the input when the decoder returns.

//vc:lemma C15
func vKeptRawCard(data []byte) {
	m, err := UnmarshalRawCardFile(data)
	if err != nil {
		return
	}
	pos := 0
	for _, r := range m.GetRecords() {
		vc.Assert(pos+5 <= len(data), "a header is left")
		n := vU16(data[pos+3 : pos+5])
		vc.Assert(pos+5+n <= len(data), "the value is left")
		vc.AssertBytes(r.GetValue(), data[pos+5:pos+5+n], "value kept")
		vc.Assert(vc.Owned(r.GetValue()), "value not in the scanner's buffer")
		pos += 5 + n
	}
	vc.Reach("end")
}

//vc:lemma C15
func vKeptVehicleUnitsUsed(o UnmarshalOptions, data []byte, k int) {
	m, err := o.unmarshalVehicleUnitsUsed(data)
	if err != nil {
		return
	}
	vc.Assume(k >= 0 && k < len(m.GetRecords()))
	vc.At(k)
	vc.Reach("record")
	r := m.GetRecords()[k]
	b := data[2+10*k : 2+10*k+10]
	vc.AssertBytes(r.GetDeviceId(), b[5:6], "device id kept")
	vc.AssertBytes(r.GetVuSoftwareVersion(), b[6:10], "software version kept")
	vc.Assert(vc.Owned(r.GetDeviceId()), "device id not in the scanner's buffer")
	vc.Assert(vc.Owned(r.GetVuSoftwareVersion()), "software version not in the scanner's buffer")
}

//vc:lemma C15
func vKeptGnssPlaces(o UnmarshalOptions, data []byte, k int) {
	m, err := o.unmarshalGnssPlaces(data)
	if err != nil {
		return
	}
	vc.Assume(k >= 0 && k < len(m.GetRecords()))
	vc.At(k)
	r := m.GetRecords()[k]
	b := data[2+18*k : 2+18*k+18]
	w, e := vDD(o).UnmarshalGNSSPlaceRecord(b[4:15])
	if e != nil {
		return
	}
	vc.Reach("record")
	vc.AssertMsg(r.GetGnssPlaceRecord(), w, "place kept")
}
