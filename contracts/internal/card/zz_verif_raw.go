package card

import (
	"github.com/way-platform/tachograph-go/internal/vc"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
)

var _ cardv1.RawCardFile

// Parsing a card file: any input is accepted or rejected, without a panic.
//
//vc:contract UnmarshalRawCardFile C01 pure
func kRawCardTotal(data []byte, m *cardv1.RawCardFile, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

func vU16(b []byte) int { return int(b[0])<<8 | int(b[1]) }
func vU24(b []byte) int { return int(b[0])<<16 | int(b[1])<<8 | int(b[2]) }

// The records of an accepted card file are its bytes, one record after the other.
//
//vc:lemma C02
func vRawCardTile(data []byte) {
	m, err := UnmarshalRawCardFile(data)
	if err != nil {
		return
	}
	pos := 0
	for _, r := range m.GetRecords() {
		vc.Assert(pos+5 <= len(data), "a header is left")
		n := vU16(data[pos+3 : pos+5])
		vc.Assert(pos+5+n <= len(data), "the value is left")
		vc.Assert(int(r.GetTag()) == vU24(data[pos:pos+3]), "tag")
		vc.Assert(int(r.GetLength()) == n, "length")
		vc.AssertBytes(r.GetValue(), data[pos+5:pos+5+n], "value")
		pos += 5 + n
	}
	vc.Reach("tiled")
	vc.Assert(pos == len(data), "nothing is left")
}

//vc:lemma C02
func vRawCardRT(data []byte) {
	m, err := UnmarshalRawCardFile(data)
	if err != nil {
		return
	}
	out, err := MarshalRawCardFile(m)
	vc.Reach("marshalled")
	vc.Assert(err == nil, "marshals")
	vc.Assert(len(out) == len(data), "length")
	vc.AssertBytes(out, data, "same bytes")
}

// Exactly the inputs that are a whole number of records are accepted.
//
//vc:lemma C02
func vRawCardAccepted(data []byte) {
	_, err := UnmarshalRawCardFile(data)
	pos := 0
	for i := 0; pos < len(data); i++ {
		vc.At(i)
		if len(data)-pos < 5 || len(data)-pos < 5+vU16(data[pos+3:pos+5]) {
			vc.Reach("incomplete")
			vc.Assert(err != nil, "an incomplete record is rejected")
			return
		}
		pos += 5 + vU16(data[pos+3:pos+5])
	}
	vc.Reach("complete")
	vc.Assert(err == nil, "whole records are accepted")
}
