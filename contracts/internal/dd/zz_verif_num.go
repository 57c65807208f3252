package dd

import (
	"github.com/way-platform/tachograph-go/internal/vc"
)

// Lemmas on numeric and date formats. be and bcd are the reference readings of the regulation: big-endian
// integers, and one decimal digit per half byte.

func vBE(b []byte) uint32 {
	switch len(b) {
	case 1:
		return uint32(b[0])
	case 2:
		return uint32(b[0])*256 + uint32(b[1])
	case 3:
		return (uint32(b[0])*256+uint32(b[1]))*256 + uint32(b[2])
	case 4:
		return ((uint32(b[0])*256+uint32(b[1]))*256+uint32(b[2]))*256 + uint32(b[3])
	}
	return 0
}

func vDigit(b byte) bool { return b/16 < 10 && b%16 < 10 }
func vBCD(b byte) int32  { return int32(b/16)*10 + int32(b%16) }

//vc:lemma C18 C05 C01
func vTimeRealDecode(o UnmarshalOptions, data []byte) {
	ts, err := o.UnmarshalTimeReal(data)
	vc.Assert((err == nil) == (len(data) == 4), "exactly four bytes are accepted")
	if err != nil {
		return
	}
	vc.Reach("decoded")
	vc.Assert((ts == nil) == (vBE(data) == 0), "only the zero stamp is absent")
	vc.Assert(ts.GetSeconds() == int64(vBE(data)), "seconds are the big-endian value")
	vc.Assert(ts.GetNanos() == 0, "no nanoseconds")
}

//vc:lemma C18 C06 C07
func vTimeRealRoundTrip(o UnmarshalOptions, data []byte, dst []byte) {
	ts, err := o.UnmarshalTimeReal(data)
	if err != nil {
		return
	}
	pre := vc.Snap(dst)
	out, err := AppendTimeReal(dst, ts)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+4, "adds four bytes")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}

//vc:lemma C18 C05 C01
func vOdometerDecode(o UnmarshalOptions, data []byte) {
	v, err := o.UnmarshalOdometer(data)
	vc.Assert((err == nil) == (len(data) == 3), "exactly three bytes are accepted")
	if err == nil {
		vc.Assert(v == vBE(data), "big-endian value")
	}
}

//vc:lemma C18 C06 C07
func vOdometerEncode(v uint32, dst []byte) {
	pre := vc.Snap(dst)
	out := AppendOdometer(dst, v)
	vc.Assert(len(out) == len(pre)+3, "adds three bytes")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.Assert(vBE(out[len(pre):]) == v%(1<<24), "big-endian value")
}

//vc:lemma C18 C05 C01
func vDateDecode(o UnmarshalOptions, data []byte) {
	d, err := o.UnmarshalDate(data)
	vc.Assert((err == nil) == (len(data) == 4), "exactly four bytes are accepted")
	if err != nil {
		return
	}
	vc.AssertBytes(d.GetRawData(), data, "raw data kept")
	if vDigit(data[0]) && vDigit(data[1]) && vDigit(data[2]) && vDigit(data[3]) {
		vc.Reach("valid digits")
		vc.Assert(d.GetYear() == vBCD(data[0])*100+vBCD(data[1]), "year")
		vc.Assert(d.GetMonth() == vBCD(data[2]), "month")
		vc.Assert(d.GetDay() == vBCD(data[3]), "day")
	}
}

//vc:lemma C18 C06 C07
func vDateRoundTrip(o UnmarshalOptions, data []byte, dst []byte) {
	d, err := o.UnmarshalDate(data)
	if err != nil {
		return
	}
	vc.Assume(vDigit(data[0]) && vDigit(data[1]) && vDigit(data[2]) && vDigit(data[3]))
	pre := vc.Snap(dst)
	out, err := AppendDate(dst, d)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+4, "adds four bytes")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}
