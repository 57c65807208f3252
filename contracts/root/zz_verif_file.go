package tachograph

import (
	"context"

	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/vc"
	"github.com/way-platform/tachograph-go/internal/vu"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
)

// Parsing a file gives a file or an error, without a panic.
//
//vc:contract UnmarshalFile C01 pure
//vc:using internal/vu/UnmarshalVehicleUnitFile internal/card/UnmarshalRawCardFile internal/card/InferFileType internal/card/UnmarshalDriverCardFile
func kUnmarshalFile(data []byte, m *tachographv1.File, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

// The leading bytes alone decide which parser a file goes to; the result is that parser's, under its own type.
//
//vc:lemma C16
//vc:using internal/vu/UnmarshalVehicleUnitFile internal/card/UnmarshalRawCardFile internal/card/InferFileType internal/card/UnmarshalDriverCardFile
func vUnmarshalDispatch(data []byte) {
	m, err := UnmarshalFile(data)
	if len(data) >= 2 && data[0] == 0x76 {
		v, e := vu.UnmarshalVehicleUnitFile(data)
		vc.Assert((err == nil) == (e == nil), "a vehicle unit file is accepted when its parser accepts it")
		if err == nil {
			vc.Reach("vehicle unit")
			vc.Assert(m.GetType() == tachographv1.File_VEHICLE_UNIT, "type of a vehicle unit file")
			vc.AssertMsg(m.GetVehicleUnit(), v, "vehicle unit")
			vc.Assert(m.GetDriverCard() == nil && m.GetRawCard() == nil, "nothing else")
		}
		return
	}
	if len(data) >= 2 && data[0] == 0x00 && data[1] == 0x02 {
		raw, e := card.UnmarshalRawCardFile(data)
		if e != nil {
			vc.Assert(err != nil, "a card file is rejected when its parser rejects it")
			return
		}
		if card.InferFileType(raw) == cardv1.CardType_DRIVER_CARD {
			d, e := card.UnmarshalDriverCardFile(raw)
			vc.Assert((err == nil) == (e == nil), "a driver card is accepted when its parser accepts it")
			if err == nil {
				vc.Reach("driver card")
				vc.Assert(m.GetType() == tachographv1.File_DRIVER_CARD, "type of a driver card")
				vc.AssertMsg(m.GetDriverCard(), d, "driver card")
				vc.Assert(m.GetVehicleUnit() == nil && m.GetRawCard() == nil, "nothing else")
			}
			return
		}
		vc.Reach("other card")
		vc.Assert(err == nil, "another card is accepted")
		vc.Assert(m.GetType() == tachographv1.File_RAW_CARD, "type of another card")
		vc.AssertMsg(m.GetRawCard(), raw, "raw card")
		vc.Assert(m.GetVehicleUnit() == nil && m.GetDriverCard() == nil, "nothing else")
		return
	}
	vc.Assert(err != nil, "anything else is an error")
}

//vc:contract DefaultCertificateResolver C16 assumed
func kDefaultResolver(r CertificateResolver) {
	vc.Assert(r != nil, "a resolver")
}

// Marshalling takes the payload of the declared type and no other.
//
//vc:lemma C16
//vc:using internal/card/MarshalDriverCardFile internal/vu/MarshalVehicleUnitFile internal/card/MarshalRawCardFile
func vMarshalDispatch(f *tachographv1.File) {
	b, err := MarshalFile(f)
	switch f.GetType() {
	case tachographv1.File_DRIVER_CARD:
		vc.Reach("driver card")
		w, e := card.MarshalDriverCardFile(f.GetDriverCard())
		vc.Assert((err == nil) == (e == nil), "a driver card is marshalled when its marshaller accepts it")
		if err == nil {
			vc.AssertBytes(b, w, "driver card bytes")
		}
	case tachographv1.File_VEHICLE_UNIT:
		vc.Reach("vehicle unit")
		w, e := vu.MarshalVehicleUnitFile(f.GetVehicleUnit())
		vc.Assert((err == nil) == (e == nil), "a vehicle unit file is marshalled when its marshaller accepts it")
		if err == nil {
			vc.AssertBytes(b, w, "vehicle unit bytes")
		}
	case tachographv1.File_RAW_CARD:
		vc.Reach("raw card")
		w, e := card.MarshalRawCardFile(f.GetRawCard())
		vc.Assert((err == nil) == (e == nil), "a raw card is marshalled when its marshaller accepts it")
		if err == nil {
			vc.AssertBytes(b, w, "raw card bytes")
		}
	default:
		vc.Reach("unsupported")
		vc.Assert(err != nil, "any other type is an error")
	}
}

// Verification judges the payload of the declared type and no other.
//
//vc:lemma C16
//vc:using internal/card/VerifyOptions.VerifyDriverCardFile DefaultCertificateResolver
func vVerifyDispatch(o VerifyOptions, ctx context.Context, f *tachographv1.File) {
	err := o.VerifyFile(ctx, f)
	if f == nil {
		vc.Assert(err != nil, "no file is an error")
		return
	}
	switch f.GetType() {
	case tachographv1.File_DRIVER_CARD:
		vc.Reach("driver card")
		r := o.CertificateResolver
		if r == nil {
			r = DefaultCertificateResolver()
		}
		e := card.VerifyOptions{CertificateResolver: r}.VerifyDriverCardFile(ctx, f.GetDriverCard())
		vc.Assert((err == nil) == (e == nil), "a driver card is authentic when its verifier says so")
	case tachographv1.File_VEHICLE_UNIT, tachographv1.File_RAW_CARD:
	default:
		vc.Reach("unsupported")
		vc.Assert(err != nil, "any other type is an error")
	}
}
