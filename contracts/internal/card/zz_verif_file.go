package card

import (
	"context"

	"github.com/way-platform/tachograph-go/internal/vc"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
)

// Assembling a driver card from any list of raw records gives a card or an error, without a panic.
//
//vc:contract UnmarshalDriverCardFile C01 pure
//vc:using UnmarshalOptions.unmarshal~ internal/security/UnmarshalRsaCertificate internal/security/UnmarshalEccCertificate
func kDriverCardTotal(raw *cardv1.RawCardFile, m *cardv1.DriverCardFile, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract InferFileType C01 C16 pure
func kInferFileType(raw *cardv1.RawCardFile, t cardv1.CardType) {
	vc.Reach("inferred")
}

//vc:contract MarshalDriverCardFile C16 assumed
func kMarshalDriverCard(f *cardv1.DriverCardFile, b []byte, err error) {}

//vc:contract MarshalRawCardFile C16 pure
func kMarshalRawCard(f *cardv1.RawCardFile, b []byte, err error) {
	vc.Assert(err == nil, "a raw card is always marshalled")
}

//vc:contract VerifyOptions.VerifyDriverCardFile C16 assumed
func kVerifyDriverCard(o VerifyOptions, ctx context.Context, f *cardv1.DriverCardFile, err error) {
}
