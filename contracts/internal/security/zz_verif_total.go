package security

import (
	"github.com/way-platform/tachograph-go/internal/vc"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
)

//vc:contract UnmarshalEccCertificate C01 pure
func kUnmarshalEccCertificate(data []byte, m *securityv1.EccCertificate, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalRootCertificate(data []byte) {
	m, err := UnmarshalRootCertificate(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalRsaCertificate C01 pure
func kUnmarshalRsaCertificate(data []byte, m *securityv1.RsaCertificate, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:lemma C01
func vTotalTimeReal(data []byte) {
	_, err := unmarshalTimeReal(data)
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
}
