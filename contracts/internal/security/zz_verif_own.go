package security

// Generated by tools/gen_own.py.

import "github.com/way-platform/tachograph-go/internal/vc"

//vc:lemma C15
func vInputUnmarshalEccCertificate(data []byte) {
	in := vc.Snap(data)
	UnmarshalEccCertificate(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalRootCertificate(data []byte) {
	in := vc.Snap(data)
	UnmarshalRootCertificate(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalRsaCertificate(data []byte) {
	in := vc.Snap(data)
	UnmarshalRsaCertificate(data)
	vc.AssertBytes(data, in, "input unchanged")
}

//vc:lemma C15
func vInputUnmarshalTimeReal(data []byte) {
	in := vc.Snap(data)
	unmarshalTimeReal(data)
	vc.AssertBytes(data, in, "input unchanged")
}
