package vu

import (
	"github.com/way-platform/tachograph-go/internal/vc"
	vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"
)

// Decoding a vehicle unit file gives a file or an error, without a panic.
//
//vc:contract unmarshalRawVehicleUnitFile C01 pure
//vc:using sizeOfTransferValue vLength
func kRawVUTotal(data []byte, m *vuv1.RawVehicleUnitFile, err error) {
	vc.Assert(err != nil || m != nil, "a value is returned")
}

//vc:contract unmarshalVehicleUnitFileGen1 C01 pure
//vc:using unmarshal~Gen1
func kVUFileGen1(raw *vuv1.RawVehicleUnitFile, m *vuv1.VehicleUnitFileGen1, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalVehicleUnitFileGen2V1 C01 pure
//vc:using unmarshal~Gen2V1 unmarshalDetailedSpeedGen2
func kVUFileGen2V1(raw *vuv1.RawVehicleUnitFile, m *vuv1.VehicleUnitFileGen2V1, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalVehicleUnitFileGen2V2 C01 pure
//vc:using unmarshal~Gen2V2 unmarshalDetailedSpeedGen2
func kVUFileGen2V2(raw *vuv1.RawVehicleUnitFile, m *vuv1.VehicleUnitFileGen2V2, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalVehicleUnitFile C01 pure
//vc:using unmarshalRawVehicleUnitFile unmarshalVehicleUnitFileGen1 unmarshalVehicleUnitFileGen2V1 unmarshalVehicleUnitFileGen2V2
func kVUFile(data []byte, m *vuv1.VehicleUnitFile, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract MarshalVehicleUnitFile C16 pure
func kMarshalVU(f *vuv1.VehicleUnitFile, b []byte, err error) {}
