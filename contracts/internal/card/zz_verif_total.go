package card

import (
	"github.com/way-platform/tachograph-go/internal/vc"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
)

//vc:contract UnmarshalOptions.unmarshalDriverActivityData C01 pure
func kTotalDriverActivityData(opts UnmarshalOptions, data []byte, m *cardv1.DriverActivityData, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalApplicationIdentification C01 pure
func kTotalApplicationIdentification(opts UnmarshalOptions, data []byte, m *cardv1.ApplicationIdentification, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalApplicationIdentificationG2 C01 pure
func kTotalApplicationIdentificationG2(opts UnmarshalOptions, data []byte, m *cardv1.ApplicationIdentificationG2, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalApplicationIdentificationV2 C01 pure
func kTotalApplicationIdentificationV2(opts UnmarshalOptions, data []byte, m *cardv1.ApplicationIdentificationV2, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalCardDownload C01 pure
func kTotalCardDownload(opts UnmarshalOptions, data []byte, m *cardv1.CardDownloadDriver, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalControlActivityData C01 pure
func kTotalControlActivityData(opts UnmarshalOptions, data []byte, m *cardv1.ControlActivityData, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalCurrentUsage C01 pure
func kTotalCurrentUsage(opts UnmarshalOptions, data []byte, m *cardv1.CurrentUsage, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalDrivingLicenceInfo C01 pure
func kTotalDrivingLicenceInfo(opts UnmarshalOptions, data []byte, m *cardv1.DrivingLicenceInfo, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalEventsData C01 pure
func kTotalEventsData(opts UnmarshalOptions, data []byte, m *cardv1.EventsData, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalEventRecord C01 pure
func kTotalEventRecord(opts UnmarshalOptions, data []byte, m *cardv1.EventsData_Record, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalFaultsData C01 pure
func kTotalFaultsData(opts UnmarshalOptions, data []byte, m *cardv1.FaultsData, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalGnssPlaces C01 pure
func kTotalGnssPlaces(opts UnmarshalOptions, data []byte, m *cardv1.GnssPlaces, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalIc C01 pure
func kTotalIc(opts UnmarshalOptions, data []byte, m *cardv1.Ic, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalIcc C01 pure
func kTotalIcc(opts UnmarshalOptions, data []byte, m *cardv1.Icc, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalIdentification C01 pure
func kTotalIdentification(opts UnmarshalOptions, data []byte, m *cardv1.Identification, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalPlaces C01 pure
func kTotalPlaces(opts UnmarshalOptions, data []byte, m *cardv1.Places, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalPlacesG2 C01 pure
func kTotalPlacesG2(opts UnmarshalOptions, data []byte, m *cardv1.PlacesG2, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalSpecificConditions C01 pure
func kTotalSpecificConditions(opts UnmarshalOptions, data []byte, m *cardv1.SpecificConditions, err error) {
	if err != nil {
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalSpecificConditionsG2 C01 pure
func kTotalSpecificConditionsG2(opts UnmarshalOptions, data []byte, m *cardv1.SpecificConditionsG2, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalVehicleUnitsUsed C01 pure
func kTotalVehicleUnitsUsed(opts UnmarshalOptions, data []byte, m *cardv1.VehicleUnitsUsed, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalVehiclesUsed C01 pure
func kTotalVehiclesUsed(opts UnmarshalOptions, data []byte, m *cardv1.VehiclesUsed, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract UnmarshalOptions.unmarshalVehiclesUsedG2 C01 pure
func kTotalVehiclesUsedG2(opts UnmarshalOptions, data []byte, m *cardv1.VehiclesUsedG2, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}
