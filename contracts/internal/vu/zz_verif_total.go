package vu

import (
	"github.com/way-platform/tachograph-go/internal/vc"
	vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"
)

//vc:contract unmarshalVuCardIWRecord C01 pure
func kTotalVuCardIWRecord(data []byte, m *vuv1.Activities_CardIWRecord, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalVuPlaceRecord C01 pure
func kTotalVuPlaceRecord(data []byte, m *vuv1.Activities_PlaceRecord, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalVuGNSSADRecord C01 pure
func kTotalVuGNSSADRecord(data []byte, m *vuv1.Activities_GnssRecord, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalVuBorderCrossingRecord C01 pure
func kTotalVuBorderCrossingRecord(data []byte, m *vuv1.Activities_BorderCrossingRecord, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalVuLoadUnloadRecord C01 pure
func kTotalVuLoadUnloadRecord(data []byte, m *vuv1.Activities_LoadUnloadRecord, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalActivitiesGen1 C01 pure
func kTotalActivitiesGen1(data []byte, m *vuv1.ActivitiesGen1, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalActivitiesGen2V1 C01 pure
func kTotalActivitiesGen2V1(data []byte, m *vuv1.ActivitiesGen2V1, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalActivitiesGen2V2 C01 pure
func kTotalActivitiesGen2V2(data []byte, m *vuv1.ActivitiesGen2V2, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalDetailedSpeedGen1 C01 pure
func kTotalDetailedSpeedGen1(data []byte, m *vuv1.DetailedSpeedGen1, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalDetailedSpeedGen2 C01 pure
func kTotalDetailedSpeedGen2(data []byte, m *vuv1.DetailedSpeedGen2, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalEventsAndFaultsGen1 C01 pure
func kTotalEventsAndFaultsGen1(data []byte, m *vuv1.EventsAndFaultsGen1, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalEventsAndFaultsGen2V1 C01 pure
func kTotalEventsAndFaultsGen2V1(data []byte, m *vuv1.EventsAndFaultsGen2V1, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalEventsAndFaultsGen2V2 C01 pure
func kTotalEventsAndFaultsGen2V2(data []byte, m *vuv1.EventsAndFaultsGen2V2, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalOverviewGen1 C01 pure
func kTotalOverviewGen1(data []byte, m *vuv1.OverviewGen1, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalOverviewGen2V1 C01 pure
func kTotalOverviewGen2V1(data []byte, m *vuv1.OverviewGen2V1, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalOverviewGen2V2 C01 pure
func kTotalOverviewGen2V2(data []byte, m *vuv1.OverviewGen2V2, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalTechnicalDataGen1 C01 pure
func kTotalTechnicalDataGen1(data []byte, m *vuv1.TechnicalDataGen1, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalTechnicalDataGen2V1 C01 pure
func kTotalTechnicalDataGen2V1(data []byte, m *vuv1.TechnicalDataGen2V1, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}

//vc:contract unmarshalTechnicalDataGen2V2 C01 pure
func kTotalTechnicalDataGen2V2(data []byte, m *vuv1.TechnicalDataGen2V2, err error) {
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
}
