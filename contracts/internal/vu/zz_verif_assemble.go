package vu

import (
	"github.com/way-platform/tachograph-go/internal/vc"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"
)

// vTakenGen1 reports whether the record is a transfer of the generation which its decoder accepts.
func vTakenGen1(r *vuv1.RawVehicleUnitFile_Record) bool {
	var err error
	switch r.GetType() {
	case vuv1.TransferType_OVERVIEW_GEN1:
		_, err = unmarshalOverviewGen1(r.GetValue())
	case vuv1.TransferType_ACTIVITIES_GEN1:
		_, err = unmarshalActivitiesGen1(r.GetValue())
	case vuv1.TransferType_EVENTS_AND_FAULTS_GEN1:
		_, err = unmarshalEventsAndFaultsGen1(r.GetValue())
	case vuv1.TransferType_DETAILED_SPEED_GEN1:
		_, err = unmarshalDetailedSpeedGen1(r.GetValue())
	case vuv1.TransferType_TECHNICAL_DATA_GEN1:
		_, err = unmarshalTechnicalDataGen1(r.GetValue())
	default:
		return false
	}
	return err == nil
}

// A file of this generation is accepted when each of its transfers is, and only then.
//
//vc:lemma C04
//vc:using unmarshalOverviewGen1 unmarshalActivitiesGen1 unmarshalEventsAndFaultsGen1 unmarshalTechnicalDataGen1 unmarshalDetailedSpeedGen1
func vFileAcceptGen1(raw *vuv1.RawVehicleUnitFile) {
	ok := true
	for _, r := range raw.GetRecords() {
		if !vTakenGen1(r) {
			ok = false
			break
		}
	}
	vc.Follow()
	file, err := unmarshalVehicleUnitFileGen1(raw)
	vc.Assert((err == nil) == ok, "accepted when each transfer is")
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(file != nil, "a file")
}

// The Activities list holds the decoded Activities transfers in file order.
//
//vc:lemma C04
//vc:using unmarshalOverviewGen1 unmarshalActivitiesGen1 unmarshalEventsAndFaultsGen1 unmarshalTechnicalDataGen1 unmarshalDetailedSpeedGen1
func vFileActivitiesGen1(raw *vuv1.RawVehicleUnitFile) {
	file, err := unmarshalVehicleUnitFileGen1(raw)
	if err != nil {
		return
	}
	list := file.GetActivities()
	n := 0
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {
		vc.At(i)
		if r := recs[i]; r.GetType() == vuv1.TransferType_ACTIVITIES_GEN1 {
			m, err := unmarshalActivitiesGen1(r.GetValue())
			vc.Assert(err == nil, "decoded")
			vc.Assert(n < len(list), "listed")
			vc.AssertMsg(list[n], m, "transfer")
			n++
		}
	}
	vc.Assert(n == len(list), "nothing else is listed")
	vc.Reach("end")
}

// The EventsAndFaults list holds the decoded EventsAndFaults transfers in file order.
//
//vc:lemma C04
//vc:using unmarshalOverviewGen1 unmarshalActivitiesGen1 unmarshalEventsAndFaultsGen1 unmarshalTechnicalDataGen1 unmarshalDetailedSpeedGen1
func vFileEventsAndFaultsGen1(raw *vuv1.RawVehicleUnitFile) {
	file, err := unmarshalVehicleUnitFileGen1(raw)
	if err != nil {
		return
	}
	list := file.GetEventsAndFaults()
	n := 0
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {
		vc.At(i)
		if r := recs[i]; r.GetType() == vuv1.TransferType_EVENTS_AND_FAULTS_GEN1 {
			m, err := unmarshalEventsAndFaultsGen1(r.GetValue())
			vc.Assert(err == nil, "decoded")
			vc.Assert(n < len(list), "listed")
			vc.AssertMsg(list[n], m, "transfer")
			n++
		}
	}
	vc.Assert(n == len(list), "nothing else is listed")
	vc.Reach("end")
}

// The DetailedSpeed list holds the decoded DetailedSpeed transfers in file order.
//
//vc:lemma C04
//vc:using unmarshalOverviewGen1 unmarshalActivitiesGen1 unmarshalEventsAndFaultsGen1 unmarshalTechnicalDataGen1 unmarshalDetailedSpeedGen1
func vFileDetailedSpeedGen1(raw *vuv1.RawVehicleUnitFile) {
	file, err := unmarshalVehicleUnitFileGen1(raw)
	if err != nil {
		return
	}
	list := file.GetDetailedSpeed()
	n := 0
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {
		vc.At(i)
		if r := recs[i]; r.GetType() == vuv1.TransferType_DETAILED_SPEED_GEN1 {
			m, err := unmarshalDetailedSpeedGen1(r.GetValue())
			vc.Assert(err == nil, "decoded")
			vc.Assert(n < len(list), "listed")
			vc.AssertMsg(list[n], m, "transfer")
			n++
		}
	}
	vc.Assert(n == len(list), "nothing else is listed")
	vc.Reach("end")
}

// The TechnicalData list holds the decoded TechnicalData transfers in file order.
//
//vc:lemma C04
//vc:using unmarshalOverviewGen1 unmarshalActivitiesGen1 unmarshalEventsAndFaultsGen1 unmarshalTechnicalDataGen1 unmarshalDetailedSpeedGen1
func vFileTechnicalDataGen1(raw *vuv1.RawVehicleUnitFile) {
	file, err := unmarshalVehicleUnitFileGen1(raw)
	if err != nil {
		return
	}
	list := file.GetTechnicalData()
	n := 0
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {
		vc.At(i)
		if r := recs[i]; r.GetType() == vuv1.TransferType_TECHNICAL_DATA_GEN1 {
			m, err := unmarshalTechnicalDataGen1(r.GetValue())
			vc.Assert(err == nil, "decoded")
			vc.Assert(n < len(list), "listed")
			vc.AssertMsg(list[n], m, "transfer")
			n++
		}
	}
	vc.Assert(n == len(list), "nothing else is listed")
	vc.Reach("end")
}

// The overview is that of the last overview transfer.
//
//vc:lemma C04
//vc:using unmarshalOverviewGen1 unmarshalActivitiesGen1 unmarshalEventsAndFaultsGen1 unmarshalTechnicalDataGen1 unmarshalDetailedSpeedGen1
func vFileOverviewGen1(raw *vuv1.RawVehicleUnitFile) {
	file, err := unmarshalVehicleUnitFileGen1(raw)
	if err != nil {
		return
	}
	var want *vuv1.OverviewGen1
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {
		vc.At(i)
		if r := recs[i]; r.GetType() == vuv1.TransferType_OVERVIEW_GEN1 {
			want, _ = unmarshalOverviewGen1(r.GetValue())
		}
	}
	vc.AssertMsg(file.GetOverview(), want, "overview")
	vc.Reach("end")
}

// vTakenGen2V1 reports whether the record is a transfer of the generation which its decoder accepts.
func vTakenGen2V1(r *vuv1.RawVehicleUnitFile_Record) bool {
	var err error
	switch r.GetType() {
	case vuv1.TransferType_OVERVIEW_GEN2_V1:
		_, err = unmarshalOverviewGen2V1(r.GetValue())
	case vuv1.TransferType_ACTIVITIES_GEN2_V1:
		_, err = unmarshalActivitiesGen2V1(r.GetValue())
	case vuv1.TransferType_EVENTS_AND_FAULTS_GEN2_V1:
		_, err = unmarshalEventsAndFaultsGen2V1(r.GetValue())
	case vuv1.TransferType_DETAILED_SPEED_GEN2:
		_, err = unmarshalDetailedSpeedGen2(r.GetValue())
	case vuv1.TransferType_TECHNICAL_DATA_GEN2_V1:
		_, err = unmarshalTechnicalDataGen2V1(r.GetValue())
	default:
		return false
	}
	return err == nil
}

// A file of this generation is accepted when each of its transfers is, and only then.
//
//vc:lemma C04
//vc:using unmarshalOverviewGen2V1 unmarshalActivitiesGen2V1 unmarshalEventsAndFaultsGen2V1 unmarshalTechnicalDataGen2V1 unmarshalDetailedSpeedGen2
func vFileAcceptGen2V1(raw *vuv1.RawVehicleUnitFile) {
	ok := true
	for _, r := range raw.GetRecords() {
		if !vTakenGen2V1(r) {
			ok = false
			break
		}
	}
	vc.Follow()
	file, err := unmarshalVehicleUnitFileGen2V1(raw)
	vc.Assert((err == nil) == ok, "accepted when each transfer is")
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(file != nil, "a file")
}

// The Activities list holds the decoded Activities transfers in file order.
//
//vc:lemma C04
//vc:using unmarshalOverviewGen2V1 unmarshalActivitiesGen2V1 unmarshalEventsAndFaultsGen2V1 unmarshalTechnicalDataGen2V1 unmarshalDetailedSpeedGen2
func vFileActivitiesGen2V1(raw *vuv1.RawVehicleUnitFile) {
	file, err := unmarshalVehicleUnitFileGen2V1(raw)
	if err != nil {
		return
	}
	list := file.GetActivities()
	n := 0
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {
		vc.At(i)
		if r := recs[i]; r.GetType() == vuv1.TransferType_ACTIVITIES_GEN2_V1 {
			m, err := unmarshalActivitiesGen2V1(r.GetValue())
			vc.Assert(err == nil, "decoded")
			vc.Assert(n < len(list), "listed")
			vc.AssertMsg(list[n], m, "transfer")
			n++
		}
	}
	vc.Assert(n == len(list), "nothing else is listed")
	vc.Reach("end")
}

// The EventsAndFaults list holds the decoded EventsAndFaults transfers in file order.
//
//vc:lemma C04
//vc:using unmarshalOverviewGen2V1 unmarshalActivitiesGen2V1 unmarshalEventsAndFaultsGen2V1 unmarshalTechnicalDataGen2V1 unmarshalDetailedSpeedGen2
func vFileEventsAndFaultsGen2V1(raw *vuv1.RawVehicleUnitFile) {
	file, err := unmarshalVehicleUnitFileGen2V1(raw)
	if err != nil {
		return
	}
	list := file.GetEventsAndFaults()
	n := 0
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {
		vc.At(i)
		if r := recs[i]; r.GetType() == vuv1.TransferType_EVENTS_AND_FAULTS_GEN2_V1 {
			m, err := unmarshalEventsAndFaultsGen2V1(r.GetValue())
			vc.Assert(err == nil, "decoded")
			vc.Assert(n < len(list), "listed")
			vc.AssertMsg(list[n], m, "transfer")
			n++
		}
	}
	vc.Assert(n == len(list), "nothing else is listed")
	vc.Reach("end")
}

// The DetailedSpeed list holds the decoded DetailedSpeed transfers in file order.
//
//vc:lemma C04
//vc:using unmarshalOverviewGen2V1 unmarshalActivitiesGen2V1 unmarshalEventsAndFaultsGen2V1 unmarshalTechnicalDataGen2V1 unmarshalDetailedSpeedGen2
func vFileDetailedSpeedGen2V1(raw *vuv1.RawVehicleUnitFile) {
	file, err := unmarshalVehicleUnitFileGen2V1(raw)
	if err != nil {
		return
	}
	list := file.GetDetailedSpeed()
	n := 0
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {
		vc.At(i)
		if r := recs[i]; r.GetType() == vuv1.TransferType_DETAILED_SPEED_GEN2 {
			m, err := unmarshalDetailedSpeedGen2(r.GetValue())
			vc.Assert(err == nil, "decoded")
			vc.Assert(n < len(list), "listed")
			vc.AssertMsg(list[n], m, "transfer")
			n++
		}
	}
	vc.Assert(n == len(list), "nothing else is listed")
	vc.Reach("end")
}

// The TechnicalData list holds the decoded TechnicalData transfers in file order.
//
//vc:lemma C04
//vc:using unmarshalOverviewGen2V1 unmarshalActivitiesGen2V1 unmarshalEventsAndFaultsGen2V1 unmarshalTechnicalDataGen2V1 unmarshalDetailedSpeedGen2
func vFileTechnicalDataGen2V1(raw *vuv1.RawVehicleUnitFile) {
	file, err := unmarshalVehicleUnitFileGen2V1(raw)
	if err != nil {
		return
	}
	list := file.GetTechnicalData()
	n := 0
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {
		vc.At(i)
		if r := recs[i]; r.GetType() == vuv1.TransferType_TECHNICAL_DATA_GEN2_V1 {
			m, err := unmarshalTechnicalDataGen2V1(r.GetValue())
			vc.Assert(err == nil, "decoded")
			vc.Assert(n < len(list), "listed")
			vc.AssertMsg(list[n], m, "transfer")
			n++
		}
	}
	vc.Assert(n == len(list), "nothing else is listed")
	vc.Reach("end")
}

// The overview is that of the last overview transfer.
//
//vc:lemma C04
//vc:using unmarshalOverviewGen2V1 unmarshalActivitiesGen2V1 unmarshalEventsAndFaultsGen2V1 unmarshalTechnicalDataGen2V1 unmarshalDetailedSpeedGen2
func vFileOverviewGen2V1(raw *vuv1.RawVehicleUnitFile) {
	file, err := unmarshalVehicleUnitFileGen2V1(raw)
	if err != nil {
		return
	}
	var want *vuv1.OverviewGen2V1
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {
		vc.At(i)
		if r := recs[i]; r.GetType() == vuv1.TransferType_OVERVIEW_GEN2_V1 {
			want, _ = unmarshalOverviewGen2V1(r.GetValue())
		}
	}
	vc.AssertMsg(file.GetOverview(), want, "overview")
	vc.Reach("end")
}

// vTakenGen2V2 reports whether the record is a transfer of the generation which its decoder accepts.
func vTakenGen2V2(r *vuv1.RawVehicleUnitFile_Record) bool {
	var err error
	switch r.GetType() {
	case vuv1.TransferType_DOWNLOAD_INTERFACE_VERSION:
	case vuv1.TransferType_OVERVIEW_GEN2_V2:
		_, err = unmarshalOverviewGen2V2(r.GetValue())
	case vuv1.TransferType_ACTIVITIES_GEN2_V2:
		_, err = unmarshalActivitiesGen2V2(r.GetValue())
	case vuv1.TransferType_EVENTS_AND_FAULTS_GEN2_V2:
		_, err = unmarshalEventsAndFaultsGen2V2(r.GetValue())
	case vuv1.TransferType_DETAILED_SPEED_GEN2:
		_, err = unmarshalDetailedSpeedGen2(r.GetValue())
	case vuv1.TransferType_TECHNICAL_DATA_GEN2_V2:
		_, err = unmarshalTechnicalDataGen2V2(r.GetValue())
	default:
		return false
	}
	return err == nil
}

// A file of this generation is accepted when each of its transfers is, and only then.
//
//vc:lemma C04
//vc:using unmarshalOverviewGen2V2 unmarshalActivitiesGen2V2 unmarshalEventsAndFaultsGen2V2 unmarshalTechnicalDataGen2V2 unmarshalDetailedSpeedGen2
func vFileAcceptGen2V2(raw *vuv1.RawVehicleUnitFile) {
	ok := true
	for _, r := range raw.GetRecords() {
		if !vTakenGen2V2(r) {
			ok = false
			break
		}
	}
	vc.Follow()
	file, err := unmarshalVehicleUnitFileGen2V2(raw)
	vc.Assert((err == nil) == ok, "accepted when each transfer is")
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(file != nil, "a file")
}

// The Activities list holds the decoded Activities transfers in file order.
//
//vc:lemma C04
//vc:using unmarshalOverviewGen2V2 unmarshalActivitiesGen2V2 unmarshalEventsAndFaultsGen2V2 unmarshalTechnicalDataGen2V2 unmarshalDetailedSpeedGen2
func vFileActivitiesGen2V2(raw *vuv1.RawVehicleUnitFile) {
	file, err := unmarshalVehicleUnitFileGen2V2(raw)
	if err != nil {
		return
	}
	list := file.GetActivities()
	n := 0
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {
		vc.At(i)
		if r := recs[i]; r.GetType() == vuv1.TransferType_ACTIVITIES_GEN2_V2 {
			m, err := unmarshalActivitiesGen2V2(r.GetValue())
			vc.Assert(err == nil, "decoded")
			vc.Assert(n < len(list), "listed")
			vc.AssertMsg(list[n], m, "transfer")
			n++
		}
	}
	vc.Assert(n == len(list), "nothing else is listed")
	vc.Reach("end")
}

// The EventsAndFaults list holds the decoded EventsAndFaults transfers in file order.
//
//vc:lemma C04
//vc:using unmarshalOverviewGen2V2 unmarshalActivitiesGen2V2 unmarshalEventsAndFaultsGen2V2 unmarshalTechnicalDataGen2V2 unmarshalDetailedSpeedGen2
func vFileEventsAndFaultsGen2V2(raw *vuv1.RawVehicleUnitFile) {
	file, err := unmarshalVehicleUnitFileGen2V2(raw)
	if err != nil {
		return
	}
	list := file.GetEventsAndFaults()
	n := 0
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {
		vc.At(i)
		if r := recs[i]; r.GetType() == vuv1.TransferType_EVENTS_AND_FAULTS_GEN2_V2 {
			m, err := unmarshalEventsAndFaultsGen2V2(r.GetValue())
			vc.Assert(err == nil, "decoded")
			vc.Assert(n < len(list), "listed")
			vc.AssertMsg(list[n], m, "transfer")
			n++
		}
	}
	vc.Assert(n == len(list), "nothing else is listed")
	vc.Reach("end")
}

// The DetailedSpeed list holds the decoded DetailedSpeed transfers in file order.
//
//vc:lemma C04
//vc:using unmarshalOverviewGen2V2 unmarshalActivitiesGen2V2 unmarshalEventsAndFaultsGen2V2 unmarshalTechnicalDataGen2V2 unmarshalDetailedSpeedGen2
func vFileDetailedSpeedGen2V2(raw *vuv1.RawVehicleUnitFile) {
	file, err := unmarshalVehicleUnitFileGen2V2(raw)
	if err != nil {
		return
	}
	list := file.GetDetailedSpeed()
	n := 0
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {
		vc.At(i)
		if r := recs[i]; r.GetType() == vuv1.TransferType_DETAILED_SPEED_GEN2 {
			m, err := unmarshalDetailedSpeedGen2(r.GetValue())
			vc.Assert(err == nil, "decoded")
			vc.Assert(n < len(list), "listed")
			vc.AssertMsg(list[n], m, "transfer")
			n++
		}
	}
	vc.Assert(n == len(list), "nothing else is listed")
	vc.Reach("end")
}

// The TechnicalData list holds the decoded TechnicalData transfers in file order.
//
//vc:lemma C04
//vc:using unmarshalOverviewGen2V2 unmarshalActivitiesGen2V2 unmarshalEventsAndFaultsGen2V2 unmarshalTechnicalDataGen2V2 unmarshalDetailedSpeedGen2
func vFileTechnicalDataGen2V2(raw *vuv1.RawVehicleUnitFile) {
	file, err := unmarshalVehicleUnitFileGen2V2(raw)
	if err != nil {
		return
	}
	list := file.GetTechnicalData()
	n := 0
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {
		vc.At(i)
		if r := recs[i]; r.GetType() == vuv1.TransferType_TECHNICAL_DATA_GEN2_V2 {
			m, err := unmarshalTechnicalDataGen2V2(r.GetValue())
			vc.Assert(err == nil, "decoded")
			vc.Assert(n < len(list), "listed")
			vc.AssertMsg(list[n], m, "transfer")
			n++
		}
	}
	vc.Assert(n == len(list), "nothing else is listed")
	vc.Reach("end")
}

// The overview is that of the last overview transfer.
//
//vc:lemma C04
//vc:using unmarshalOverviewGen2V2 unmarshalActivitiesGen2V2 unmarshalEventsAndFaultsGen2V2 unmarshalTechnicalDataGen2V2 unmarshalDetailedSpeedGen2
func vFileOverviewGen2V2(raw *vuv1.RawVehicleUnitFile) {
	file, err := unmarshalVehicleUnitFileGen2V2(raw)
	if err != nil {
		return
	}
	var want *vuv1.OverviewGen2V2
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {
		vc.At(i)
		if r := recs[i]; r.GetType() == vuv1.TransferType_OVERVIEW_GEN2_V2 {
			want, _ = unmarshalOverviewGen2V2(r.GetValue())
		}
	}
	vc.AssertMsg(file.GetOverview(), want, "overview")
	vc.Reach("end")
}

// vSecondVersion reports whether the record is a transfer that only version 2 of the second generation has.
func vSecondVersion(r *vuv1.RawVehicleUnitFile_Record) bool {
	switch vTrep(r.GetType()) {
	case 0x00, 0x31, 0x32, 0x33, 0x35:
		return true
	}
	return false
}

// The file's generation is that of its first transfer, and the version follows from the transfers.
//
//vc:lemma C04
//vc:using unmarshalRawVehicleUnitFile unmarshalVehicleUnitFileGen1 unmarshalVehicleUnitFileGen2V1 unmarshalVehicleUnitFileGen2V2
func vFileDispatch(data []byte) {
	raw, rerr := unmarshalRawVehicleUnitFile(data)
	v2 := false
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {
		if vSecondVersion(recs[i]) {
			v2 = true
			break
		}
	}
	vc.Follow()
	file, err := UnmarshalVehicleUnitFile(data)
	if rerr != nil || len(recs) == 0 {
		vc.Assert(err != nil, "nothing to read")
		return
	}
	switch recs[0].GetGeneration() {
	case ddv1.Generation_GENERATION_1:
		want, werr := unmarshalVehicleUnitFileGen1(raw)
		vc.Assert((err == nil) == (werr == nil), "first generation accepted")
		if err != nil {
			return
		}
		vc.Reach("first")
		vc.Assert(file.GetGeneration() == ddv1.Generation_GENERATION_1, "first generation")
		vc.AssertMsg(file.GetGen1(), want, "first generation file")
		vc.Assert(file.GetGen2V1() == nil && file.GetGen2V2() == nil, "no second generation file")
	case ddv1.Generation_GENERATION_2:
		if v2 {
			want, werr := unmarshalVehicleUnitFileGen2V2(raw)
			vc.Assert((err == nil) == (werr == nil), "second version accepted")
			if err != nil {
				return
			}
			vc.Reach("second version")
			vc.Assert(file.GetGeneration() == ddv1.Generation_GENERATION_2, "second generation, version 2")
			vc.Assert(file.GetVersion() == ddv1.Version_VERSION_2, "version 2")
			vc.AssertMsg(file.GetGen2V2(), want, "version 2 file")
			vc.Assert(file.GetGen1() == nil && file.GetGen2V1() == nil, "only a version 2 file")
			return
		}
		want, werr := unmarshalVehicleUnitFileGen2V1(raw)
		vc.Assert((err == nil) == (werr == nil), "first version accepted")
		if err != nil {
			return
		}
		vc.Reach("first version")
		vc.Assert(file.GetGeneration() == ddv1.Generation_GENERATION_2, "second generation, version 1")
		vc.Assert(file.GetVersion() == ddv1.Version_VERSION_1, "version 1")
		vc.AssertMsg(file.GetGen2V1(), want, "version 1 file")
		vc.Assert(file.GetGen1() == nil && file.GetGen2V2() == nil, "only a version 1 file")
	default:
		vc.Assert(err != nil, "unknown generation")
	}
}
