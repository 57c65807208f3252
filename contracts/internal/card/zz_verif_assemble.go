package card

import (
	"github.com/way-platform/tachograph-go/internal/security"
	"github.com/way-platform/tachograph-go/internal/vc"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

// vSignature gives the signature record that belongs to record i, if one follows it.
func vSignature(recs []*cardv1.RawCardFile_Record, i int) ([]byte, bool) {
	if i+1 >= len(recs) {
		return nil, false
	}
	r, s := recs[i], recs[i+1]
	if s.GetFile() != r.GetFile() || s.GetGeneration() != r.GetGeneration() || s.GetContentType() != cardv1.ContentType_SIGNATURE {
		return nil, false
	}
	return s.GetValue(), true
}

// vVersion gives the version that the files after record r are decoded for.
func vVersion(r *cardv1.RawCardFile_Record, o UnmarshalOptions) ddv1.Version {
	if r.GetFile() != cardv1.ElementaryFileType_EF_APPLICATION_IDENTIFICATION {
		return o.Version
	}
	var v *ddv1.CardStructureVersion
	if r.GetGeneration() == ddv1.Generation_GENERATION_1 {
		m, _ := o.unmarshalApplicationIdentification(r.GetValue())
		v = m.GetCardStructureVersion()
	} else {
		m, _ := o.unmarshalApplicationIdentificationG2(r.GetValue())
		v = m.GetCardStructureVersion()
	}
	if v == nil {
		return o.Version
	}
	var w UnmarshalOptions
	w.SetFromCardStructureVersion(v)
	return w.Version
}

// The Identification field of the first generation holds what the last such record decodes to, with the signature that follows that record.
//

// Each field of the first generation holds what the last record of its file decodes to, with the signature that follows that record.
//

// Each field of the first generation holds what the last record of its file decodes to, with the signature that follows that record.
//

// Each field of the first generation holds what the last record of its file decodes to, with the signature that follows that record.
//

// Each field of the first generation holds what the last record of its file decodes to, with the signature that follows that record.
//
//vc:lemma C17
//vc:using UnmarshalOptions.unmarshal~ internal/security/UnmarshalRsaCertificate internal/security/UnmarshalEccCertificate
func vCardGen1(raw *cardv1.RawCardFile) {
	card, err := unmarshalDriverCardFile(raw)
	if err != nil {
		return
	}
	var wIdentification *cardv1.Identification
	var wDrivingLicenceInfo *cardv1.DrivingLicenceInfo
	var wEventsData *cardv1.EventsData
	var wFaultsData *cardv1.FaultsData
	var wDriverActivityData *cardv1.DriverActivityData
	var wCurrentUsage *cardv1.CurrentUsage
	var wControlActivityData *cardv1.ControlActivityData
	var wApplicationIdentification *cardv1.ApplicationIdentification
	var wVehiclesUsed *cardv1.VehiclesUsed
	var wPlaces *cardv1.Places
	var wSpecificConditions *cardv1.SpecificConditions
	var wCardDownload *cardv1.CardDownloadDriver
	var wCardCertificate *cardv1.CardCertificate
	var wCaCertificate *cardv1.CaCertificate
	o := UnmarshalOptions{}
	o.Version = ddv1.Version_VERSION_1
	recs := raw.GetRecords()
	k := 0
	for i := 0; i < len(recs); i++ {
		vc.At(k)
		k++
		r := recs[i]
		sig, ok := vSignature(recs, i)
		if ok {
			i++
		}
		o.Generation = r.GetGeneration()
		if r.GetGeneration() == ddv1.Generation_GENERATION_1 {
			switch r.GetFile() {
			case cardv1.ElementaryFileType_EF_IDENTIFICATION:
				m, err := o.unmarshalIdentification(r.GetValue())
				vc.Assert(err == nil, "Identification decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wIdentification = m
			case cardv1.ElementaryFileType_EF_DRIVING_LICENCE_INFO:
				m, err := o.unmarshalDrivingLicenceInfo(r.GetValue())
				vc.Assert(err == nil, "DrivingLicenceInfo decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wDrivingLicenceInfo = m
			case cardv1.ElementaryFileType_EF_EVENTS_DATA:
				m, err := o.unmarshalEventsData(r.GetValue())
				vc.Assert(err == nil, "EventsData decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wEventsData = m
			case cardv1.ElementaryFileType_EF_FAULTS_DATA:
				m, err := o.unmarshalFaultsData(r.GetValue())
				vc.Assert(err == nil, "FaultsData decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wFaultsData = m
			case cardv1.ElementaryFileType_EF_DRIVER_ACTIVITY_DATA:
				m, err := o.unmarshalDriverActivityData(r.GetValue())
				vc.Assert(err == nil, "DriverActivityData decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wDriverActivityData = m
			case cardv1.ElementaryFileType_EF_CURRENT_USAGE:
				m, err := o.unmarshalCurrentUsage(r.GetValue())
				vc.Assert(err == nil, "CurrentUsage decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wCurrentUsage = m
			case cardv1.ElementaryFileType_EF_CONTROL_ACTIVITY_DATA:
				m, err := o.unmarshalControlActivityData(r.GetValue())
				vc.Assert(err == nil, "ControlActivityData decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wControlActivityData = m
			case cardv1.ElementaryFileType_EF_APPLICATION_IDENTIFICATION:
				m, err := o.unmarshalApplicationIdentification(r.GetValue())
				vc.Assert(err == nil, "ApplicationIdentification decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wApplicationIdentification = m
			case cardv1.ElementaryFileType_EF_VEHICLES_USED:
				m, err := o.unmarshalVehiclesUsed(r.GetValue())
				vc.Assert(err == nil, "VehiclesUsed decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wVehiclesUsed = m
			case cardv1.ElementaryFileType_EF_PLACES:
				m, err := o.unmarshalPlaces(r.GetValue())
				vc.Assert(err == nil, "Places decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wPlaces = m
			case cardv1.ElementaryFileType_EF_SPECIFIC_CONDITIONS:
				m, err := o.unmarshalSpecificConditions(r.GetValue())
				vc.Assert(err == nil, "SpecificConditions decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wSpecificConditions = m
			case cardv1.ElementaryFileType_EF_CARD_DOWNLOAD_DRIVER:
				m, err := o.unmarshalCardDownload(r.GetValue())
				vc.Assert(err == nil && sig == nil, "CardDownload decoded")
				wCardDownload = m
			case cardv1.ElementaryFileType_EF_CARD_CERTIFICATE:
				c, err := security.UnmarshalRsaCertificate(r.GetValue())
				vc.Assert(err == nil && sig == nil, "CardCertificate decoded")
				m := &cardv1.CardCertificate{}
				m.SetRsaCertificate(c)
				wCardCertificate = m
			case cardv1.ElementaryFileType_EF_CA_CERTIFICATE:
				c, err := security.UnmarshalRsaCertificate(r.GetValue())
				vc.Assert(err == nil && sig == nil, "CaCertificate decoded")
				m := &cardv1.CaCertificate{}
				m.SetRsaCertificate(c)
				wCaCertificate = m
			}
		}
		o.Version = vVersion(r, o)
	}
	vc.AssertMsg(card.GetTachograph().GetIdentification(), wIdentification, "Identification")
	vc.AssertMsg(card.GetTachograph().GetDrivingLicenceInfo(), wDrivingLicenceInfo, "DrivingLicenceInfo")
	vc.AssertMsg(card.GetTachograph().GetEventsData(), wEventsData, "EventsData")
	vc.AssertMsg(card.GetTachograph().GetFaultsData(), wFaultsData, "FaultsData")
	vc.AssertMsg(card.GetTachograph().GetDriverActivityData(), wDriverActivityData, "DriverActivityData")
	vc.AssertMsg(card.GetTachograph().GetCurrentUsage(), wCurrentUsage, "CurrentUsage")
	vc.AssertMsg(card.GetTachograph().GetControlActivityData(), wControlActivityData, "ControlActivityData")
	vc.AssertMsg(card.GetTachograph().GetApplicationIdentification(), wApplicationIdentification, "ApplicationIdentification")
	vc.AssertMsg(card.GetTachograph().GetVehiclesUsed(), wVehiclesUsed, "VehiclesUsed")
	vc.AssertMsg(card.GetTachograph().GetPlaces(), wPlaces, "Places")
	vc.AssertMsg(card.GetTachograph().GetSpecificConditions(), wSpecificConditions, "SpecificConditions")
	vc.AssertMsg(card.GetTachograph().GetCardDownload(), wCardDownload, "CardDownload")
	vc.AssertMsg(card.GetTachograph().GetCardCertificate(), wCardCertificate, "CardCertificate")
	vc.AssertMsg(card.GetTachograph().GetCaCertificate(), wCaCertificate, "CaCertificate")
	vc.Reach("end")
}

// Each field of the second generation holds what the last record of its file decodes to, with the signature that follows that record.
//
//vc:lemma C17
//vc:using UnmarshalOptions.unmarshal~ internal/security/UnmarshalRsaCertificate internal/security/UnmarshalEccCertificate
func vCardGen2(raw *cardv1.RawCardFile) {
	card, err := unmarshalDriverCardFile(raw)
	if err != nil {
		return
	}
	var wIdentification *cardv1.Identification
	var wDrivingLicenceInfo *cardv1.DrivingLicenceInfo
	var wEventsData *cardv1.EventsData
	var wFaultsData *cardv1.FaultsData
	var wDriverActivityData *cardv1.DriverActivityData
	var wCurrentUsage *cardv1.CurrentUsage
	var wControlActivityData *cardv1.ControlActivityData
	var wApplicationIdentification *cardv1.ApplicationIdentificationG2
	var wVehiclesUsed *cardv1.VehiclesUsedG2
	var wPlaces *cardv1.PlacesG2
	var wSpecificConditions *cardv1.SpecificConditionsG2
	var wCardDownload *cardv1.CardDownloadDriver
	var wVehicleUnitsUsed *cardv1.VehicleUnitsUsed
	var wGnssPlaces *cardv1.GnssPlaces
	var wApplicationIdentificationV2 *cardv1.ApplicationIdentificationV2
	o := UnmarshalOptions{}
	o.Version = ddv1.Version_VERSION_1
	recs := raw.GetRecords()
	k := 0
	for i := 0; i < len(recs); i++ {
		vc.At(k)
		k++
		r := recs[i]
		sig, ok := vSignature(recs, i)
		if ok {
			i++
		}
		o.Generation = r.GetGeneration()
		if r.GetGeneration() == ddv1.Generation_GENERATION_2 {
			switch r.GetFile() {
			case cardv1.ElementaryFileType_EF_IDENTIFICATION:
				m, err := o.unmarshalIdentification(r.GetValue())
				vc.Assert(err == nil, "Identification decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wIdentification = m
			case cardv1.ElementaryFileType_EF_DRIVING_LICENCE_INFO:
				m, err := o.unmarshalDrivingLicenceInfo(r.GetValue())
				vc.Assert(err == nil, "DrivingLicenceInfo decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wDrivingLicenceInfo = m
			case cardv1.ElementaryFileType_EF_EVENTS_DATA:
				m, err := o.unmarshalEventsData(r.GetValue())
				vc.Assert(err == nil, "EventsData decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wEventsData = m
			case cardv1.ElementaryFileType_EF_FAULTS_DATA:
				m, err := o.unmarshalFaultsData(r.GetValue())
				vc.Assert(err == nil, "FaultsData decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wFaultsData = m
			case cardv1.ElementaryFileType_EF_DRIVER_ACTIVITY_DATA:
				m, err := o.unmarshalDriverActivityData(r.GetValue())
				vc.Assert(err == nil, "DriverActivityData decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wDriverActivityData = m
			case cardv1.ElementaryFileType_EF_CURRENT_USAGE:
				m, err := o.unmarshalCurrentUsage(r.GetValue())
				vc.Assert(err == nil, "CurrentUsage decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wCurrentUsage = m
			case cardv1.ElementaryFileType_EF_CONTROL_ACTIVITY_DATA:
				m, err := o.unmarshalControlActivityData(r.GetValue())
				vc.Assert(err == nil, "ControlActivityData decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wControlActivityData = m
			case cardv1.ElementaryFileType_EF_APPLICATION_IDENTIFICATION:
				m, err := o.unmarshalApplicationIdentificationG2(r.GetValue())
				vc.Assert(err == nil, "ApplicationIdentification decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wApplicationIdentification = m
			case cardv1.ElementaryFileType_EF_VEHICLES_USED:
				m, err := o.unmarshalVehiclesUsedG2(r.GetValue())
				vc.Assert(err == nil, "VehiclesUsed decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wVehiclesUsed = m
			case cardv1.ElementaryFileType_EF_PLACES:
				m, err := o.unmarshalPlacesG2(r.GetValue())
				vc.Assert(err == nil, "Places decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wPlaces = m
			case cardv1.ElementaryFileType_EF_SPECIFIC_CONDITIONS:
				m, err := o.unmarshalSpecificConditionsG2(r.GetValue())
				vc.Assert(err == nil, "SpecificConditions decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wSpecificConditions = m
			case cardv1.ElementaryFileType_EF_CARD_DOWNLOAD_DRIVER:
				m, err := o.unmarshalCardDownload(r.GetValue())
				vc.Assert(err == nil && sig == nil, "CardDownload decoded")
				wCardDownload = m
			case cardv1.ElementaryFileType_EF_VEHICLE_UNITS_USED:
				m, err := o.unmarshalVehicleUnitsUsed(r.GetValue())
				vc.Assert(err == nil, "VehicleUnitsUsed decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wVehicleUnitsUsed = m
			case cardv1.ElementaryFileType_EF_GNSS_PLACES:
				m, err := o.unmarshalGnssPlaces(r.GetValue())
				vc.Assert(err == nil, "GnssPlaces decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wGnssPlaces = m
			case cardv1.ElementaryFileType_EF_APPLICATION_IDENTIFICATION_V2:
				m, err := o.unmarshalApplicationIdentificationV2(r.GetValue())
				vc.Assert(err == nil, "ApplicationIdentificationV2 decoded")
				if sig != nil {
					m.SetSignature(sig)
				}
				wApplicationIdentificationV2 = m
			}
		}
		o.Version = vVersion(r, o)
	}
	vc.AssertMsg(card.GetTachographG2().GetIdentification(), wIdentification, "Identification")
	vc.AssertMsg(card.GetTachographG2().GetDrivingLicenceInfo(), wDrivingLicenceInfo, "DrivingLicenceInfo")
	vc.AssertMsg(card.GetTachographG2().GetEventsData(), wEventsData, "EventsData")
	vc.AssertMsg(card.GetTachographG2().GetFaultsData(), wFaultsData, "FaultsData")
	vc.AssertMsg(card.GetTachographG2().GetDriverActivityData(), wDriverActivityData, "DriverActivityData")
	vc.AssertMsg(card.GetTachographG2().GetCurrentUsage(), wCurrentUsage, "CurrentUsage")
	vc.AssertMsg(card.GetTachographG2().GetControlActivityData(), wControlActivityData, "ControlActivityData")
	vc.AssertMsg(card.GetTachographG2().GetApplicationIdentification(), wApplicationIdentification, "ApplicationIdentification")
	vc.AssertMsg(card.GetTachographG2().GetVehiclesUsed(), wVehiclesUsed, "VehiclesUsed")
	vc.AssertMsg(card.GetTachographG2().GetPlaces(), wPlaces, "Places")
	vc.AssertMsg(card.GetTachographG2().GetSpecificConditions(), wSpecificConditions, "SpecificConditions")
	vc.AssertMsg(card.GetTachographG2().GetCardDownload(), wCardDownload, "CardDownload")
	vc.AssertMsg(card.GetTachographG2().GetVehicleUnitsUsed(), wVehicleUnitsUsed, "VehicleUnitsUsed")
	vc.AssertMsg(card.GetTachographG2().GetGnssPlaces(), wGnssPlaces, "GnssPlaces")
	vc.AssertMsg(card.GetTachographG2().GetApplicationIdentificationV2(), wApplicationIdentificationV2, "ApplicationIdentificationV2")
	vc.Reach("end")
}

// Each field of the second generation (certificates) holds what the last record of its file decodes to, with the signature that follows that record.
//
//vc:lemma C17
//vc:using UnmarshalOptions.unmarshal~ internal/security/UnmarshalRsaCertificate internal/security/UnmarshalEccCertificate
func vCardGen2Certificates(raw *cardv1.RawCardFile) {
	card, err := unmarshalDriverCardFile(raw)
	if err != nil {
		return
	}
	var wCardMaCertificate *cardv1.CardMaCertificate
	var wCardSignCertificate *cardv1.CardSignCertificate
	var wCaCertificate *cardv1.CaCertificateG2
	var wLinkCertificate *cardv1.LinkCertificate
	o := UnmarshalOptions{}
	o.Version = ddv1.Version_VERSION_1
	recs := raw.GetRecords()
	k := 0
	for i := 0; i < len(recs); i++ {
		vc.At(k)
		k++
		r := recs[i]
		sig, ok := vSignature(recs, i)
		if ok {
			i++
		}
		o.Generation = r.GetGeneration()
		if r.GetGeneration() == ddv1.Generation_GENERATION_2 {
			switch r.GetFile() {
			case cardv1.ElementaryFileType_EF_CARD_MA_CERTIFICATE:
				c, err := security.UnmarshalEccCertificate(r.GetValue())
				vc.Assert(err == nil && sig == nil, "CardMaCertificate decoded")
				m := &cardv1.CardMaCertificate{}
				m.SetEccCertificate(c)
				wCardMaCertificate = m
			case cardv1.ElementaryFileType_EF_CARD_SIGN_CERTIFICATE:
				c, err := security.UnmarshalEccCertificate(r.GetValue())
				vc.Assert(err == nil && sig == nil, "CardSignCertificate decoded")
				m := &cardv1.CardSignCertificate{}
				m.SetEccCertificate(c)
				wCardSignCertificate = m
			case cardv1.ElementaryFileType_EF_CA_CERTIFICATE:
				c, err := security.UnmarshalEccCertificate(r.GetValue())
				vc.Assert(err == nil && sig == nil, "CaCertificate decoded")
				m := &cardv1.CaCertificateG2{}
				m.SetEccCertificate(c)
				wCaCertificate = m
			case cardv1.ElementaryFileType_EF_LINK_CERTIFICATE:
				c, err := security.UnmarshalEccCertificate(r.GetValue())
				vc.Assert(err == nil && sig == nil, "LinkCertificate decoded")
				m := &cardv1.LinkCertificate{}
				m.SetEccCertificate(c)
				wLinkCertificate = m
			}
		}
		o.Version = vVersion(r, o)
	}
	vc.AssertMsg(card.GetTachographG2().GetCardMaCertificate(), wCardMaCertificate, "CardMaCertificate")
	vc.AssertMsg(card.GetTachographG2().GetCardSignCertificate(), wCardSignCertificate, "CardSignCertificate")
	vc.AssertMsg(card.GetTachographG2().GetCaCertificate(), wCaCertificate, "CaCertificate")
	vc.AssertMsg(card.GetTachographG2().GetLinkCertificate(), wLinkCertificate, "LinkCertificate")
	vc.Reach("end")
}

// Each field of no application holds what the last record of its file decodes to, with the signature that follows that record.
//
//vc:lemma C17
//vc:using UnmarshalOptions.unmarshal~ internal/security/UnmarshalRsaCertificate internal/security/UnmarshalEccCertificate
func vCardCommon(raw *cardv1.RawCardFile) {
	card, err := unmarshalDriverCardFile(raw)
	if err != nil {
		return
	}
	var wIcc *cardv1.Icc
	var wIc *cardv1.Ic
	o := UnmarshalOptions{}
	o.Version = ddv1.Version_VERSION_1
	recs := raw.GetRecords()
	k := 0
	for i := 0; i < len(recs); i++ {
		vc.At(k)
		k++
		r := recs[i]
		sig, ok := vSignature(recs, i)
		if ok {
			i++
		}
		o.Generation = r.GetGeneration()
		switch r.GetFile() {
		case cardv1.ElementaryFileType_EF_ICC:
			m, err := o.unmarshalIcc(r.GetValue())
			vc.Assert(err == nil && sig == nil, "Icc decoded")
			wIcc = m
		case cardv1.ElementaryFileType_EF_IC:
			m, err := o.unmarshalIc(r.GetValue())
			vc.Assert(err == nil && sig == nil, "Ic decoded")
			wIc = m
		}
		o.Version = vVersion(r, o)
	}
	vc.AssertMsg(card.GetIcc(), wIcc, "Icc")
	vc.AssertMsg(card.GetIc(), wIc, "Ic")
	vc.Reach("end")
}

// vTaken reports whether a record of a card may be part of an accepted card: data of a known application for its
// file, which the decoder of that file and application accepts, signed only where the file may be.
func vTaken(r *cardv1.RawCardFile_Record, o UnmarshalOptions, sig []byte) bool {
	if r.GetContentType() != cardv1.ContentType_DATA {
		return false
	}
	g1, g2 := r.GetGeneration() == ddv1.Generation_GENERATION_1, r.GetGeneration() == ddv1.Generation_GENERATION_2
	var err error
	switch r.GetFile() {
	case cardv1.ElementaryFileType_EF_IDENTIFICATION:
		if !g1 && !g2 {
			return false
		}
		_, err = o.unmarshalIdentification(r.GetValue())
	case cardv1.ElementaryFileType_EF_DRIVING_LICENCE_INFO:
		if !g1 && !g2 {
			return false
		}
		_, err = o.unmarshalDrivingLicenceInfo(r.GetValue())
	case cardv1.ElementaryFileType_EF_EVENTS_DATA:
		if !g1 && !g2 {
			return false
		}
		_, err = o.unmarshalEventsData(r.GetValue())
	case cardv1.ElementaryFileType_EF_FAULTS_DATA:
		if !g1 && !g2 {
			return false
		}
		_, err = o.unmarshalFaultsData(r.GetValue())
	case cardv1.ElementaryFileType_EF_DRIVER_ACTIVITY_DATA:
		if !g1 && !g2 {
			return false
		}
		_, err = o.unmarshalDriverActivityData(r.GetValue())
	case cardv1.ElementaryFileType_EF_CURRENT_USAGE:
		if !g1 && !g2 {
			return false
		}
		_, err = o.unmarshalCurrentUsage(r.GetValue())
	case cardv1.ElementaryFileType_EF_CONTROL_ACTIVITY_DATA:
		if !g1 && !g2 {
			return false
		}
		_, err = o.unmarshalControlActivityData(r.GetValue())
	case cardv1.ElementaryFileType_EF_APPLICATION_IDENTIFICATION:
		if !g1 && !g2 {
			return false
		}
		if g1 {
			_, err = o.unmarshalApplicationIdentification(r.GetValue())
		} else {
			_, err = o.unmarshalApplicationIdentificationG2(r.GetValue())
		}
	case cardv1.ElementaryFileType_EF_VEHICLES_USED:
		if !g1 && !g2 {
			return false
		}
		if g1 {
			_, err = o.unmarshalVehiclesUsed(r.GetValue())
		} else {
			_, err = o.unmarshalVehiclesUsedG2(r.GetValue())
		}
	case cardv1.ElementaryFileType_EF_PLACES:
		if !g1 && !g2 {
			return false
		}
		if g1 {
			_, err = o.unmarshalPlaces(r.GetValue())
		} else {
			_, err = o.unmarshalPlacesG2(r.GetValue())
		}
	case cardv1.ElementaryFileType_EF_SPECIFIC_CONDITIONS:
		if !g1 && !g2 {
			return false
		}
		if g1 {
			_, err = o.unmarshalSpecificConditions(r.GetValue())
		} else {
			_, err = o.unmarshalSpecificConditionsG2(r.GetValue())
		}
	case cardv1.ElementaryFileType_EF_CARD_DOWNLOAD_DRIVER:
		if !g1 && !g2 {
			return false
		}
		_, err = o.unmarshalCardDownload(r.GetValue())
		if sig != nil {
			return false
		}
	case cardv1.ElementaryFileType_EF_VEHICLE_UNITS_USED:
		if !g2 {
			return false
		}
		_, err = o.unmarshalVehicleUnitsUsed(r.GetValue())
	case cardv1.ElementaryFileType_EF_GNSS_PLACES:
		if !g2 {
			return false
		}
		_, err = o.unmarshalGnssPlaces(r.GetValue())
	case cardv1.ElementaryFileType_EF_APPLICATION_IDENTIFICATION_V2:
		if !g2 {
			return false
		}
		_, err = o.unmarshalApplicationIdentificationV2(r.GetValue())
	case cardv1.ElementaryFileType_EF_CARD_CERTIFICATE:
		if !g1 {
			return false
		}
		_, err = security.UnmarshalRsaCertificate(r.GetValue())
		if sig != nil {
			return false
		}
	case cardv1.ElementaryFileType_EF_CA_CERTIFICATE:
		if !g1 && !g2 {
			return false
		}
		if g1 {
			_, err = security.UnmarshalRsaCertificate(r.GetValue())
		} else {
			_, err = security.UnmarshalEccCertificate(r.GetValue())
		}
		if sig != nil {
			return false
		}
	case cardv1.ElementaryFileType_EF_CARD_MA_CERTIFICATE:
		if !g2 {
			return false
		}
		_, err = security.UnmarshalEccCertificate(r.GetValue())
		if sig != nil {
			return false
		}
	case cardv1.ElementaryFileType_EF_CARD_SIGN_CERTIFICATE:
		if !g2 {
			return false
		}
		_, err = security.UnmarshalEccCertificate(r.GetValue())
		if sig != nil {
			return false
		}
	case cardv1.ElementaryFileType_EF_LINK_CERTIFICATE:
		if !g2 {
			return false
		}
		_, err = security.UnmarshalEccCertificate(r.GetValue())
		if sig != nil {
			return false
		}
	case cardv1.ElementaryFileType_EF_ICC:
		_, err = o.unmarshalIcc(r.GetValue())
		if sig != nil {
			return false
		}
	case cardv1.ElementaryFileType_EF_IC:
		_, err = o.unmarshalIc(r.GetValue())
		if sig != nil {
			return false
		}
	}
	return err == nil
}

// A card is accepted when each of its records is, and only then.
//
//vc:lemma C17
//vc:using UnmarshalOptions.unmarshal~ internal/security/UnmarshalRsaCertificate internal/security/UnmarshalEccCertificate
func vCardAccept(raw *cardv1.RawCardFile) {
	card, err := unmarshalDriverCardFile(raw)
	vc.Follow()
	ok := true
	k := 0
	o := UnmarshalOptions{}
	o.Version = ddv1.Version_VERSION_1
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {
		vc.At(k)
		k++
		r := recs[i]
		o.Generation = r.GetGeneration()
		sig, signed := vSignature(recs, i)
		if signed {
			i++
		}
		if !vTaken(r, o, sig) {
			ok = false
			break
		}
		o.Version = vVersion(r, o)
	}
	vc.Assert((err == nil) == ok, "accepted when each record is")
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(card != nil, "a card")
}
