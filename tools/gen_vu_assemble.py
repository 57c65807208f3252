out='''package vu

import (
	"github.com/way-platform/tachograph-go/internal/vc"
	vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"
)

'''
gens={
'Gen1':('Gen1','Gen1','Gen1',1),
'Gen2V1':('Gen2V1','Gen2','Gen2V1',2),
'Gen2V2':('Gen2V2','Gen2','Gen2V2',2),
}
en={'Gen1':'GEN1','Gen2V1':'GEN2_V1','Gen2V2':'GEN2_V2','Gen2':'GEN2'}
lists=[('Activities','ACTIVITIES','a'),('EventsAndFaults','EVENTS_AND_FAULTS','e'),('DetailedSpeed','DETAILED_SPEED','s'),('TechnicalData','TECHNICAL_DATA','t')]
for g,(m,sp,_,_) in gens.items():
    out+=f'''// vTaken{g} reports whether the record is a transfer of the generation which its decoder accepts.
func vTaken{g}(r *vuv1.RawVehicleUnitFile_Record) bool {{
	var err error
	switch r.GetType() {{
'''
    if g=='Gen2V2':
        out+='	case vuv1.TransferType_DOWNLOAD_INTERFACE_VERSION:\n'
    out+=f'''	case vuv1.TransferType_OVERVIEW_{en[g]}:
		_, err = unmarshalOverview{g}(r.GetValue())
'''
    for n,E,c in lists:
        gg=sp if n=='DetailedSpeed' else g
        out+=f'''	case vuv1.TransferType_{E}_{en[gg]}:
		_, err = unmarshal{n}{gg}(r.GetValue())
'''
    using=' '.join('unmarshal%s%s'%(n,g) for n in ('Overview','Activities','EventsAndFaults','TechnicalData'))+' unmarshalDetailedSpeed'+sp
    out+=f'''	default:
		return false
	}}
	return err == nil
}}

// A file of this generation is accepted when each of its transfers is, and only then.
//
//vc:lemma C04
//vc:using {using}
func vFileAccept{g}(raw *vuv1.RawVehicleUnitFile) {{
	ok := true
	for _, r := range raw.GetRecords() {{
		if !vTaken{g}(r) {{
			ok = false
			break
		}}
	}}
	vc.Follow()
	file, err := unmarshalVehicleUnitFile{g}(raw)
	vc.Assert((err == nil) == ok, "accepted when each transfer is")
	if err != nil {{
		vc.Reach("rejected")
		return
	}}
	vc.Reach("accepted")
	vc.Assert(file != nil, "a file")
}}

'''
    for n,E,c in lists:
        gg=sp if n=='DetailedSpeed' else g
        out+=f'''// The {n} list holds the decoded {n} transfers in file order.
//
//vc:lemma C04
//vc:using {using}
func vFile{n}{g}(raw *vuv1.RawVehicleUnitFile) {{
	file, err := unmarshalVehicleUnitFile{g}(raw)
	if err != nil {{
		return
	}}
	list := file.Get{n}()
	n := 0
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {{
		vc.At(i)
		if r := recs[i]; r.GetType() == vuv1.TransferType_{E}_{en[gg]} {{
			m, err := unmarshal{n}{gg}(r.GetValue())
			vc.Assert(err == nil, "decoded")
			vc.Assert(n < len(list), "listed")
			vc.AssertMsg(list[n], m, "transfer")
			n++
		}}
	}}
	vc.Assert(n == len(list), "nothing else is listed")
	vc.Reach("end")
}}

'''
    out+=f'''// The overview is that of the last overview transfer.
//
//vc:lemma C04
//vc:using {using}
func vFileOverview{g}(raw *vuv1.RawVehicleUnitFile) {{
	file, err := unmarshalVehicleUnitFile{g}(raw)
	if err != nil {{
		return
	}}
	var want *vuv1.Overview{g}
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {{
		vc.At(i)
		if r := recs[i]; r.GetType() == vuv1.TransferType_OVERVIEW_{en[g]} {{
			want, _ = unmarshalOverview{g}(r.GetValue())
		}}
	}}
	vc.AssertMsg(file.GetOverview(), want, "overview")
	vc.Reach("end")
}}

'''
open('/verif/contracts/internal/vu/zz_verif_assemble.go','w').write(out.replace('	vc.Follow()\n	file, err','	vc.Follow()\n	file, err'))
s=open('/verif/contracts/internal/vu/zz_verif_assemble.go').read()
s=s.replace('''	"github.com/way-platform/tachograph-go/internal/vc"
''','''	"github.com/way-platform/tachograph-go/internal/vc"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
''')
s+='''// vSecondVersion reports whether the record is a transfer that only version 2 of the second generation has.
func vSecondVersion(r *vuv1.RawVehicleUnitFile_Record) bool {
	switch vTrep(r.GetType()) {
	case 0x00, 0x31, 0x32, 0x33, 0x35:
		return true
	}
	return false
}

// The file's generation is that of its first transfer, and the version follows from the transfers.
//
//vc:lemma C04
//vc:using unmarshalRawVehicleUnitFile unmarshalVehicleUnitFileGen1 unmarshalVehicleUnitFileGen2V1 unmarshalVehicleUnitFileGen2V2
func vFileDispatch(data []byte) {
	raw, rerr := unmarshalRawVehicleUnitFile(data)
	v2 := false
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {
		if vSecondVersion(recs[i]) {
			v2 = true
			break
		}
	}
	vc.Follow()
	file, err := UnmarshalVehicleUnitFile(data)
	if rerr != nil || len(recs) == 0 {
		vc.Assert(err != nil, "nothing to read")
		return
	}
	switch recs[0].GetGeneration() {
	case ddv1.Generation_GENERATION_1:
		want, werr := unmarshalVehicleUnitFileGen1(raw)
		vc.Assert((err == nil) == (werr == nil), "first generation accepted")
		if err != nil {
			return
		}
		vc.Reach("first")
		vc.Assert(file.GetGeneration() == ddv1.Generation_GENERATION_1, "first generation")
		vc.AssertMsg(file.GetGen1(), want, "first generation file")
		vc.Assert(file.GetGen2V1() == nil && file.GetGen2V2() == nil, "no second generation file")
	case ddv1.Generation_GENERATION_2:
		if v2 {
			want, werr := unmarshalVehicleUnitFileGen2V2(raw)
			vc.Assert((err == nil) == (werr == nil), "second version accepted")
			if err != nil {
				return
			}
			vc.Reach("second version")
			vc.Assert(file.GetGeneration() == ddv1.Generation_GENERATION_2, "second generation, version 2")
			vc.Assert(file.GetVersion() == ddv1.Version_VERSION_2, "version 2")
			vc.AssertMsg(file.GetGen2V2(), want, "version 2 file")
			vc.Assert(file.GetGen1() == nil && file.GetGen2V1() == nil, "only a version 2 file")
			return
		}
		want, werr := unmarshalVehicleUnitFileGen2V1(raw)
		vc.Assert((err == nil) == (werr == nil), "first version accepted")
		if err != nil {
			return
		}
		vc.Reach("first version")
		vc.Assert(file.GetGeneration() == ddv1.Generation_GENERATION_2, "second generation, version 1")
		vc.Assert(file.GetVersion() == ddv1.Version_VERSION_1, "version 1")
		vc.AssertMsg(file.GetGen2V1(), want, "version 1 file")
		vc.Assert(file.GetGen1() == nil && file.GetGen2V2() == nil, "only a version 1 file")
	default:
		vc.Assert(err != nil, "unknown generation")
	}
}
'''
open('/verif/contracts/internal/vu/zz_verif_assemble.go','w').write(s)
