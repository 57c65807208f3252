# writes contracts/internal/card/zz_verif_assemble.go: one lemma per file of each application
import re
HEAD=open('/verif/contracts/internal/card/zz_verif_assemble.go').read()
HEAD=HEAD[:HEAD.index('//vc:lemma')].rstrip()+'\n'
if 'internal/security' not in HEAD:
    HEAD=HEAD.replace('import (\n','import (\n	"github.com/way-platform/tachograph-go/internal/security"\n')
# field, EF, message type, decoder, generations, kind (signed, plain, rsa, ecc)
both=[('Identification','IDENTIFICATION','Identification','Identification'),
('DrivingLicenceInfo','DRIVING_LICENCE_INFO','DrivingLicenceInfo','DrivingLicenceInfo'),
('EventsData','EVENTS_DATA','EventsData','EventsData'),
('FaultsData','FAULTS_DATA','FaultsData','FaultsData'),
('DriverActivityData','DRIVER_ACTIVITY_DATA','DriverActivityData','DriverActivityData'),
('CurrentUsage','CURRENT_USAGE','CurrentUsage','CurrentUsage'),
('ControlActivityData','CONTROL_ACTIVITY_DATA','ControlActivityData','ControlActivityData')]
rows=[]
for f,ef,t,d in both:
    for g in (1,2): rows.append((g,f,ef,t,d,'signed'))
for f,ef,t in [('ApplicationIdentification','APPLICATION_IDENTIFICATION','ApplicationIdentification'),('VehiclesUsed','VEHICLES_USED','VehiclesUsed'),('Places','PLACES','Places'),('SpecificConditions','SPECIFIC_CONDITIONS','SpecificConditions')]:
    rows.append((1,f,ef,t,t,'signed')); rows.append((2,f,ef,t+'G2',t+'G2','signed'))
for g in (1,2): rows.append((g,'CardDownload','CARD_DOWNLOAD_DRIVER','CardDownloadDriver','CardDownload','plain'))
for f,ef in [('VehicleUnitsUsed','VEHICLE_UNITS_USED'),('GnssPlaces','GNSS_PLACES'),('ApplicationIdentificationV2','APPLICATION_IDENTIFICATION_V2')]:
    rows.append((2,f,ef,f,f,'signed'))
rows+= [(1,'CardCertificate','CARD_CERTIFICATE','CardCertificate','Rsa','cert'),(1,'CaCertificate','CA_CERTIFICATE','CaCertificate','Rsa','cert'),
(2,'CardMaCertificate','CARD_MA_CERTIFICATE','CardMaCertificate','Ecc','cert'),(2,'CardSignCertificate','CARD_SIGN_CERTIFICATE','CardSignCertificate','Ecc','cert'),
(2,'CaCertificate','CA_CERTIFICATE','CaCertificateG2','Ecc','cert'),(2,'LinkCertificate','LINK_CERTIFICATE','LinkCertificate','Ecc','cert'),
(0,'Icc','ICC','Icc','Icc','plain'),(0,'Ic','IC','Ic','Ic','plain')]
USING='//vc:using UnmarshalOptions.unmarshal~ internal/security/UnmarshalRsaCertificate internal/security/UnmarshalEccCertificate'
out=HEAD
GROUPS=[('Gen1',1,'the first generation'),('Gen2',2,'the second generation'),('Gen2Certificates',2,'the second generation (certificates)'),('Common',0,'no application')]
for name,gg,doc in GROUPS:
    rs=[r for r in rows if r[0]==gg and (gg!=2 or (r[5]=='cert')==('Cert' in name))]
    get={0:'card',1:'card.GetTachograph()',2:'card.GetTachographG2()'}[gg]
    out+=f"""
// Each field of {doc} holds what the last record of its file decodes to, with the signature that follows that record.
//
//vc:lemma C17
{USING}
func vCard{name}(raw *cardv1.RawCardFile) {{
	card, err := unmarshalDriverCardFile(raw)
	if err != nil {{
		return
	}}
"""
    for g,f,ef,t,d,k in rs:
        out+='	var w%s *cardv1.%s\n'%(f,t)
    out+="""	o := UnmarshalOptions{}
	o.Version = ddv1.Version_VERSION_1
	recs := raw.GetRecords()
	k := 0
	for i := 0; i < len(recs); i++ {
		vc.At(k)
		k++
		r := recs[i]
		sig, ok := vSignature(recs, i)
		if ok {
			i++
		}
		o.Generation = r.GetGeneration()
"""
    if gg: out+='		if r.GetGeneration() == ddv1.Generation_GENERATION_%d {\n'%gg
    out+='		switch r.GetFile() {\n'
    for g,f,ef,t,d,k in rs:
        out+='		case cardv1.ElementaryFileType_EF_%s:\n'%ef
        if k=='cert':
            out+=f"""			c, err := security.Unmarshal{d}Certificate(r.GetValue())
			vc.Assert(err == nil && sig == nil, "{f} decoded")
			m := &cardv1.{t}{{}}
			m.Set{d}Certificate(c)
			w{f} = m
"""
        elif k=='plain':
            out+=f"""			m, err := o.unmarshal{d}(r.GetValue())
			vc.Assert(err == nil && sig == nil, "{f} decoded")
			w{f} = m
"""
        else:
            out+=f"""			m, err := o.unmarshal{d}(r.GetValue())
			vc.Assert(err == nil, "{f} decoded")
			if sig != nil {{
				m.SetSignature(sig)
			}}
			w{f} = m
"""
    out+='		}\n'
    if gg: out+='		}\n'
    out+='		o.Version = vVersion(r, o)\n	}\n'
    for g,f,ef,t,d,k in rs:
        out+=f'	vc.AssertMsg({get}.Get{f}(), w{f}, "{f}")\n'
    out+='	vc.Reach("end")\n}\n'
out+='''
// vTaken reports whether a record of a card may be part of an accepted card: data of a known application for its
// file, which the decoder of that file and application accepts, signed only where the file may be.
func vTaken(r *cardv1.RawCardFile_Record, o UnmarshalOptions, sig []byte) bool {
	if r.GetContentType() != cardv1.ContentType_DATA {
		return false
	}
	g1, g2 := r.GetGeneration() == ddv1.Generation_GENERATION_1, r.GetGeneration() == ddv1.Generation_GENERATION_2
	var err error
	switch r.GetFile() {
'''
for ef in dict.fromkeys(r[2] for r in rows):
    rs=[r for r in rows if r[2]==ef]
    out+='	case cardv1.ElementaryFileType_EF_%s:\n'%ef
    def dec(r):
        return ('_, err = security.Unmarshal%sCertificate(r.GetValue())' if r[5]=='cert' else '_, err = o.unmarshal%s(r.GetValue())')%r[4]
    plain=rs[0][5]!='signed'
    if rs[0][0]==0:
        out+='		'+dec(rs[0])+'\n'
    else:
        gs=[r[0] for r in rs]
        cond=' && '.join('!g%d'%g for g in gs)
        out+='		if %s {\n			return false\n		}\n'%cond
        if len(rs)==2 and dec(rs[0])!=dec(rs[1]):
            out+='		if g1 {\n			%s\n		} else {\n			%s\n		}\n'%(dec(rs[0]),dec(rs[1]))
        else:
            out+='		%s\n'%dec(rs[0])
    if plain: out+='		if sig != nil {\n			return false\n		}\n'
out+='''	}
	return err == nil
}

// A card is accepted when each of its records is, and only then.
//
//vc:lemma C17
'''+USING+'''
func vCardAccept(raw *cardv1.RawCardFile) {
	card, err := unmarshalDriverCardFile(raw)
	vc.Follow()
	ok := true
	k := 0
	o := UnmarshalOptions{}
	o.Version = ddv1.Version_VERSION_1
	recs := raw.GetRecords()
	for i := 0; i < len(recs); i++ {
		vc.At(k)
		k++
		r := recs[i]
		o.Generation = r.GetGeneration()
		sig, signed := vSignature(recs, i)
		if signed {
			i++
		}
		if !vTaken(r, o, sig) {
			ok = false
			break
		}
		o.Version = vVersion(r, o)
	}
	vc.Assert((err == nil) == ok, "accepted when each record is")
	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(card != nil, "a card")
}
'''
open('/verif/contracts/internal/card/zz_verif_assemble.go','w').write(out)
