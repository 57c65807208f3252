kinds=[('OverviewGen1',1),('ActivitiesGen1',2),('EventsAndFaultsGen1',3),('DetailedSpeedGen1',4),('TechnicalDataGen1',5),
('OverviewGen2V1',0x21),('ActivitiesGen2V1',0x22),('EventsAndFaultsGen2V1',0x23),('DetailedSpeedGen2',0x24),('TechnicalDataGen2V1',0x25),
('OverviewGen2V2',0x31),('ActivitiesGen2V2',0x32),('EventsAndFaultsGen2V2',0x33),('TechnicalDataGen2V2',0x35)]
out='''package vu

import (
	"github.com/way-platform/tachograph-go/internal/vc"
)

'''
out+='''// vCard reports whether a card number is that of a driver, workshop, control or company card.
func vCard(d []byte) bool { return 1 <= d[0] && d[0] <= 4 }

// vCards01 reports whether the card numbers of a first-generation overview have a card type.
func vCards01(d []byte) bool {
	if !vCard(d[437:]) {
		return false
	}
	n := int(d[491])
	for i := 0; i < n; i++ {
		if !vCard(d[492+98*i+80:]) {
			return false
		}
	}
	at := 492 + 98*n
	n = int(d[at])
	for i := 0; i < n; i++ {
		if !vCard(d[at+1+31*i+5:]) {
			return false
		}
	}
	return true
}

// vCards02 reports whether the card insertions of first-generation activities have a card type and a slot.
func vCards02(d []byte) bool {
	n := vU16(d[7:])
	for i := 0; i < n; i++ {
		if !vCard(d[9+129*i+72:]) || d[9+129*i+101] > 1 {
			return false
		}
	}
	return true
}

'''
pre={1:'	vc.Assume(vCards01(value))\n	vc.Follow()\n',2:'	vc.Assume(vCards02(value))\n	vc.Follow()\n'}
for k,t in kinds:
    out+=f'''//vc:lemma C04
func vAccept{k}(value []byte) {{
	n, ok := vSize(0x{t:02x}, value)
	vc.Assume(ok && n == len(value))
{pre.get(t,'')}	m, err := unmarshal{k}(value)
	vc.Assert(err == nil, "accepted")
	vc.Reach("accepted")
	vc.AssertBytes(m.GetRawData(), value, "bytes kept")
'''
    if 'Gen1' in k:
        out+='	vc.AssertBytes(m.GetSignature(), value[len(value)-128:], "signature kept")\n'
    out+='}\n\n'
open('/verif/contracts/internal/vu/zz_verif_accept.go','w').write(out)
