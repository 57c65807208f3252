#!/usr/bin/env python3
"""Writes the repetitive data-dictionary lemmas (decode totality, round trip, encoder frame) to contracts/internal/dd."""
import os
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(here, '..', 'contracts', 'internal', 'dd', 'zz_verif_rt.go')

# name, layout length, precondition on the decoded bytes for the round trip (canonical inputs)
V = 'vKnown[ddv1.NationNumeric](%s)'
S = [
 ('ActivityChangeInfo', 2, '', ''),
 ('CardStructureVersion', 2, '', ''),
 ('CardVehicleRecord', 31, V % 'data[14]', 'strVR(m.GetVehicleRegistration()) && strBCD(m.GetVuDataBlockCounter(), 2)'),
 ('CardVehicleRecordG2', 48, V % 'data[14]', 'strVR(m.GetVehicleRegistration()) && strBCD(m.GetVuDataBlockCounter(), 2)'),
 ('ControlType', 1, '', ''),
 ('Date', 4, '', ''),
 ('DriverIdentification', 14, '', 'strIA(m.GetDriverIdentificationNumber(), 14)'),
 ('ExtendedSerialNumber', 8, 'vKnown[ddv1.EquipmentType](data[6])', ''),
 ('FullCardNumber', 18, 'vKnown[ddv1.NationNumeric](data[1])', 'strFC(m)'),
 ('FullCardNumberAndGeneration', 19, 'vKnown[ddv1.NationNumeric](data[1])', 'm.GetFullCardNumber() != nil && strFC(m.GetFullCardNumber())'),
 ('GeoCoordinates', 6, '', ''),
 ('GNSSPlaceAuthRecord', 12, '', ''),
 ('GNSSPlaceRecord', 11, '', ''),
 ('HolderName', 72, '', 'strSV(m.GetHolderSurname(), 35) && strSV(m.GetHolderFirstNames(), 35)'),
 ('MonthYear', 2, '', ''),
 ('OwnerIdentification', 16, '', 'strIA(m.GetOwnerIdentification(), 13) && strIA(m.GetConsecutiveIndex(), 1) && strIA(m.GetReplacementIndex(), 1) && strIA(m.GetRenewalIndex(), 1)'),
 ('PlaceRecord', 10, '', ''),
 ('PlaceRecordG2', 21, '', ''),
 ('PreviousVehicleInfo', 19, V % 'data[0]', 'strVR(m.GetVehicleRegistration())'),
 ('PreviousVehicleInfoG2', 20, V % 'data[0]', 'strVR(m.GetVehicleRegistration())'),
 ('SpecificConditionRecord', 5, '', ''),
 ('VehicleRegistration', 15, V % 'data[0]', 'strVR(m)'),
 ('VuCardIWRecord', 129, V % 'data[73]' + ' && ' + V % 'data[109]', ''),
]
msg = {'VehicleRegistration': 'VehicleRegistrationIdentification'}
fixed_any = {'PreviousVehicleInfo','PreviousVehicleInfoG2'}
o = ['''// Code generated by tools/gen_dd.py; DO NOT EDIT.

package dd

import (
	"github.com/way-platform/tachograph-go/internal/vc"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)
''']
for n, l, pre, mp in S:
    t = msg.get(n, n)
    p = f'\tvc.Assume({pre})\n' if pre else ''
    p = p.replace('vc.Assume(', f'if len(data) != {l} {{\n\t\treturn\n\t}}\n\tvc.Assume(') if pre else ''
    o.append(f'''
//vc:lemma C01 C05
func v{n}Total(o UnmarshalOptions, data []byte) {{
	m, err := o.Unmarshal{n}(data)
	if err != nil {{
		return
	}}
	vc.Reach("accepted")
	vc.Assert(len(data) == {l}, "only the layout's length is accepted")
	vc.Assert(m != nil, "a value is returned")
}}

//vc:lemma C06 C07
func v{n}RT(o UnmarshalOptions, data []byte, dst []byte) {{
{p}	m, err := o.Unmarshal{n}(data)
	if err != nil {{
		return
	}}
	pre := vc.Snap(dst)
	out, err := Append{n}(dst, m)
	vc.Assert(err == nil, "encodes")
	vc.Assert(len(out) == len(pre)+{l}, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
	vc.AssertBytes(out[len(pre):], data, "same bytes")
	vc.Reach("round trip")
}}

//vc:lemma C07
func v{n}Append(m *ddv1.{t}, dst []byte) {{
''' + (f'\tvc.Assume({mp})\n' if mp and n not in fixed_any else '') + f'''	pre := vc.Snap(dst)
	out, err := Append{n}(dst, m)
	if err != nil {{
		return
	}}
	vc.Reach("encoded")
	vc.Assert(len(out) == len(pre)+{l}, "adds the layout's length")
	vc.AssertBytes(out[:len(pre)], pre, "prefix kept")
}}
''')
open(out, 'w').write(''.join(o))
