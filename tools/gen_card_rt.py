#!/usr/bin/env python3
"""Writes contracts/internal/card/zz_verif_rt.go: decode then encode is the identity (C10)."""
import os
out = ['''package card

// Generated by tools/gen_card_rt.py.

import (
	"github.com/way-platform/tachograph-go/internal/dd"
	"github.com/way-platform/tachograph-go/internal/vc"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

// The messages have no field for an undefined nation code (a known finding: vUndefined*).
func vNation(b byte) bool {
	_, err := dd.UnmarshalEnum[ddv1.NationNumeric](b)
	return err == nil
}
''']
E = [  # name, decoder, encoder, size of a record
 ('Icc', 'unmarshalIcc', 'appendIcc', 0),
 ('Ic', 'unmarshalIc', 'appendCardIc', 0),
 ('ApplicationIdentification', 'unmarshalApplicationIdentification', 'appendCardApplicationIdentification', 0),
 ('ApplicationIdentificationG2', 'unmarshalApplicationIdentificationG2', 'appendCardApplicationIdentificationG2', 0),
 ('ApplicationIdentificationV2', 'unmarshalApplicationIdentificationV2', 'appendCardApplicationIdentificationV2', 0),
 ('CardDownload', 'unmarshalCardDownload', 'appendCardDownload', 0),
 ('ControlActivityData', 'unmarshalControlActivityData', 'appendCardControlActivityData', 0),
 ('CurrentUsage', 'unmarshalCurrentUsage', 'appendCurrentUsage', 0),
 ('DrivingLicenceInfo', 'unmarshalDrivingLicenceInfo', 'appendDrivingLicenceInfo', 0),
 ('EventsData', 'unmarshalEventsData', 'appendEventsData', 24),
 ('FaultsData', 'unmarshalFaultsData', 'appendFaultsData', 24),
 ('GnssPlaces', 'unmarshalGnssPlaces', 'appendCardGnssPlaces', 18),
 ('Places', 'unmarshalPlaces', 'appendPlaces', 10),
 ('PlacesG2', 'unmarshalPlacesG2', 'appendPlacesG2', 21),
 ('SpecificConditions', 'unmarshalSpecificConditions', 'appendCardSpecificConditions', 5),
 ('SpecificConditionsG2', 'unmarshalSpecificConditionsG2', 'appendCardSpecificConditionsG2', 5),
 ('VehicleUnitsUsed', 'unmarshalVehicleUnitsUsed', 'appendCardVehicleUnitsUsed', 10),
 ('VehiclesUsed', 'unmarshalVehiclesUsed', 'appendVehiclesUsed', 31),
 ('VehiclesUsedG2', 'unmarshalVehiclesUsedG2', 'appendVehiclesUsedG2', 48),
]

NATION = {  # where the nation stands, where a time of zero marks an empty record
 'ControlActivityData': [([6, 23], 1)],
 'CurrentUsage': [([4], None)],
 'DrivingLicenceInfo': [([36], None)],
 'EventsData': [([9], 1)],
 'FaultsData': [([9], 1)],
 'VehiclesUsed': [([14], None)],
 'VehiclesUsedG2': [([14], None)],
}
HDR = {'VehiclesUsed': 2, 'VehiclesUsedG2': 2}
for name, dec, enc, n in E:
    pre = hint = known = ''
    if name in NATION:
        pos, t = NATION[name][0]
        o = 'i+' if n else ''
        empty = ' && '.join(f'data[{o}{t+i}] == 0' for i in range(4)) if t else ''
        bad = ' || '.join(f'!vNation(data[{o}{p}])' for p in pos)
        if empty:
            bad = f'!({empty}) && ({bad})'
        if n:
            h = HDR.get(name, 0)
            pre = f"""	for i := {h}; i+{n} <= len(data); i += {n} {{
		if {bad} {{
			return
		}}
	}}
	vc.Follow()
"""
        else:
            size = {'ControlActivityData': 46, 'CurrentUsage': 19, 'DrivingLicenceInfo': 53}[name]
            pre = f"""	if len(data) == {size} && ({bad}) {{
		return
	}}
"""
        out.append(f"""
//vc:lemma C10
func vUndefined{name}(o UnmarshalOptions, data []byte) {{
	if len(data) != {n + HDR.get(name, 0) if n else size} {{
		return
	}}
{"" if not n else f"	i := {HDR.get(name, 0)}" + chr(10)}	if !({bad}) {{
		return
	}}
	m, err := o.{dec}(data)
	if err != nil {{
		return
	}}
	_, err = {enc}(nil, m)
	vc.Assert(err == nil, "encodes")
}}
""")
    if name == 'ApplicationIdentificationV2':  # longer content: vLongApplicationIdentificationV2
        pre = """	if len(data) > 4 {
		return
	}
"""
    arg, same = '', '	vc.AssertBytes(out, data, "same bytes")'
    if n > 30:  # record by record: k>>20 is any index a slice can have
        arg, same = ', k uint64', f"""	vc.Assert(len(out) == len(data), "same length")
	vc.AssertBytes(out[:{HDR[name]}], data[:{HDR[name]}], "same header")
	at := {HDR[name]} + {n}*int(k>>20)
	if at+{n} > len(data) {{
		return
	}}

""" + "".join(f'''
	vc.Assert(out[at+{c}] == data[at+{c}], "same byte {c}")''' for c in range(n))
    out.append(f'''
//vc:lemma C10
func vRT{name}(o UnmarshalOptions, data []byte{arg}) {{
{pre}	m, err := o.{dec}(data)
	if err != nil {{
		return
	}}
	vc.Reach("decoded")
	out, err := {enc}(nil, m)
	vc.Assert(err == nil, "encodes")
{same}
}}
''')
out.append('''
//vc:lemma C10
func vLongApplicationIdentificationV2(o UnmarshalOptions, data []byte) {
	if len(data) <= 4 {
		return
	}
	m, err := o.unmarshalApplicationIdentificationV2(data)
	if err != nil {
		return
	}
	out, err := appendCardApplicationIdentificationV2(nil, m)
	vc.Assert(err == nil, "encodes")
	vc.AssertBytes(out, data, "same bytes")
}
''')
IDENT = '''	m, err := o.unmarshalIdentification(data)
	if err != nil {
		return
	}
	vc.Reach("decoded")
	out, err := appendCardIdentification(nil, m.GetCard())
	vc.Assert(err == nil, "encodes the card part")
	out, err = appendDriverCardHolderIdentification(out, m.GetDriverCardHolder())
	vc.Assert(err == nil, "encodes the holder part")
	vc.AssertBytes(out, data, "same bytes")
}
'''
out.append('''
// EF_Identification is encoded in two parts, as appendDriverCard does.
//
//vc:lemma C10
func vRTIdentification(o UnmarshalOptions, data []byte) {
	if len(data) > 143 || (len(data) > 0 && !vNation(data[0])) {
		return
	}
''' + IDENT + '''
//vc:lemma C10
func vLongIdentification(o UnmarshalOptions, data []byte) {
	if len(data) <= 143 || !vNation(data[0]) {
		return
	}
''' + IDENT + '''
//vc:lemma C10
func vUndefinedIdentification(o UnmarshalOptions, data []byte) {
	if len(data) != 143 || vNation(data[0]) {
		return
	}
	m, err := o.unmarshalIdentification(data)
	if err != nil {
		return
	}
	_, err = appendCardIdentification(nil, m.GetCard())
	vc.Assert(err == nil, "encodes")
}
''')
open(os.path.join(os.path.dirname(__file__), '..', 'contracts/internal/card/zz_verif_rt.go'), 'w').write(''.join(out))
