#!/usr/bin/env python3
"""Writes contracts/internal/card/zz_verif_lists.go: the slicing of the record lists (C09)."""
import os
H = '''package card

// Generated by tools/gen_card_lists.py.

import (
	"github.com/way-platform/tachograph-go/internal/vc"
	"github.com/way-platform/tachograph-go/internal/dd"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
)

func vDD(o UnmarshalOptions) dd.UnmarshalOptions { return o.UnmarshalOptions }
'''
out = [H]

# name, decoder, header size, record size, list getter, header getter, header expr, record spec, using, lenient
L = [
 ('Places', 'unmarshalPlaces', 1, 10, 'GetRecords', 'GetNewestRecordIndex', 'int32(data[0])', 'PlaceRecord', 'place'),
 ('PlacesG2', 'unmarshalPlacesG2', 2, 21, 'GetRecords', 'GetNewestRecordIndex', 'int32(data[0])<<8|int32(data[1])', 'PlaceRecordG2', 'place'),
 ('VehiclesUsed', 'unmarshalVehiclesUsed', 2, 31, 'GetRecords', 'GetNewestRecordIndex', 'int32(data[0])<<8|int32(data[1])', 'CardVehicleRecord', 'strict'),
 ('VehiclesUsedG2', 'unmarshalVehiclesUsedG2', 2, 48, 'GetRecords', 'GetNewestRecordIndex', 'int32(data[0])<<8|int32(data[1])', 'CardVehicleRecordG2', 'strict'),
 ('SpecificConditions', 'unmarshalSpecificConditions', 0, 5, 'GetRecords', None, None, 'SpecificConditionRecord', 'strict'),
 ('SpecificConditionsG2', 'unmarshalSpecificConditionsG2', 2, 5, 'GetRecords', 'GetNewestRecordIndex', 'int32(data[0])<<8|int32(data[1])', 'SpecificConditionRecord', 'strict'),
 ('EventsData', 'unmarshalEventsData', 0, 24, 'GetEvents', None, None, 'event', 'event'),
 ('FaultsData', 'unmarshalFaultsData', 0, 24, 'GetFaults', None, None, 'fault', 'event'),
 ('GnssPlaces', 'unmarshalGnssPlaces', 2, 18, 'GetRecords', 'GetNewestRecordIndex', 'int32(data[0])<<8|int32(data[1])', 'gnss', 'own'),
 ('VehicleUnitsUsed', 'unmarshalVehicleUnitsUsed', 2, 10, 'GetRecords', 'GetVehicleUnitPointerNewestRecord', 'int32(data[0])<<8|int32(data[1])', 'unit', 'own'),
]
for name, dec, h, n, get, hget, hexpr, rec, kind in L:
    using = ''
    if kind in ('place', 'strict'):
        using = '//vc:using internal/dd/UnmarshalOptions.Unmarshal%s\n' % rec
    elif rec in ('event', 'fault'):
        using = ''
    elif rec == 'gnss':
        using = '//vc:using unmarshalGNSSAccumulatedDrivingRecord\n'
    elif rec == 'unit':
        using = '//vc:using unmarshalCardVehicleUnitRecord\n'
    bad = 'len(data) < %d || (len(data)-%d)%%%d != 0' % (h, h, n) if h else 'len(data)%%%d != 0' % n
    out.append(f'''
// A length that does not fit the layout of {name} is an error.
//
//vc:lemma C09
{using}func vLength{name}(o UnmarshalOptions, data []byte) {{
	m, err := o.{dec}(data)
	if {bad} {{
		vc.Reach("unfit")
		vc.Assert(err != nil, "unfit length rejected")
		return
	}}
	if err != nil {{
		return
	}}
	vc.Reach("decoded")
	vc.Assert(m != nil, "a value")
	vc.Assert(len(m.{get}()) == (len(data)-{h})/{n}, "number of records")
''' + (f'	vc.Assert(m.{hget}() == {hexpr}, "pointer")\n' if hget else '') + '}\n')
    if kind == 'place':
        body = f'''	w, e := vDD(o).Unmarshal{rec}(b)
	if e != nil {{
		vc.Reach("undecodable record")
		vc.Assert(!r.GetValid(), "marked invalid")
		vc.AssertBytes(r.GetRawData(), b, "kept")
		return
	}}
	vc.Reach("record")
	vc.AssertMsg(r, w, "record")
'''
    elif kind == 'strict':
        body = f'''	w, e := vDD(o).Unmarshal{rec}(b)
	vc.Reach("record")
	vc.Assert(e == nil, "decoded")
	vc.AssertMsg(r, w, "record")
'''
    elif kind == 'event':
        u = rec.capitalize()
        call = f'w, e := o.unmarshal{u}Record(b)' if u == 'Event' else 'w := &cardv1.FaultsData_Record{}\n	e := o.unmarshalFaultRecord(b, w)'
        using = '//vc:using internal/dd/UnmarshalOptions.UnmarshalTimeReal internal/dd/UnmarshalOptions.UnmarshalVehicleRegistration\n'
        body = f'''	if b[1] == 0 && b[2] == 0 && b[3] == 0 && b[4] == 0 {{
		vc.Reach("empty record")
		vc.Assert(!r.GetValid(), "marked invalid")
		vc.AssertBytes(r.GetRawData(), b, "kept")
		return
	}}
	{call}
	vc.Reach("record")
	vc.Assert(e == nil, "decoded")
	w.SetValid(true)
	vc.AssertMsg(r, w, "record")
'''
    elif rec == 'gnss':
        body = '''	w, e := unmarshalGNSSAccumulatedDrivingRecord(b, o)
	vc.Reach("record")
	vc.Assert(e == nil, "decoded")
	vc.AssertMsg(r, w, "record")
'''
    else:
        body = '''	w, e := unmarshalCardVehicleUnitRecord(b, o)
	vc.Reach("record")
	vc.Assert(e == nil, "decoded")
	vc.AssertMsg(r, w, "record")
'''
    out.append(f'''
// Record k of {name} comes from its own bytes.
//
//vc:lemma C09
{using}func vRecord{name}(o UnmarshalOptions, data []byte, k int) {{
	m, err := o.{dec}(data)
	if err != nil {{
		return
	}}
	vc.Assume(k >= 0 && k < len(m.{get}()))
	vc.At(k)
	r := m.{get}()[k]
	b := data[{h}+{n}*k : {h}+{n}*k+{n}]
{body}}}
''')
for rec in ('Event', 'Fault'):
    call = 'r, err := o.unmarshalEventRecord(data)' if rec == 'Event' else 'r := &cardv1.FaultsData_Record{}\n	err := o.unmarshalFaultRecord(data, r)'
    out.append(f'''
// {rec} records: type, begin, end, registration at their own offsets.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalTimeReal internal/dd/UnmarshalOptions.UnmarshalVehicleRegistration
func vFields{rec}(o UnmarshalOptions, data []byte) {{
	{call}
	if len(data) < 24 {{
		vc.Assert(err != nil, "short")
		return
	}}
	if err != nil {{
		return
	}}
	vc.Reach("decoded")
	t, e0 := dd.UnmarshalEnum[ddv1.EventFaultType](data[0])
	vc.Assert(e0 == nil && r.Get{rec}Type() == t, "type")
	begin, e1 := vDD(o).UnmarshalTimeReal(data[1:5])
	vc.Assert(e1 == nil, "begin decoded")
	vc.AssertMsg(r.Get{rec}BeginTime(), begin, "begin")
	end, e2 := vDD(o).UnmarshalTimeReal(data[5:9])
	vc.Assert(e2 == nil, "end decoded")
	vc.AssertMsg(r.Get{rec}EndTime(), end, "end")
	reg, e3 := vDD(o).UnmarshalVehicleRegistration(data[9:24])
	vc.Assert(e3 == nil, "registration decoded")
	vc.AssertMsg(r.Get{rec}VehicleRegistration(), reg, "registration")
}}
''')
out.append('''
// GNSS records: time, place and odometer at their own offsets.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalTimeReal internal/dd/UnmarshalOptions.UnmarshalGNSSPlaceRecord
func vFieldsGnss(o UnmarshalOptions, data []byte) {
	r, err := unmarshalGNSSAccumulatedDrivingRecord(data, o)
	if len(data) != 18 {
		vc.Assert(err != nil, "length")
		return
	}
	if err != nil {
		return
	}
	vc.Reach("decoded")
	t, e1 := vDD(o).UnmarshalTimeReal(data[0:4])
	vc.Assert(e1 == nil, "time decoded")
	vc.AssertMsg(r.GetTimestamp(), t, "time")
	p, e2 := vDD(o).UnmarshalGNSSPlaceRecord(data[4:15])
	vc.Assert(e2 == nil, "place decoded")
	vc.AssertMsg(r.GetGnssPlaceRecord(), p, "place")
	vc.Assert(r.GetVehicleOdometerKm() == int32(data[15])<<16|int32(data[16])<<8|int32(data[17]), "odometer")
}

// Vehicle unit records: time, manufacturer, device and software version at their own offsets.
//
//vc:lemma C09
//vc:using internal/dd/UnmarshalOptions.UnmarshalTimeReal
func vFieldsUnit(o UnmarshalOptions, data []byte) {
	r, err := unmarshalCardVehicleUnitRecord(data, o)
	if len(data) != 10 {
		vc.Assert(err != nil, "length")
		return
	}
	if err != nil {
		return
	}
	vc.Reach("decoded")
	t, e1 := vDD(o).UnmarshalTimeReal(data[0:4])
	vc.Assert(e1 == nil, "time decoded")
	vc.AssertMsg(r.GetTimestamp(), t, "time")
	vc.Assert(r.GetManufacturerCode() == int32(data[4]), "manufacturer")
	vc.AssertBytes(r.GetDeviceId(), data[5:6], "device")
	vc.AssertBytes(r.GetVuSoftwareVersion(), data[6:10], "version")
}
''')
# contracts
for rec in ('Event', 'Fault'):
    pass
src = ''.join(out)
if 'cardv1.' not in src.replace(H, ''):
    src = src.replace('\tcardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"\n', '')
p = os.path.join(os.path.dirname(__file__), '..', 'contracts/internal/card/zz_verif_lists.go')
open(p, 'w').write(src)

D = '''package dd

// Generated by tools/gen_card_lists.py: what the decoders of the card's records return depends on their input only.

import (
	"github.com/way-platform/tachograph-go/internal/vc"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	"google.golang.org/protobuf/types/known/timestamppb"
)
'''
for f, ty in [(r, '*ddv1.' + r) for r in ('PlaceRecord', 'PlaceRecordG2', 'CardVehicleRecord', 'CardVehicleRecordG2', 'SpecificConditionRecord', 'GNSSPlaceRecord')] + [('VehicleRegistration', '*ddv1.VehicleRegistrationIdentification'), ('TimeReal', '*timestamppb.Timestamp')]:
    body = '' if f == 'TimeReal' else '''	if err != nil {
		vc.Reach("rejected")
		return
	}
	vc.Reach("accepted")
	vc.Assert(m != nil, "a value is returned")
'''
    D += f'''
//vc:contract UnmarshalOptions.Unmarshal{f} C09 pure
func kPure{f}(o UnmarshalOptions, data []byte, m {ty}, err error) {{
{body}}}
'''
p = os.path.join(os.path.dirname(__file__), '..', 'contracts/internal/dd/zz_verif_pure.go')
open(p, 'w').write(D)
