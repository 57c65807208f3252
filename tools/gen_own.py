#!/usr/bin/env python3
"""Writes the C15 lemmas that decoders leave their input as it was: contracts/internal/*/zz_verif_own.go."""
import re,glob,os
here=os.path.dirname(os.path.abspath(__file__))
repo=os.environ.get('REPO','/repo')
SKIP={'UnmarshalVehicleUnitFile','unmarshalRawCardFileRecord','unmarshalVehicleUnitFile','unmarshalRawVehicleUnitFile'}
for pkg in ['dd','card','vu','security']:
    out=[]
    for f in sorted(glob.glob(f'{repo}/internal/{pkg}/*.go')):
        if f.endswith('_test.go'): continue
        for m in re.finditer(r'^func (\((?:opts|o) UnmarshalOptions\) )?([uU]nmarshal\w+)\((\w+) \[\]byte\) \((\S+), error\)', open(f).read(), re.M):
            n=m[2]
            if n in SKIP: continue
            recv='opts UnmarshalOptions, ' if m[1] else ''
            call=('opts.' if m[1] else '')+n
            out+=['//vc:lemma C15',f'func vInput{n[0].upper()}{n[1:]}({recv}data []byte) {{','\tin := vc.Snap(data)',f'\t{call}(data)','\tvc.AssertBytes(data, in, "input unchanged")','}','']
    open(f'{here}/../contracts/internal/{pkg}/zz_verif_own.go','w').write('\n'.join([f'package {pkg}','','// Generated by tools/gen_own.py.','','import "github.com/way-platform/tachograph-go/internal/vc"','']+out))
