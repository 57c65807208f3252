#!/usr/bin/env python3
"""Writes the C01 lemmas of the single-structure decoders: contracts/internal/*/zz_verif_total.go."""
import re,glob,os
SKIP={'UnmarshalRawCardFile','unmarshalRawVehicleUnitFile','UnmarshalVehicleUnitFile','unmarshalVehicleUnitFile','unmarshalRawCardFileRecord'}
NOREJECT={'unmarshalSpecificConditions'}
cons={}
for pkg in ['dd','card','vu','security']:
    out=[]
    for f in sorted(glob.glob(f'/repo/internal/{pkg}/*.go')):
        if f.endswith('_test.go'): continue
        for m in re.finditer(r'^func (\(opts UnmarshalOptions\) )?([uU]nmarshal\w+)\((\w+) \[\]byte\) \((\S+), error\)', open(f).read(), re.M):
            n=m[2]
            if n in SKIP: continue
            recv='opts UnmarshalOptions, ' if m[1] else ''
            call=('opts.' if m[1] else '')+n
            v,a=('m','\tvc.Assert(m != nil, "a value is returned")') if m[4][0]=='*' and 'Timestamp' not in m[4] else ('_',None)
            if pkg in ('card','vu') and m[4][0]=='*' and v=='m':
                ref=('UnmarshalOptions.' if m[1] else '')+n
                cons.setdefault(pkg,[]).append(ref)
                out+=[f'//vc:contract {ref} C01 pure',f'func kTotal{n[9:]}({recv}data []byte, m {m[4]}, err error) {{','\tif err != nil {']
            else:
                out+=['//vc:lemma C01',f'func vTotal{n[9:]}({recv}data []byte) {{',f'\t{v}, err := {call}(data)','\tif err != nil {']
            if n not in NOREJECT: out+=['\t\tvc.Reach("rejected")']
            out+=['\t\treturn','\t}','\tvc.Reach("accepted")']+([a] if a else [])+['}','']
    imp=[f'\t{k}v1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/{k}/v1"' for k in ('card','dd','vu') if any(re.search(r'\*'+k+r'v1\.',l) for l in out)]
    open(f'/verif/contracts/internal/{pkg}/zz_verif_total.go','w').write('\n'.join([f'package {pkg}','','import (','\t"github.com/way-platform/tachograph-go/internal/vc"']+imp+[')','']+out))
