#!/usr/bin/env python3
"""Plants one bug: writes seeded/<id>/ and confirms it in a scratch copy of /repo.

usage: seed.py SPEC.py   (SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], pkg, test)
"""
import json, os, shutil, subprocess, sys, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec['id']
out = f'/verif/seeded/{ID}'
work = tempfile.mkdtemp(prefix='seed', dir='/tmp')
copy = work + '/repo'
subprocess.run(['cp', '-a', '/repo', copy], check=True)
def sh(cmd, cwd=copy, **kw):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
ok = True
try:
    os.makedirs(out, exist_ok=True)
    pkg = spec['pkg']
    open(out + '/demo_test.go', 'w').write(spec['test'])
    open(out + '/demo.sh', 'w').write(f'''#!/bin/bash
# Runs with cwd at the repository root: exit 0 when the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PATH=/opt/veriftools/go1.25.14/bin:$PATH
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{{"Replace": {{"%s": "%s"}}}}' "$PWD/{pkg}/zz_seeded_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -count=1 -timeout 120s -run '^TestSeededDemo$' "./{pkg}"
''')
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    r = sh(f'bash {out}/demo.sh')
    print('unpatched demo', r.returncode); 
    if r.returncode: print(r.stdout[-2000:]); ok = False
    for f, a, b in spec['edits']:
        p = f'{copy}/{f}'
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, 'w').write(s.replace(a, b))
    d = sh('git diff').stdout
    open(out + '/patch.diff', 'w').write(d)
    # the lines taken away must be lines of the original repository
    for f, a, b in spec['edits']:
        for line in sh(f'git diff --no-color -U0 {f} | grep "^-" | grep -v "^---"').stdout.splitlines():
            pass
    blame = sh('git diff -U0 | grep "^@@"')
    base = sh('git rev-list --max-parents=0 HEAD').stdout.strip()
    import re
    for f, a, b in spec['edits']:
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))?', sh(f'git diff -U0 {f}').stdout, re.M):
            s0 = int(m[1]); n = int(m[2] or 1)
            if n == 0: continue
            for l in sh(f'git blame -l -s -L {s0},{s0+n-1} HEAD -- {f}').stdout.splitlines():
                if not l.lstrip('^').startswith(base[:20]): print('NOT ORIGINAL LINE', l)
    env = '. /opt/vp/env.sh; export PATH=/opt/veriftools/go1.25.14/bin:$PATH; '
    r = sh(env + 'go build ./... && go vet ./internal/... 2>&1 | tail -3')
    print('build', r.returncode, r.stdout[-1500:])
    if r.returncode: ok = False
    r = sh(env + 'go test ./... 2>&1 | grep -v "no test files" | grep -v "^ok"')
    print('tests', r.stdout[-1500:] or 'pass')
    if r.stdout.strip(): ok = False
    r = sh(f'bash {out}/demo.sh')
    print('patched demo', r.returncode, r.stdout[-600:])
    if r.returncode == 0: ok = False
finally:
    shutil.rmtree(work)
print(ID, 'OK' if ok else 'NOT CONFIRMED')
if not ok and '--keep' not in sys.argv: shutil.rmtree(out)
