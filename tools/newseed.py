#!/usr/bin/env python3
"""newseed.py ID PROPERTY FILE < spec : makes seeded/ID from a python script on stdin defining
edits = [(file, old, new), ..], demo = go main text, needs, breaks"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop = sys.argv[1:3]
ns = {}
exec(sys.stdin.read(), ns)
d = os.path.join(V, 'seeded', sid)
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix='ns-')
subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
for f, old, new in ns['edits']:
    p = os.path.join(t, 'r', f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
diff = subprocess.run(['git', 'diff'], cwd=t + '/r', stdout=subprocess.PIPE, text=True).stdout
open(d + '/patch.diff', 'w').write(diff)
shutil.rmtree(t)
if 'cases' in ns:
    # the parse driver, cases and what the unchanged tree does with them
    import sys as _s
    _s.path.insert(0, os.path.join(V, 'lib'))
    from harness import Check
    for f in ns.get('files', ['main.go', 'lang.go', 'parse.go']):
        shutil.copy(os.path.join(V, 'driver/core', f), d)
    base = {'k': 'parse', 'hooks': [{'toks': [], 'lits': [], 'nodes': [{'n': '', 'm': 1}], 'prog': []}], 'parses': 1, 'notab': 1}
    cs = [dict(base, **c) for c in ns['cases']]
    for c in cs:
        c['ins'] = [list(x.encode()) for x in c.get('ins', [])]
        c['hooks'] = [dict({'toks': [], 'lits': [], 'nodes': [], 'prog': []}, **h) for h in c['hooks']]
    open(d + '/cases.ndjson', 'w').write(''.join(json.dumps(c) + '\n' for c in cs))
    chk = Check('seed')
    exe = chk.build('core')
    out = subprocess.run([exe], stdin=open(d + '/cases.ndjson'), stdout=subprocess.PIPE, text=True).stdout
    open(d + '/want.ndjson', 'w').write(out)
    shutil.rmtree(chk.tmp)
    if ns.get('show'):
        print(out)
    ns['sh'] = '''#!/bin/bash
# exit 0: the hook calls and results are the ones of the unchanged tree
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
R=""
for f in "$D"/*.go; do R="$R,\\"$PWD/zzdemo/${f##*/}\\":\\"$f\\""; done
printf '{"Replace":{%s}}' "${R:1}" > "$T/ov.json"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
go build -buildvcs=false -overlay "$T/ov.json" -o "$T/demo" ./zzdemo || exit 2
timeout 60 "$T/demo" < "$D/cases.ndjson" > "$T/got" 2> "$T/err"
diff "$D/want.ndjson" "$T/got" | cut -c1-600
exit ${PIPESTATUS[0]}
'''
else:
    open(d + '/main.go', 'w').write(ns['demo'].lstrip())
open(d + '/demo.sh', 'w').write(ns.get('sh') or '''#!/bin/bash
# exit 0: the property holds for this input
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}' "$PWD" "$D" > "$T/ov.json"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
go build -buildvcs=false -overlay "$T/ov.json" -o "$T/demo" ./zzdemo || exit 2
timeout 60 "$T/demo"
''')
json.dump({'property': prop, 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
print(diff)
