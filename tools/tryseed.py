#!/usr/bin/env python3
"""tryseed.py ID.. [--checks C01,C02] : confirms planted bugs in scratch copies:
builds, passes the tests, the demo tells the trees apart; then runs the check of
the property (or the given checks) against the patched copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
def run(args, cwd, **kw):
    return subprocess.run(args, cwd=cwd, env=dict(ENV, **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
def samples(repo):
    exe = os.path.join(repo, '..', 'gr')
    p = run(['go', 'build', '-o', exe, './examples/grammar/grammar.go'], repo)
    if p.returncode: return ['build']
    bad = []
    d = os.path.join(repo, 'examples/grammar')
    import glob
    for f in sorted(glob.glob(d + '/samples/*/*/*')):
        rel = os.path.relpath(f, d)
        a = [exe]
        if rel.endswith('.txt'): a.append('-m')
        if '/invalid/' in rel: a.append('-e')
        a += [os.path.join(os.path.dirname(os.path.dirname(rel)), '.grammar'), rel]
        if run(a, d).returncode: bad.append(rel)
    return bad
def one(sid, checks):
    sd = os.path.join(V, 'seeded', sid)
    meta = json.load(open(sd + '/meta.json'))
    t = tempfile.mkdtemp(prefix='seed-')
    res = {'id': sid, 'property': meta['property']}
    try:
        clean, bad = t + '/clean', t + '/bad'
        for d in (clean, bad):
            subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
        p = run(['git', 'apply', sd + '/patch.diff'], bad)
        if p.returncode: return dict(res, fail='apply ' + p.stdout)
        p = run(['go', 'build', './...'], bad)
        if p.returncode: return dict(res, fail='build ' + p.stdout)
        p = run(['go', 'test', '-vet=off', './...'], bad)
        if p.returncode: return dict(res, fail='tests ' + p.stdout[-1500:])
        sb = samples(bad)
        if sb: return dict(res, fail='samples %s' % sb)
        p = run(['bash', sd + '/demo.sh'], clean)
        if p.returncode: return dict(res, fail='demo on clean ' + p.stdout[-1500:])
        p = run(['bash', sd + '/demo.sh'], bad)
        if p.returncode == 0: return dict(res, fail='demo passes with the patch ' + p.stdout[-500:])
        res['demo'] = p.stdout.strip()[-150:]
        for c in checks or [meta['property']]:
            if not os.path.exists(V + '/lib/%s.py' % c.lower()):
                res[c] = 'no check'
                continue
            p = run(['python3', 'check.py', c], V, VERIF_REPO=bad, VERIF_SEED='1')
            res[c] = 'CAUGHT' if p.returncode == 1 and 'VIOLATION property=%s' % c in p.stdout else 'missed (%d) %s' % (p.returncode, p.stdout[-300:])
        return res
    finally:
        shutil.rmtree(t)
a = sys.argv[1:]
checks = None
if '--checks' in a:
    i = a.index('--checks'); checks = a[i + 1].split(','); del a[i:i + 2]
for sid in a or sorted(os.listdir(V + '/seeded')):
    print(json.dumps(one(sid, checks)), flush=True)
