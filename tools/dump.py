#!/usr/bin/env python3
"""dump.py TEXT|replay.json: prints compiled tables of a description"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import harness
a = sys.argv[1]
src = json.load(open(a))['case']['src'] if a.endswith('.json') else a
chk = harness.Check('dump')
r = chk.run('core', [{'k': 'lang', 'src': src}])[0]
print(src)
if not r.get('ok'):
    print(r)
    sys.exit(0)
t = r['tab']
nm = lambda k: 'Any' if k == -1 else 'EOI' if k == -3 else ("'%s'" % t['tokens'][k]['n'] if t['tokens'][k]['lit'] else '$' + t['tokens'][k]['n'])
for n in t['nodes']:
    print('node', n['n'], n['s'])
def rule(r):
    return '%s->%s%s' % (nm(r[0]), r[1] if r[1] >= 0 else 'F', '' if r[2] < 0 else '<' + t['nodes'][r[2]]['n'] + '>')
for i, s in enumerate(t['states']):
    print(i, ' '.join(rule(r) for r in s['rules']), '| ' + ' ; '.join(' '.join(rule(r) for r in m['rules']) for m in s['multi']) if s['multi'] else '')
