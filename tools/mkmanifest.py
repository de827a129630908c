#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C07': ('TLA+ ideal source queue, TLC: refinement + replay of every model transition + trace validation', 'SourceQueue.tla is explored exhaustively for small sources; every transition is replayed on the real queue and, like random histories, every observation is judged by TLC.'),
 'C08': ('TLA+ line index with cache, TLC: exhaustive query orders on small texts + trace validation', 'LineCol.tla (definitions and cached search) is checked exhaustively for small texts; recorded answers of source.Source on exhaustive small and random larger texts are judged by TLC.'),
 'C13': ('TLA+ ideal ordered forest, TLC: replay of every model transition + trace validation', 'Every edit in every forest of 4 (thorough: 5) elements is replayed on the real tree and compared link by link; random histories on up to 12 elements.'),
 'C14': ('TLA+ document order, walker and selector semantics, TLC trace validation', 'All small trees with all single skip flags, random trees and selector expressions; every answer judged by TLC against Tree.tla.'),
 'C22': ('TLA+ ring buffer refining an ideal deque, ideal sets, TLC: replay of model transitions + trace validation', 'The ring buffer model refines the ideal deque exhaustively up to 18 items; all transitions and random histories are replayed on the real containers.'),
}
EXTRA = os.path.join(V, 'tools', 'claims.json')
if os.path.exists(EXTRA):
    T.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
NA = {}
na_file = os.path.join(V, 'tools', 'not_applicable.json')
if os.path.exists(na_file):
    NA = json.load(open(na_file))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': T[i][0], 'level': 'model_checking', 'level_note': T[i][1]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check committed yet')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, judged by TLC; drivers in driver/ are built from /repo\'s working tree through go build -overlay; no hooks in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
