#!/usr/bin/env python3
"""corrupt.py ID [N]: demonstrates that the specification is bound to the observations.
Records N traces per part of the check, changes one observation in each and has TLC judge the changed
traces; prints how many are rejected and where the accepted changes were."""
import collections, copy, importlib, json, os, random, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import harness

pid, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 300
rng = random.Random(int(os.environ.get('VERIF_SEED', '1')))
stat = collections.OrderedDict()


def spots(x, path=()):
    """all places where something can be changed"""
    if isinstance(x, dict):
        if x.get('k') == 'none':                 # there is no error
            yield path + ('k',)
            return
        for k, y in x.items():
            if k not in ('id', 'tab' if pid not in ('C16', 'C18', 'C19') else 'id', 'ok', 'why', 'crash', 'msg'):
                yield from spots(y, path + (k,))
    elif isinstance(x, list):
        if x:
            yield path
        for i, y in enumerate(x):
            yield from spots(y, path + (i,))
    elif isinstance(x, (int, str)):
        yield path


def change(r):
    r = copy.deepcopy(r)
    by = collections.defaultdict(list)
    for p in spots(r):
        if p:
            by[shape(p)].append(p)
    if not by:
        return None
    p = rng.choice(by[rng.choice(sorted(by))])
    x = r
    for k in p[:-1]:
        x = x[k]
    y = x[p[-1]]
    if isinstance(y, bool) or isinstance(y, int):
        x[p[-1]] = 1 - y if y in (0, 1) and rng.random() < 0.5 else y + rng.choice([1, 1, 2, -1] if y > 0 else [1, 2])
        how = 'int'
    elif isinstance(y, str):
        x[p[-1]] = y + 'x' if not y or rng.random() < 0.5 else y[:-1]
        how = 'str'
    else:
        i = rng.randrange(len(y))
        z = rng.random()
        if z < 0.4:
            del y[i]
            how = 'drop'
        elif z < 0.7 or len(y) < 2:
            y.insert(i, copy.deepcopy(y[i]))
            how = 'double'
        else:
            j = rng.randrange(len(y))
            y[i], y[j] = y[j], y[i]
            how = 'swap'
    return r, shape(p), how


def shape(p):
    return '.'.join('*' if isinstance(k, int) else k for k in p)


def validate(chk, driver, module, cases, timeout=5.0, race=False, batch=20000, record=None, key=None, describe=None, env=None, amend=None, runner=None):
    record = record or harness.merge
    part = rng.sample(cases, n) if len(cases) > n else cases
    res = runner(chk, part) if runner else chk.run(driver, part, timeout, race=race)
    if amend:
        amend(chk, part, res)
    recs = [record(c, r) for c, r in zip(part, res)]
    ok = chk.tlc(module, [copy.deepcopy(x) for x in recs], env=env)
    new, info, before = [], {}, {}
    for c, r, rec in zip(part, res, recs):
        if ok[rec['id']]['v'] != 'OK':
            continue
        for _ in range(8):
            got = change(r)
            if not got:
                break
            try:
                rec2 = record(c, got[0])
            except Exception:
                continue
            if json.dumps(rec2, sort_keys=True) != json.dumps(rec, sort_keys=True):
                new.append(rec2)
                info[rec2['id']] = got[1:]
                before[rec2['id']] = rec
                break
    try:
        v = chk.tlc(module, new, env=env)
    except harness.ToolError as e:
        i = int(str(e).split('case ')[1].split()[0]) if 'no verdict' in str(e) else 0
        print(info.get(i), file=sys.stderr)
        raise
    s = stat.setdefault(module, [0, 0, collections.Counter(), collections.Counter()])
    for rec in new:
        s[0] += 1
        w = info[rec['id']]
        if v[rec['id']]['v'] != 'OK':
            s[1] += 1
            s[3][w] += 1
        else:
            s[2][w] += 1
            if os.environ.get('SHOW') == w[0]:
                print(w, json.dumps(before[rec['id']])[:int(os.environ.get('LEN', '3000'))], '\n=>', json.dumps(rec)[:int(os.environ.get('LEN', '3000'))])
    return []


harness.Check.validate = validate
harness.Check.most_failed = 1000
chk = harness.Check(pid)
try:
    importlib.import_module(pid.lower()).main(chk)
finally:
    shutil.rmtree(chk.tmp, ignore_errors=True)
for m, (a, b, acc, rej) in stat.items():
    print('%s %s: %d changed traces, %d rejected' % (pid, m, a, b))
    for w, k in acc.most_common(12):
        print('   accepted %d of %d: %s (%s)' % (k, k + rej[w], *w))
