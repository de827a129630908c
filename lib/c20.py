"""C20: sessions on shared parsers (spec/Sessions.tla): every schedule the model
has for small sets of sessions, one after another, and all at once under the
race detector.  The scripts of the sessions come from processes of their own."""
import concurrent.futures as cf
import copy, json
import gram, harness, layers, mach, c03, c06, c10, c11, c12

KEYS = ('ins', 'hooks', 'sides', 'full', 'parses', 'failAt', 'stopAt', 'failKind', 'stopKind', 'seek')


class Base:
    """a grammar with a way to make sessions"""
    def __init__(self, rng):
        make = rng.choice([mach.general, mach.general, c03.make, c06.make, c06.free, c10.whole, c11.make, c12.make])
        got = []
        orig = mach.case

        def case(g, *a, **k):
            got[:] = [g]
            return orig(g, *a, **k)
        mach.case = case
        try:
            self.c = make(rng)
        finally:
            mach.case = orig
        self.g = got[0]
        self.indent = make is c10.whole

    def session(self, rng, gi):
        c = {k: copy.deepcopy(self.c.get(k, 0)) for k in KEYS}
        g = self.g
        x = rng.random()
        if x < 0.45:
            s = layers.lines(rng, g, 6) if self.indent else mach.text_for(rng, g, rng.choice([0.6, 0.9, 1.0]))
            c['ins'] = mach.split_sources(rng, s, rng.choice([1, 1, 2, 3]))
        elif x < 0.7:
            b = sum(c['ins'], [])
            i, j = sorted((rng.randint(0, len(b)), rng.randint(0, len(b))))
            b = rng.choice([b[:i], b[i:], b[:i] + b[j:], b[:j] + b[i:], b[j:] + b[:j]])[:200]
            k = rng.randint(0, len(b))
            c['ins'] = [b[:k], b[k:]] if rng.random() < 0.3 else [b]
        if rng.random() < 0.5:
            c['hooks'][0] = mach.make_cfg(rng, g, 0, toks=0.8, nodes=0.8)[0]
            c['hooks'][0].setdefault('kind', 'prog')
        if rng.random() < 0.4:
            h = c['hooks'][rng.randrange(len(c['hooks']))]
            if h.get('kind', 'prog') == 'prog':
                h['lits'] = sorted(set(h['lits'] + rng.sample(['zz', 'a', 'b', 'q', '+', 'x', '7', 'ab'], rng.randint(1, 3))))
                if not h['prog']:
                    h['prog'] = mach.make_prog(rng, g)
        if rng.random() < 0.4:
            c['sides'], c['full'], c['parses'] = rng.choice([0, 1]), rng.choice([0, 1]), rng.choice([1, 2, 3])
        y = rng.random()
        if y < 0.15:
            c['failAt'], c['failKind'] = rng.randint(1, 15), rng.randint(0, 4)
        elif y < 0.3:
            c['stopAt'], c['stopKind'] = rng.choice([-1, rng.randint(1, 15)]), rng.randint(0, 1)
        c['kind'] = 'tree' if rng.random() < 0.12 else 'build' if rng.random() < 0.04 else 'parse'
        c['g'], c['p'] = gi, rng.choice([0, 0, 0, 1])
        return c


MUCH = 60 << 20                   # bytes allocated alone: highly ambiguous texts take too much time and memory together


def sessions(rng, n):
    """(grammars, sessions)"""
    bases = [Base(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
    res = []
    for _ in range(n):
        if res and rng.random() < 0.2:
            res.append(copy.deepcopy(rng.choice(res)))
            continue
        i = rng.randrange(len(bases))
        res.append(bases[i].session(rng, i))
    used = sorted({s['g'] for s in res})
    for s in res:
        s['g'] = used.index(s['g'])
    return [bases[i].c['src'] for i in used], res


def runner_of(race):
    def runner(chk, cases):
        exe = chk.build('core')

        def alone(one):
            p = harness.Proc(exe, chk.tmp)
            try:
                line, why = p.ask(one, 2.0)
                if why == 'hang':
                    p.close()
                    p = harness.Proc(exe, chk.tmp)
                    line, why = p.ask(one, 8.0)
                return None if why else json.loads(line)
            finally:
                p.close()
        todo = {}
        for c in cases:
            c['_keys'] = []
            for s in c['sess']:
                x = json.dumps({'k': 'sessions', 'srcs': [c['srcs'][s['g']]], 'sess': [dict(s, g=0, p=0)], 'mode': 'seq', 'order': [], 'share': 0, 'shhk': 0},
                               separators=(',', ':')).encode() + b'\n'
                todo[x] = None
                c['_keys'].append(x)
        todo = {x: None for x in todo if x not in chk.alone}
        with cf.ThreadPoolExecutor(harness.NCPU) as ex:
            for x, r in zip(todo, ex.map(alone, todo)):
                chk.alone[x] = r
        live = []
        for c in cases:
            c['scripts'] = [chk.alone[x] for x in c['_keys']]
            del c['_keys']
            c['skip'] = 1 if any(r is None or r.get('crash') or not r.get('ok') or r['work'] > MUCH for r in c['scripts']) else 0
            c['scripts'] = [] if c['skip'] else [[h['e'] for h in r['hist']] for r in c['scripts']]
            c['lens'] = [len(x) for x in c['scripts']]
            if not c['skip']:
                live.append(c)
        rs = dict(zip(map(id, live), chk.run('core', [{k: c[k] for k in ('k', 'srcs', 'sess', 'mode', 'order', 'share', 'shhk')} for c in live],
                                              10 if race else 4, race=race)))
        chk.skipped += len(cases) - len(live)
        for c in cases:
            chk.case_no += 1
            c['id'] = chk.case_no
        return [rs.get(id(c)) or {'skip': 1} for c in cases]
    return runner


def record(c, r):
    if c.get('skip') or r.get('skip'):       # something is wrong with a session alone: other properties
        return {'id': c['id'], 'scripts': [], 'hist': [], 'crash': 0, 'same': 1, 'mode': 'skipped'}
    return {'id': c['id'], 'scripts': c['scripts'], 'hist': r.get('hist') or [], 'crash': r.get('crash', 0), 'same': r.get('same', 0), 'mode': c['mode']}


def case(rng, n, mode, order):
    srcs, ss = sessions(rng, n)
    return {'k': 'sessions', 'srcs': srcs, 'sess': ss, 'mode': mode, 'order': order, 'share': rng.choice([0, 1]), 'shhk': rng.choice([0, 0, 1])}


def main(chk):
    rng = chk.rng
    chk.alone, chk.skipped = {}, 0
    big = chk.thorough
    cases = []
    step = harness.mc_paths(chk, 'MCSessions', 'MCSessionsStep')
    nest = harness.mc_paths(chk, 'MCSessions', 'MCSessionsNest')
    for _ in range(4 if big else 1):
        for p in (step if big else rng.sample(step, 700)):
            most = rng.choice([1, 2, 4, 8])
            cases.append(case(rng, 3, 'step', [[o[0] - 1, rng.randint(1, most)] for o in p['path']]))
        for p in (nest if big else rng.sample(nest, 400)):
            at = {}
            order = []
            for o in p['path']:                  # steps of the model are stretched over the hook calls
                k = (o[0], o[1])
                at.setdefault(k, o[1] + (o[1] - 1) * rng.choice([0, 1, 3]))
                order.append([o[0] - 1, at[k], o[2] - 1])
            cases.append(case(rng, 4, 'nest', order))
    for _ in range(4000 if big else 500):
        cases.append(case(rng, rng.randint(2, 8), 'seq', []))
    chk.validate('core', 'SessionsTrace', cases, record=record, batch=3000, runner=runner_of(False))
    conc = []
    for _ in range(2500 if big else 250):
        conc.append(case(rng, rng.choice([4, 6, 8, 12]), 'conc', []))
    chk.validate('core', 'SessionsTrace', conc, record=record, batch=3000, runner=runner_of(True))
    chk.extra['model_schedules'] = len(step) + len(nest)
    chk.extra['sessions_alone'] = len(chk.alone)
    chk.extra['skipped'] = chk.skipped
    return chk.finish(rule='all schedules of the model (sampled in the quick tier) performed by random sessions; random histories; race detector')


def replay(chk, info):
    chk.alone, chk.skipped = {}, 0
    c = info['case']
    r = runner_of(c['mode'] == 'conc')(chk, [c])[0]
    v = chk.tlc(info['module'], [record(c, r)])[c['id']]
    print(json.dumps({'case': c, 'result': r, 'verdict': v}, indent=1))
    return 1 if v['v'] != 'OK' else 0
