"""C02: predictive grammars (spec/Predict.tla)."""
import gram, mach, small, big, real
from c01 import lits

WORDS = [c for c in 'abcdefghijklmnopqrstuvwxyz'] + ['ab', 'bc', 'abc', 'zz', '+', '-', '(', ')']


def predictive(rng):
    """mostly different leaves, no empty nested nodes"""
    for _ in range(200):
        ts = mach.profile(rng)
        for t in ts:
            t.grp = 0
        ts = [t for t in ts if not t.ext]
        names = [t.name for t in ts if not t.side and not t.err]
        left = WORDS[:]
        up = [t for t in ts if t.name == 'up']
        if up:
            left = gram.up_lits(rng, up[0]) + rng.sample(left, rng.choice([3, 8, len(left)]))
        rng.shuffle(left)
        pool = []
        again = rng.choice([0, 0.05, 0.2])

        def leaf():
            x = rng.random()
            if x < 0.08:
                return ('type', rng.choice(names))
            if pool and x < 0.08 + again or not left:
                return ('lit', rng.choice(pool or ['a']))
            pool.append(left.pop())
            return ('lit', pool[-1])
        g = gram.grammar(rng, ts, leaf, rng.randint(1, 5), rng.randint(2, 4), rng.randint(2, 4), rng.choice([0.2, 0.4]), eoi_p=0.3)
        if any(gram.nullable(b) for _, b in g.nodes[1:]):
            continue
        g.pool = sorted({y[1] for _, b in g.nodes for y in gram.leaves(b) if y[0] == 'lit'}) or ['a']
        if rng.random() < 0.1:
            g.reserved = [rng.choice(g.pool)] if pool else []
        return g


def make(rng):
    if rng.random() < 0.8:
        g = predictive(rng)
    else:
        g = mach.make_grammar(rng)
        if any(t.ext for t in g.types):
            return None
        for t in g.types:
            t.grp = 0
    s = mach.text_for(rng, g, rng.choice([0.8, 1.0, 1.0]))
    c = mach.case(g, mach.split_sources(rng, s, rng.choice([1, 1, 1, 2, 3])), mach.full_cfg(g), notab=1)
    c['g'] = g.json()
    c['lits'] = lits(g)
    return c


def record(c, r):
    rec = {k: c[k] for k in ('id', 'ins', 'g', 'types', 'lits')}
    runs = r.get('runs') or []
    rec['hang'] = 1 if r.get('why') == 'hang' else 0
    rec['crash'] = 0 if rec['hang'] else r.get('crash', 0)
    rec['ok'] = 1 if r.get('ok') and runs or rec['hang'] else 0
    rec['runs'], rec['taken'] = [], []
    if runs and rec['ok']:
        e = dict(runs[0]['err'])
        e.pop('txt')
        e.pop('msg')
        rec['runs'] = [{'err': e}]
        rec['taken'] = [{'n': x['tok']['n'], 's': x['tok']['s'], 'p': x['tok']['p']} for x in runs[0]['log'] if x['e'] == 'tok']
    return rec


def main(chk):
    rng = chk.rng
    n = 20000 if chk.thorough else 3500
    cases = []
    while len(cases) < n:
        c = make(rng)
        if c:
            cases.append(c)
    for g, c in small.cases(rng, 6 if chk.thorough else 4, 20000 if chk.thorough else 1200, opts=((0, 0),), notab=1):
        if g.name not in ('groups', 'error'):
            cases.append(dict(c, g=g.json(), lits=lits(g)))
    for g, c in big.add(chk, rng, layers=0, hooks=False):
        if not any(t.grp for t in g.types):
            cases.append(dict(c, parses=1, sides=0, full=0, notab=1, g=g.json(), lits=lits(g)))
    for g, c in real.add(chk, rng, layers=0, hooks=False, sides=0, full=0, parses=1, notab=1):
        if not any(t.grp for t in g.types):
            cases.append(dict(c, g=g.json(), lits=lits(g)))
    chk.validate('core', 'PredictTrace', cases, record=record, batch=3500)
    return chk.finish(rule='parses of random mostly predictive descriptions')
