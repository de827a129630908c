"""Cases for the parser machine (spec/Machine.tla): random grammars, texts,
hook layers and hook programs."""
import gram
from gram import LOWER, UPPER, DIGIT, Type


def sample_re(rng, r, n=3):
    k = r[0]
    if k == 'set':
        return rng.choice(r[1])
    if k == 'nset':
        return rng.choice([c for c in 'abcxyz019+- ' if c not in r[1]] or ['q'])
    if k == 'lit':
        return r[1]
    if k == 'eps':
        return ''
    if k == 'as':
        return sample_re(rng, r[2], n)
    if k == 'cat':
        return ''.join(sample_re(rng, x, n) for x in r[1:])
    if k == 'alt':
        return sample_re(rng, rng.choice(r[1:]), n)
    if k in ('opt', 'lopt'):
        return sample_re(rng, r[1], n) if rng.random() < 0.5 else ''
    lo = 1 if k == 'plus' else 0
    return ''.join(sample_re(rng, r[1], n) for _ in range(rng.randint(lo, n)))


def sentence(rng, g, limit=60):
    """texts of the leaves of a random derivation of the root (None if too long)"""
    bodies = dict(g.nodes)
    types = {t.name: t for t in g.types}
    out = []

    def go(x, d):
        if len(out) > limit or d > 40:
            raise OverflowError
        k = x[0]
        if k == 'lit':
            out.append(x[1])
        elif k == 'type':
            t = types[x[1]]
            out.append(sample_re(rng, t.re) if t.re else '\0' + x[1])
        elif k == 'node':
            go(bodies[x[1]], d + 1)
        elif k == 'seq':
            for y in x[1]:
                go(y, d + 1)
        elif k == 'alt':
            go(rng.choice(x[1]) if d < 12 else min(x[1], key=gram.size), d + 1)
        elif k == 'opt':
            if rng.random() < (0.5 if d < 12 else 0.1):
                go(x[1], d + 1)
        elif k == 'rep':
            for _ in range(rng.choice([0, 1, 1, 2, 3]) if d < 12 else 0):
                go(x[1], d + 1)
    for _ in range(5):
        out.clear()
        try:
            go(g.nodes[0][1], 0)
            return [t for t in out if t and t[0] != '\0']
        except OverflowError:
            pass
    return None


def mutate(rng, toks, pool):
    toks = list(toks)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        x = rng.random()
        i = rng.randint(0, len(toks))
        if x < 0.35:
            toks.insert(i, rng.choice(pool))
        elif x < 0.65 and toks:
            del toks[min(i, len(toks) - 1)]
        elif x < 0.85 and toks:
            toks[min(i, len(toks) - 1)] = rng.choice(pool)
        else:
            toks = toks[:i]
    return toks


def glue(rng, toks, sep=0.85, seps=(' ', ' ', '\n', '  ', ' # ')):
    out = []
    for i, t in enumerate(toks):
        if i and rng.random() < sep:
            out.append(rng.choice(seps))
        out.append(t)
    if rng.random() < 0.3:
        out.insert(0, rng.choice(seps))
    if rng.random() < 0.3:
        out.append(rng.choice(seps))
    return ''.join(out)


LITS = ['a', 'b', 'c', 'd', 'ab', 'abc', '+', '-', '(', ')', 'x', 'y']


def profile(rng, sides=True, fancy=True):
    ts = []
    if sides:
        ts.append(Type('sp', ('plus', ('set', ' \n')), side=1))
        if rng.random() < 0.4:
            ts.append(Type('com', ('lit', '#'), side=1))
    if not fancy or rng.random() < 0.4:
        ts.append(Type('w', ('plus', ('set', LOWER))))
        ts.append(Type('op', ('set', '+-()')))
        if rng.random() < 0.5:
            ts.append(Type('num', ('plus', ('set', DIGIT))))
    else:
        if rng.random() < 0.4:
            ts.append(Type('one', ('set', 'abc'), nolit=0, grp=rng.choice([0, 0, 1])))
        ts.append(Type('w', ('plus', ('set', LOWER)), cl=0, grp=rng.choice([0, 0, 0, 1])))
        if rng.random() < 0.3:
            ts.append(Type('up', gram.up_re(rng), cl=1, grp=rng.choice([0, 0, 2])))
        ts.append(Type('op', ('set', '+-()'), grp=rng.choice([0, 0, 0, 2])))
        if rng.random() < 0.5:
            ts.append(Type('num', ('cat', ('opt', ('set', '-')), ('plus', ('set', DIGIT))), grp=rng.choice([0, 0, 1])))
        if rng.random() < 0.15:
            ts.append(Type('raw', ('plus', ('nset', ';\n')), grp=3))
        if rng.random() < 0.3:
            ts.append(Type('err', ('cat', ('lit', '!'), ('star', ('set', LOWER))), err=1))
        rng.shuffle(ts)
        if any(t.name == 'up' for t in ts) and rng.random() < 0.5:
            ts = [t for t in ts if t.name == 'up'] + [t for t in ts if t.name != 'up']
        gs = sorted({t.grp for t in ts if t.grp})
        for t in ts:
            if t.grp:
                t.grp = gs.index(t.grp) + 1
        if rng.random() < 0.3:
            ts.append(Type('ext', ext=1))
    return ts


def make_grammar(rng, nlits=None, n_nodes=None, type_p=None, ts=None, depth=None, node_p=None, eoi_p=0.1, fancy=True):
    ts = ts if ts is not None else profile(rng, fancy=fancy)
    names = [t.name for t in ts if not t.side and not t.err]
    pool = rng.sample(LITS, nlits or rng.choice([1, 2, 3, 4, 5, 6, 8]))
    if 'up' in names and rng.random() < 0.5:
        pool += rng.sample(gram.up_lits(rng, [t for t in ts if t.name == 'up'][0]), 4)
    tp = type_p if type_p is not None else rng.choice([0.0, 0.2, 0.5])

    def leaf():
        if rng.random() < tp:
            return ('type', rng.choice(names))
        return ('lit', rng.choice(pool))
    g = gram.grammar(rng, ts, leaf, n_nodes or rng.randint(1, 4), depth or rng.randint(1, 4), rng.randint(2, 4),
                     node_p if node_p is not None else rng.choice([0.2, 0.5]), eoi_p=eoi_p)
    used = sorted({y[1] for _, b in g.nodes for y in gram.leaves(b) if y[0] == 'lit'})
    g.pool = pool
    if used and rng.random() < 0.15:
        g.reserved = [rng.choice(used)]
    return g


def make_prog(rng, g, simple=False):
    names = [t.name for t in g.types if not t.err]
    tnames = [t.name for t in g.types if not t.err and not t.side]
    acts = []
    for _ in range(rng.randint(1, 5)):
        a = {'keep': 1 if rng.random() < 0.75 else 0, 'peek': rng.choice([0, 0, 0, 1, 2, 4]), 'x': []}
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            y = rng.random()
            if y < 0.25:
                a['x'].append({'n': '', 't': 0, 'b': [], 'self': 1})
            elif y < 0.9 and tnames:
                a['x'].append({'n': rng.choice(tnames if rng.random() < 0.8 else names + ['-eof-', '-eof-', '-eoi-']), 't': 0,
                               'b': list(rng.choice(g.pool + ['zz']).encode('utf8')), 'self': 0})
            elif y > 0.97:
                a['x'].append({'n': '', 't': rng.choice([-4, -1, -7, 99]), 'b': [97], 'self': 0})
        acts.append(a)
    return acts


def make_cfg(rng, g, layers, toks=0.6, nodes=0.7, prog=True):
    """hook configuration: the user's hooks, then the ones of the layers"""
    res = []
    tn = [t.name for t in g.types if not t.err]
    for i in range(layers + 1):
        c = {'toks': [], 'lits': [], 'nodes': [], 'prog': []}
        if rng.random() < toks:
            if rng.random() < 0.5:
                c['toks'].append('')
            c['toks'] += sorted({rng.choice(tn + ['-eof-', '-eoi-']) for _ in range(rng.choice([0, 1, 2]))})
            c['lits'] += sorted({rng.choice(g.pool + ['zz', 'b']) for _ in range(rng.choice([0, 0, 1, 2]))})
            if prog:
                c['prog'] = make_prog(rng, g)
        if rng.random() < nodes:
            if rng.random() < 0.6:
                c['nodes'].append({'n': '', 'm': 1 if rng.random() < 0.9 else 2})
            for n, _ in g.nodes:
                if rng.random() < 0.35:
                    c['nodes'].append({'n': n, 'm': 1 if rng.random() < 0.9 else 2})
        res.append(c)
    return res


def full_cfg(g):
    return [{'toks': [], 'lits': [], 'nodes': [{'n': '', 'm': 1}], 'prog': []}]


def layers_text(rng, n):
    return ' '.join('@lay%d;' % i for i in range(1, n + 1))


def text_for(rng, g, sep=0.85):
    toks = sentence(rng, g, 40) or []
    if rng.random() < 0.5:
        toks = mutate(rng, toks, g.pool + ['zz', '7', 'a'])
    n = sum(gram.size(b) for _, b in g.nodes)
    most = 45 if n <= 2 * len(g.pool) else 25 if n <= 4 * len(g.pool) else 12
    toks = toks[:most]
    has_sp = any(t.name == 'sp' for t in g.types)
    seps = [' ', ' ', '\n', '  '] + ([' # '] if any(t.name == 'com' for t in g.types) else [])
    if any(t.name == 'up' for t in g.types) and rng.random() < 0.7:
        toks = [gram.recase(rng, t) for t in toks]
    s = glue(rng, toks, sep if has_sp else 0, seps)
    if rng.random() < 0.05:
        i = rng.randint(0, len(s))
        s = s[:i] + rng.choice(['!', '!ab', '?', '"', 'é']) + s[i:]
    return s


def split_sources(rng, s, n):
    b = list(s.encode('utf8'))
    cuts = sorted(rng.randint(0, len(b)) for _ in range(n - 1))
    res, prev = [], 0
    for c in cuts + [len(b)]:
        res.append(b[prev:c])
        prev = c
    return res


def case(g, ins, cfg, sides=0, full=0, parses=1, failAt=0, stopAt=0, seek=0, exps=1, **kw):
    c = {'k': 'parse', 'src': g.text(), 'ins': ins, 'hooks': cfg, 'sides': sides, 'full': full, 'parses': parses,
         'failAt': failAt, 'stopAt': stopAt, 'seek': seek, 'exps': exps, 'types': [g.type_json(t) for t in g.types]}
    c.update(kw)
    return c


def record(c, r):
    rec = {k: c[k] for k in ('id', 'ins', 'parses', 'sides', 'full', 'failAt', 'stopAt', 'seek', 'types', 'exps')}
    rec['names'] = c.get('names') or ['s%d' % (i + 1) for i in range(len(c['ins']))]
    rec['crash'] = r.get('crash', 0)
    rec['hang'] = 1 if r.get('hang_tab') else 0
    rec['ok'] = r.get('ok', 0)
    rec['tab'] = r.get('tab') or r.get('hang_tab') or {'tokens': [], 'nodes': [], 'states': [], 'layers': []}
    rec['runs'] = r.get('runs') or []
    rec['cfg'] = [dict({'kind': 'prog'}, **dict(h, lits=[{'n': x, 'b': list(x.encode('utf8'))} for x in h['lits']])) for h in c['hooks']]
    return rec


def general(rng, layers=None, **kw):
    g = make_grammar(rng)
    n = rng.choice([0, 0, 1, 2]) if layers is None else layers
    g.layers = layers_text(rng, n)
    s = text_for(rng, g, rng.choice([0.6, 0.9, 1.0]))
    ns = rng.choice([1, 1, 1, 2, 3])
    opts = dict(sides=rng.choice([0, 1]), full=rng.choice([0, 1]), parses=rng.choice([1, 1, 3]))
    opts.update(kw)
    return case(g, split_sources(rng, s, ns), make_cfg(rng, g, n), **opts)


def amend(chk, cases, results):
    """A parse that hangs: the machine, which needs the tables, tells if it had to end."""
    for c, r in zip(cases, results):
        if r.get('why') == 'hang':
            l = chk.run('core', [{'k': 'lang', 'src': c['src']}])[0]
            if l.get('ok'):
                r['hang_tab'] = l['tab']


def odd_names(rng, c):
    """sources may share their names (a name is a label, not an identity)"""
    if 'names' not in c and rng.random() < 0.2:
        c['names'] = [rng.choice(['s1', 's1', 's1', 'a b', '', 'x.txt']) for _ in c['ins']]


def validate(chk, cases, module='MachineTrace', **kw):
    for c in cases:
        odd_names(chk.rng, c)
    kw.setdefault('batch', 1500)
    kw.setdefault('timeout', 2)
    return chk.validate('core', module, cases, record=record, amend=amend, **kw)
