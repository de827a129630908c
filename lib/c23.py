"""C23: what a grammar names is what a parser offers (spec/Setup.tla)."""
import gram, mach, langtext
from gram import quote

STD = ['convert', 'indent', 'restrict']
ODD = ['', '-eof-', '-eoi-', '-any-', '-error-', '-EOF-', 'nope', ' ', 'g ', '$w', '!', 'é']
ARGS = ['a', 'b-c', 'x y', '', "it's", 'q"q', 'é', '\t', '\\', 'w', '$w', ')', ',', '-eof-', '日本', 'a,b', 'a b', 'c']


def hooks(rng, g, wrong):
    tn = [t.name for t in g.types if not t.err]
    h = {'toks': [], 'lits': [], 'nodes': []}
    if rng.random() < 0.6:
        h['toks'] = rng.sample(tn + ['', '', '-eof-', '-eoi-'], rng.randint(1, 3))
    if rng.random() < 0.3:
        h['lits'] = rng.sample(g.pool + ['zz', 'q', '+', ''], rng.randint(1, 3))
    if rng.random() < 0.6:
        h['nodes'] = rng.sample([n for n, _ in g.nodes] + ['', ''], rng.randint(1, min(3, len(g.nodes) + 1)))
    if rng.random() < wrong:
        h[rng.choice(['toks', 'nodes'])].append(rng.choice(ODD[3:] + [n for n, _ in g.nodes] + g.pool + tn + [t.name for t in g.types if t.err]))
    return {k: sorted(set(v)) for k, v in h.items()}


class Names:
    n = 0


def make(rng):
    g = mach.make_grammar(rng)
    if rng.random() < 0.25:
        g.types.append(gram.Type('bad', ('lit', '!'), err=1))
    if rng.random() < 0.15 and not any(t.name == 'x9' for t in g.types):
        g.types.append(gram.Type('x9', ext=1))
    wrong = rng.choice([0, 0, 0.1, 0.4])
    ids = iter(range(1, 99))

    def tpl(name, fail=0.0):
        return {'n': name, 'id': next(ids), 'fail': 1 if rng.random() < fail else 0, 'hooks': hooks(rng, g, wrong / 3),
                'ask': rng.choice(ODD + [t.name for t in g.types] + g.pool)}
    Names.n += 1
    own = ['r%d%s' % (Names.n, c) for c in 'abcd']
    fail = rng.choice([0, 0, 0, 0.3])
    regs = [tpl(rng.choice(own[:3] + (STD if rng.random() < 0.1 else [])), fail) for _ in range(rng.choice([0, 1, 2, 3]))]
    opt = rng.random() < 0.7
    names = rng.sample(own + STD, rng.randint(0, 4)) if opt else []
    opts = [tpl(n, fail) for n in names]
    known = {r['n'] for r in regs} | set(names)
    pool = sorted(known - set(STD)) + [n for n in STD if n in names]
    if rng.random() < 0.1:
        pool.append(own[3])
    layers = []
    for _ in range(rng.choice([0, 1, 2, 3]) if pool else 0):
        cmds = [{'c': rng.choice(['c', 'do-it', 'x_1', 'node', 'Convert']), 'a': [rng.choice(ARGS) for _ in range(rng.choice([0, 1, 1, 2, 5]))]}
                for _ in range(rng.choice([0, 1, 2, 3]))]
        layers.append({'n': rng.choice(pool), 'cmds': cmds})
    g.layers = '\n'.join('@%s %s;' % (l['n'], ' '.join('%s(%s)' % (c['c'], ', '.join(quote(a) for a in c['a'])) for c in l['cmds'])) for l in layers)
    ask = ODD + [t.name for t in g.types] + [n for n, _ in g.nodes] + g.pool + own[:1]
    mk = [{'n': rng.choice(ask), 'b': list(rng.choice(['', 'a', 'zz', 'é', '\n', '\xff\x00']).encode('latin1' if rng.random() < 0.3 else 'utf8'))} for _ in range(6)]
    s = mach.text_for(rng, g, rng.choice([0.7, 1.0, 1.0]))
    return {'k': 'setup', 'src': g.text(), 'regs': regs, 'opts': opts, 'opt': 1 if opt else 0, 'ask': sorted(set(ask)), 'make': mk,
            'user': hooks(rng, g, wrong), 'text': s, 'name': rng.choice(['s', '', 'a b.txt', 'é']), 'sides': rng.choice([0, 1]), 'full': rng.choice([0, 1]),
            'runs': 1 if rng.random() < 0.8 else 2, 'layers': layers, 'nodes': [n for n, _ in g.nodes]}


def record(c, r):
    rec = {'id': c['id'], 'regs': c['regs'], 'opts': c['opts'], 'user': c['user'], 'std': STD, 'crash': r.get('crash', 0) if r.get('why') != 'hang' else 0,
           'codes': r.get('regs') or [], 'ok': r.get('ok', 0), 'made': r.get('made', 0), 'nil': r.get('nil', 0), 'same': r.get('same', 0),
           'err': r.get('err') or {'code': 0}, 'g': {'toks': r.get('toks') or [], 'nodes': c['nodes'], 'layers': c['layers']}}
    rec['setups'] = [dict(s, ask=a) for s, a in zip(r.get('setups') or [], asks(c, r))]
    for k in ('types', 'valid', 'make', 'runs'):
        rec[k] = r.get(k) or []
    if rec['crash'] == 0 and 'regs' not in r:
        rec.update(codes=[0] * len(c['regs']), regs=[], ok=0)     # a hang: other properties
    return rec


def asks(c, r):
    t = {x['id']: x['ask'] for x in c['regs'] + c['opts']}
    return [t.get(s['id'], '') for s in r.get('setups') or []]


def main(chk):
    n = 20000 if chk.thorough else 2500
    cases = [make(chk.rng) for _ in range(n)]
    chk.validate('core', 'SetupTrace', cases, record=record, timeout=2, batch=5000)
    return chk.finish(rule='random descriptions with layers, templates given and registered, hook keys, questions about types')
