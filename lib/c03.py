"""C03: ambiguity (spec/Machine.tla): grammars whose variants start alike."""
import gram, mach, small, big, real
from gram import LOWER, Type

record = mach.record


def types(rng):
    ts = [Type('sp', ('plus', ('set', ' \n')), side=1)] if rng.random() < 0.7 else []
    if ts and rng.random() < 0.3:
        ts.append(Type('com', ('lit', '#'), side=1))
    x = rng.random()
    if x < 0.5:
        ts += [Type('w', ('plus', ('set', LOWER))), Type('op', ('set', '+-()'))]
    elif x < 0.8:
        ts += [Type('c', ('set', LOWER)), Type('op', ('set', '+-()'))]
    else:                                    # the same text as different types in different contexts
        ts += [Type('c', ('set', 'abc'), grp=0), Type('w', ('plus', ('set', LOWER)), grp=1), Type('op', ('set', '+-()'), grp=rng.choice([0, 1]))]
    if rng.random() < 0.15:
        ts.append(Type('ext', ext=1))
    return ts


def shared(rng, deep=0):
    """variants with a common start, told apart (or not) later"""
    ts = types(rng)
    ws = ['a', 'b', 'c'][:rng.choice([1, 2, 2, 3])]
    names = ['g'] + ['n%d' % i for i in range(1, rng.choice([2, 3, 4, 5]))]
    tn = [t.name for t in ts if not t.side and not t.ext]

    def leaf():
        return ('type', rng.choice(tn)) if rng.random() < 0.12 else ('lit', rng.choice(ws))

    def prefix(later):
        x = rng.random()
        if x < 0.35:
            return [('rep', leaf())]
        if x < 0.6:
            return [leaf() for _ in range(rng.randint(1, 3))]
        if x < 0.8 and later:
            return [('node', rng.choice(later))]
        if x < 0.9:
            return [leaf(), ('opt', leaf())]
        return [('rep', ('alt', [leaf(), leaf()]))]
    nodes = []
    for i, n in enumerate(names):
        later = names[i + 1:]
        for _ in range(100):
            p = prefix(later)
            alts = []
            for _ in range(rng.choice([2, 2, 3])):
                q = p if rng.random() < 0.7 else prefix(later)
                tail = []
                for _ in range(rng.choice([0, 1, 1, 2])):
                    y = rng.random()
                    if y < 0.3:
                        tail.append(('node', rng.choice(names[1:])))
                    elif y < 0.45:
                        tail.append(('opt', leaf()))
                    elif y < 0.6:
                        tail.append(('rep', leaf()))
                    else:
                        tail.append(('lit', rng.choice(ws + ['+', '-', '(', ')'])))
                alts.append(('seq', q + tail) if len(q + tail) > 1 else (q + tail)[0])
            body = ('alt', alts)
            z = rng.random()
            if z < 0.3:
                body = ('rep', body)
            elif z < 0.5:
                body = ('seq', [body, ('opt', leaf())])
            elif z < 0.6:
                body = ('seq', [('opt', body), leaf()])
            if i and gram.nullable(body):
                continue
            # recursion only behind a token
            first_ok = all(y in later for y in firsts(body))
            if first_ok and not gram.known_pattern(body):
                nodes.append((n, body))
                break
        else:
            return None
    g = gram.Gram()
    g.types = ts
    bodies = dict(nodes)
    todo, seen = ['g'], []
    while todo:
        n = todo.pop(0)
        if n not in seen:
            seen.append(n)
            todo += [y[1] for y in gram.leaves(bodies[n]) if y[0] == 'node']
    g.nodes = [(n, b) for n, b in nodes if n in seen]
    g.pool = ws + ['+', '-']
    return g


def firsts(x):
    k = x[0]
    if k == 'node':
        return {x[1]}
    if k == 'alt':
        return set().union(*[firsts(y) for y in x[1]])
    if k in ('opt', 'rep'):
        return firsts(x[1])
    if k == 'seq':
        r = set()
        for y in x[1]:
            r |= firsts(y)
            if not gram.nullable(y):
                break
        return r
    return set()


def far(rng):
    """variants told apart after many tokens, also across sources"""
    g = gram.Gram()
    g.types = [Type('sp', ('plus', ('set', ' \n')), side=1), Type('c', ('set', LOWER)), Type('op', ('set', '+-()'))]
    a, b = ('lit', 'a'), ('lit', 'b')
    n1, n2 = [(('seq', [('rep', a), ('lit', x)])) for x in ('+', '-')]
    shape = rng.randint(0, 4)
    if shape == 0:
        g.nodes = [('g', ('rep', ('alt', [('node', 'n1'), ('node', 'n2')]))), ('n1', ('seq', [a, n1])), ('n2', ('seq', [a, n2]))]
    elif shape == 1:
        g.nodes = [('g', ('seq', [('alt', [n1, n2]), ('opt', b)]))]
    elif shape == 2:
        g.nodes = [('g', ('rep', ('alt', [('node', 'n1'), ('node', 'n2'), a]))), ('n1', ('seq', [a, ('rep', ('alt', [a, b])), ('lit', '+')])),
                   ('n2', ('seq', [a, ('rep', ('alt', [b, a])), ('lit', '-')]))]
    elif shape == 3:
        g.nodes = [('g', ('alt', [('seq', [('node', 'n1'), ('lit', '+')]), ('seq', [('node', 'n2'), ('lit', '-')])])),
                   ('n1', ('seq', [a, ('opt', ('node', 'n1'))])), ('n2', ('seq', [a, ('opt', ('node', 'n2'))]))]
    else:
        g.nodes = [('g', ('rep', ('alt', [('node', 'n1'), ('node', 'n2')]))), ('n1', ('seq', [('lit', '('), ('rep', ('alt', [('node', 'n1'), ('node', 'n2'), a])), ('lit', ')'), ('lit', '+')])),
                   ('n2', ('seq', [('lit', '('), ('rep', ('alt', [('node', 'n2'), ('node', 'n1'), a])), ('lit', ')'), ('lit', '-')]))]
    g.pool = ['a', 'b', '+', '-']
    if shape == 4:
        def grp(d):
            return '(' + ''.join(rng.choice(['a', grp(d - 1) if d else 'a']) for _ in range(rng.randint(0, 2))) + ')' + rng.choice('+-')
        s = ' '.join(grp(2) for _ in range(rng.randint(1, 2)))
    else:
        s = ' '.join('a' + ' '.join(rng.choice(['a', 'a', 'b'] if shape == 2 else ['a']) for _ in range(rng.choice([0, 1, 2, 5, 9, 17, 33, 70]) if shape != 3 else rng.randint(0, 25))) + rng.choice(['+', '-', ' -', ' +', ''])
                     for _ in range(rng.randint(1, 3)))
    return g, s


def make(rng):
    if rng.random() < 0.08:
        g, s = far(rng)
        ins = mach.split_sources(rng, s, rng.choice([1, 1, 2, 4]))
        return mach.case(g, ins, mach.full_cfg(g), sides=rng.choice([0, 1]), full=rng.choice([0, 1]), parses=rng.choice([1, 3]))
    g = shared(rng) if rng.random() < 0.75 else mach.make_grammar(rng, nlits=rng.choice([1, 2, 2, 3]), fancy=rng.random() < 0.3)
    if g is None:
        return make(rng)
    n = rng.choice([0, 0, 0, 1])
    g.layers = mach.layers_text(rng, n)
    toks = (mach.sentence(rng, g, 40) or [])[:16]
    if rng.random() < 0.4:
        toks = mach.mutate(rng, toks, g.pool)
    has = any(t.name == 'sp' for t in g.types)
    seps = [' ', ' ', '\n', '  '] + ([' # '] if any(t.name == 'com' for t in g.types) else [])
    s = mach.glue(rng, toks, rng.choice([0.5, 1.0]) if has else 0, seps if has else [''])
    cfg = mach.full_cfg(g) + mach.make_cfg(rng, g, n)[1:] if rng.random() < 0.6 else mach.make_cfg(rng, g, n, toks=0.3)
    return mach.case(g, mach.split_sources(rng, s, rng.choice([1, 1, 1, 2, 3])), cfg, sides=rng.choice([0, 1]), full=rng.choice([0, 0, 1]),
                     parses=rng.choice([1, 1, 3]))


def main(chk):
    rng = chk.rng
    n = 14000 if chk.thorough else 1600
    stats = {'ambiguous': 0}
    cases = [make(rng) for _ in range(n)] + [c for _, c in small.cases(rng, 6 if chk.thorough else 5, 12000 if chk.thorough else 500)]

    cases += [c for _, c in big.add(chk, rng, hooks=False)]
    cases += [c for _, c in real.add(chk, rng, hooks=False)]

    def rec(c, r):
        x = mach.record(c, r)
        if any(s['multi'] for s in x['tab']['states']):
            stats['ambiguous'] += 1
        return x
    chk.validate('core', 'MachineTrace', cases, record=rec, amend=mach.amend, batch=1500, timeout=2)
    chk.extra['cases_with_conflicting_rules'] = stats['ambiguous']
    return chk.finish(rule='parses of descriptions whose variants start alike')
