"""Large cases for the parser machine: deep nesting, long inputs, decisions far ahead, many tokens, nodes,
literals, sources, layers, extra tokens.  Small cases cannot tell a fixed bound (a narrow integer, an array of a
fixed size, a recursion limit) from no bound."""
import gram, mach
from gram import Type

L = lambda s: ('lit', s)
N = lambda s: ('node', s)
T = lambda s: ('type', s)
S = lambda *a: ('seq', list(a))
A = lambda *a: ('alt', list(a))
O = lambda x: ('opt', x)
R = lambda x: ('rep', x)


def base(rng, com=False):
    ts = [Type('sp', ('plus', ('set', ' \n')), side=1)]
    if com:
        ts.append(Type('com', ('lit', '#'), side=1))
    return ts + [Type('w', ('plus', ('set', gram.LOWER))), Type('op', ('set', '+-()'))]


def make_gram(ts, nodes, pool):
    g = gram.Gram()
    g.types, g.nodes, g.pool = ts, nodes, pool
    return g


def seps(rng, toks):
    return ''.join(t + rng.choice([' ', ' ', '\n', '  ']) for t in toks)


def deep(rng, k):
    """nesting by brackets or by a prefix, the end missing at times"""
    d = rng.randint(k // 2, k)
    if rng.random() < 0.5:
        g = make_gram(base(rng), [('g', N('e')), ('e', A(L('a'), S(L('('), N('e'), L(')'))))], ['a', '(', ')'])
        return g, '(' * d + 'a' + ')' * (d - rng.choice([0, 0, 0, 1])) + rng.choice(['', '', ')'])
    g = make_gram(base(rng), [('g', N('e')), ('e', A(S(L('-'), N('e'), O(S(L('+'), T('w')))), T('w')))], ['a', '-', '+'])
    return g, seps(rng, ['-'] * d + ['x'] + ['+', 'y'] * rng.randint(0, d))


def long(rng, k):
    g = make_gram(base(rng), [('g', R(A(N('n'), N('m'), L('x')))), ('n', S(L('a'), O(T('w')))), ('m', S(L('+'), R(L('-')), N('k'))), ('k', A(L('a'), L('b')))],
                  ['a', 'b', 'x', '+', '-'])
    toks = []
    while len(toks) < k:
        toks += rng.choice([['a', 'q'], ['a', 'x'], ['x'], ['+', 'a'], ['+', '-', '-', 'b'], ['+'] + ['-'] * 30 + ['a']])
    return g, seps(rng, toks)


def ahead(rng, k):
    """variants told apart after k tokens, by a token, by the end, or not at all"""
    v = rng.randint(2, 5)
    ends = rng.sample(['+', '-', 'z', 'y', ''], v)
    kids = [('n%d' % i, S(R(L('a')), L(e)) if e else S(L('a'), R(L('a')))) for i, e in enumerate(ends)]
    g = make_gram(base(rng, True), [('g', R(A(*[N(n) for n, _ in kids])) if rng.random() < 0.6 else S(A(*[N(n) for n, _ in kids]), O(L('b'))))] + kids,
                  ['a', 'b', '+', '-', 'z', 'y'])
    if '' in ends:
        g.nodes[0] = ('g', S(A(*[N(n) for n, _ in kids]), O(L('b'))))
    out = ''
    for _ in range(rng.choice([1, 1, 2])):
        out += ''.join('a' + rng.choice([' ', ' ', ' # ', '\n']) for _ in range(rng.randint(k // 2, k))) + rng.choice(ends + ['b', '+']) + ' '
    return g, out


def word(i):
    return gram.LOWER[i // 26 % 26] + gram.LOWER[i % 26] + 'w'


def wide(rng, k):
    """many literals, many nodes"""
    ws = [word(i) for i in range(k)]
    if rng.random() < 0.5:
        g = make_gram(base(rng), [('g', R(A(*[L(x) for x in ws])))], ws)
    else:
        n = max(2, k // 2)
        nodes = [('g', R(A(*[N('n%d' % i) for i in range(n)])))] + [('n%d' % i, S(L(ws[i]), O(L(ws[n + i] if n + i < k else ws[0])))) for i in range(n)]
        if rng.random() < 0.5:          # all the nodes start alike
            nodes = nodes[:1] + [(x, S(L('aa'), b)) for x, b in nodes[1:]]
        g = make_gram(base(rng), nodes, ws + ['aa'])
    if rng.random() < 0.3:
        g.reserved = rng.sample(ws, 3)
    toks = (mach.sentence(rng, g, 60) or []) + (mach.sentence(rng, g, 60) or [])
    return g, seps(rng, toks + rng.sample(ws, 3))


def types(rng, k):
    """many token types in many groups"""
    k = min(k, 40)
    ts = [Type('sp', ('plus', ('set', ' \n')), side=1)]
    per = rng.choice([1, 2, 5])
    for i in range(k):
        ts.append(Type('t%d' % i, ('cat', ('set', gram.LOWER[i % 26]), ('set', gram.DIGIT[i % 10]))))
    names = [t.name for t in ts[1:]]
    if rng.random() < 0.6:
        for i, t in enumerate(ts[1:]):
            t.grp = i // per
        ts[0].grp = 0
    g = make_gram(ts, [('g', R(A(N('n'), *[T(x) for x in names[1:]]))), ('n', S(T(names[0]), O(T(names[k // 2]))))], ['a0'])
    return g, ''.join(rng.choice([gram.LOWER[i % 26] + gram.DIGIT[i % 10], gram.LOWER[i % 26] + gram.DIGIT[i % 10] + ' '])
                      for i in [rng.randrange(k) for _ in range(30)])


def chain(rng, k):
    """one token opens and closes many nodes"""
    d = rng.randint(k // 2, k)
    nodes = [('g', R(N('n0')))]
    for i in range(d):
        nxt = N('n%d' % (i + 1))
        nodes.append(('n%d' % i, nxt if rng.random() < 0.8 else S(nxt, O(L('+'))) if rng.random() < 0.5 else S(nxt, R(L('-')))))
    nodes.append(('n%d' % d, A(L('a'), S(L('b'), L('c')))))
    g = make_gram(base(rng), nodes, ['a', 'b', 'c', '+', '-'])
    return g, seps(rng, [x for _ in range(rng.randint(1, 3)) for x in rng.choice([['a'], ['b', 'c'], ['a', '+'], ['a', '-', '-'], ['b']])])


def sides(rng, k):
    """many side tokens between two"""
    g = make_gram(base(rng, True), [('g', R(N('n'))), ('n', A(S(L('a'), O(N('m')), L('b')), L('c'))), ('m', S(L('a'), R(L('a'))))], ['a', 'b', 'c'])
    out = rng.choice(['', '# ' * (k // 2)])
    for t in rng.choice([['a', 'b'], ['a', 'a', 'b'], ['a', 'a', 'a', 'b', 'c'], ['c', 'c'], ['a', 'c'], ['c', 'a']]):
        out += t + '#' + ' #' * rng.choice([0, 3, k // 2]) + rng.choice(['', ' '])
    return g, out


def ring(rng, k):
    """nodes depending on each other in a ring, in any order, and what one starts with starts most of them"""
    d = rng.randint(max(2, k // 3), k)
    names = ['n%d' % i for i in range(d + 1)]
    nodes = []
    for i, n in enumerate(names):
        nxt = N(names[(i + 1) % len(names)])
        other = N(rng.choice(names))
        tail = rng.choice([[], [], [O(L('+'))], [L('-')], [R(L('+'))], [L('b'), other]])
        own = L(word(i)) if rng.random() < 0.7 else L('a')
        if i == d:
            nodes.append((n, A(own, S(L('z'), nxt, *tail))))
        else:
            nodes.append((n, A(own, S(nxt, *tail)) if rng.random() < 0.8 else S(nxt, *tail)))
    rng.shuffle(nodes)
    g = make_gram(base(rng), [('g', R(A(N('n0'), L('c'))))] + nodes, ['a', 'b', 'c', 'z', '+', '-'])
    return g, seps(rng, [x for _ in range(rng.randint(1, 3)) for x in (mach.sentence(rng, g, 60) or [])])


FORMS = [deep, long, ahead, wide, types, chain, sides, ring]


def prog(rng, g):
    """hooks giving many extra tokens, looking far ahead"""
    ws = [x for x in g.pool if len(x) < 4]
    names = [t.name for t in g.types if not t.side and not t.err]
    acts = []
    for _ in range(rng.choice([3, 7, 20])):
        a = {'keep': rng.choice([1, 1, 1, 0]), 'peek': rng.choice([0, 0, 1, 9]), 'x': []}
        if rng.random() < 0.25:
            for _ in range(rng.choice([5, 15, 40])):
                a['x'].append({'n': rng.choice(names), 't': 0, 'b': list(rng.choice(ws).encode()), 'self': rng.choice([0, 0, 0, 1])})
        acts.append(a)
    return acts


def make(rng, k, form=None, layers=None, hooks=None):
    """k: the size; layers: None for any number; hooks: token hooks"""
    f = form or rng.choice(FORMS)
    g, s = f(rng, k)
    n = rng.choice([0, 0, 1, 5, 8]) if layers is None else layers
    g.layers = mach.layers_text(rng, n)
    hooks = rng.random() < 0.3 if hooks is None else hooks
    cfg = mach.full_cfg(g) + [{'toks': [], 'lits': [], 'nodes': [], 'prog': []} for _ in range(n)]
    for h in cfg[1:]:
        if rng.random() < 0.3:
            h['nodes'] = [{'n': '', 'm': 1}]
    if hooks:
        times = 1
        for h in rng.sample(cfg, rng.randint(1, len(cfg))):
            h['toks'] = rng.choice([[''], [rng.choice([t.name for t in g.types])]])
            h['prog'] = prog(rng, g)
            m = 1 + sum(len(x['x']) for x in h['prog']) / len(h['prog'])
            times *= m
            if times > 12:                       # each layer multiplies what the ones before give
                times /= m
                for x in h['prog']:
                    x['x'] = []
    ns = rng.choice([1, 1, 2, 8, 30])
    ins = mach.split_sources(rng, s, ns)
    for _ in range(rng.choice([0, 0, 0, 5])):
        ins.insert(rng.randint(0, len(ins)), [])
    return g, mach.case(g, ins, cfg, sides=rng.choice([0, 1]), full=rng.choice([0, 1]), parses=rng.choice([1, 1, 4]))


def cases(rng, n, k, **kw):
    res = []
    for i in range(n):
        res.append(make(rng, k, form=FORMS[i % len(FORMS)], **kw))
    return res


def add(chk, rng, **kw):
    """what the checks add to their cases"""
    return cases(rng, 28, 130, **kw) + cases(rng, 7, 300, **kw) if not chk.thorough else cases(rng, 210, 150, **kw) + cases(rng, 42, 500, **kw)
