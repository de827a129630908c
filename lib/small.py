"""A fixed set of small grammars and all texts up to a length over their alphabets: the closed model
MCMachine is explored over them, and the real parser is driven through the same texts."""
import itertools, json, os
import gram, mach, harness
from gram import Type, lit

L = lambda s: ('lit', s)
N = lambda s: ('node', s)
T = lambda s: ('type', s)
S = lambda *a: ('seq', list(a))
A = lambda *a: ('alt', list(a))
O = lambda x: ('opt', x)
R = lambda x: ('rep', x)
EOI = ('eoi',)


def sp():
    return Type('sp', ('plus', ('set', ' ')), side=1)


def w():
    return Type('w', ('set', gram.LOWER))


def op():
    return Type('op', ('set', '+-()'))


FILE = os.path.join(harness.SPEC, 'small.ndjson')
LAYERS = os.path.join(harness.SPEC, 'layers.ndjson')


def grammars():
    """(name, types, nodes, alphabet, reserved)"""
    base = lambda: [sp(), w(), op()]
    return [
        ('option', base(), [('g', S(L('a'), O(L('b')), L('c')))], ['a', 'b', 'c', ' '], []),
        ('repeat', base(), [('g', S(R(A(L('a'), S(L('b'), L('a')))), L('c')))], ['a', 'b', 'c', ' '], []),
        ('nested', base(), [('g', S(N('e'), R(S(L('+'), N('e'))))), ('e', A(L('a'), S(L('('), N('e'), L(')'))))], ['a', '+', '(', ')'], []),
        ('twins', base(), [('g', R(A(N('n'), N('m')))), ('n', S(L('a'), L('b'))), ('m', S(L('a'), L('c')))], ['a', 'b', 'c', ' '], []),
        ('prefix', base(), [('g', A(N('n'), N('m'), N('k'))), ('n', S(R(L('a')), L('b'))), ('m', S(R(L('a')), L('c'))), ('k', S(L('a'), O(L('a'))))], ['a', 'b', 'c', ' '], []),
        ('dangling', base(), [('g', N('s')), ('s', A(S(L('i'), N('s'), O(S(L('e'), N('s')))), L('x')))], ['i', 'e', 'x', ' '], []),
        ('groups', [sp(), Type('c', ('set', 'ab'), grp=0), op(), Type('w', ('plus', ('set', gram.LOWER)), grp=1)],
         [('g', R(A(T('c'), S(L('+'), T('w')), N('n')))), ('n', S(L('-'), A(T('w'), T('c'))))], ['a', 'c', '+', '-'], []),
        ('caseless', [sp(), Type('w', ('plus', ('set', gram.LOWER + gram.UPPER)), cl=1)], [('g', S(L('A'), R(T('w')), O(L('AB'))))], ['a', 'B', ' ', 'A'], ['A']),
        ('eoi', base(), [('g', S(N('n'), A(L('c'), EOI))), ('n', S(L('a'), O(L('b'))))], ['a', 'b', 'c', ' '], []),
        ('empty', base(), [('g', O(S(L('a'), O(N('n'))))), ('n', S(L('b'), R(L('a'))))], ['a', 'b', ' ', '+'], []),
        ('error', [sp(), w(), Type('bad', ('cat', lit('!'), ('opt', lit('a'))), err=1)], [('g', R(A(L('a'), N('n')))), ('n', S(L('b'), L('b')))], ['a', 'b', '!', ' '], []),
        ('right', base(), [('g', N('n')), ('n', S(L('a'), O(N('n')), O(L('b'))))], ['a', 'b', ' ', 'c'], []),
        ('kinds', base(), [('g', R(A(N('n'), N('m')))), ('n', S(T('w'), L('a'))), ('m', S(L('b'), T('w')))], ['a', 'b', 'c', ' '], []),
        ('comments', [sp(), Type('com', ('cat', lit('#'), ('star', ('set', 'ab'))), side=1), w()], [('g', R(N('n'))), ('n', S(O(L('a')), L('b'), O(L('c'))))], ['a', 'b', '#', ' '], []),
        ('tails', base(), [('g', R(A(N('n'), L('c')))), ('n', S(L('a'), O(A(S(L('b'), O(L('a'))), S(L('b'), O(L('c')))))))], ['a', 'b', 'c', ' '], []),
        ('deep', base(), [('g', R(A(N('p'), N('q')))), ('p', N('r')), ('r', S(L('a'), R(N('t')), L('b'))), ('q', S(N('t'), L('c'))), ('t', A(L('a'), L('c')))], ['a', 'b', 'c', ' '], []),
    ]


def make():
    res = []
    for name, ts, nodes, alpha, rsv in grammars():
        g = gram.Gram()
        g.types, g.nodes, g.reserved = ts, nodes, rsv
        g.name, g.alpha = name, [list(x.encode()) for x in alpha]
        res.append(g)
    return res


def texts(g, n):
    for k in range(n + 1):
        for t in itertools.product(g.alpha, repeat=k):
            yield [b for x in t for b in x]


def cases(rng, n, most, opts=((0, 0), (1, 0), (0, 1), (1, 1)), two=0.2, **kw):
    """all texts up to length n (a random part, if there are more than most), the options and splitting into sources at random"""
    res = []
    for g in make():
        for t in texts(g, n):
            sides, full = opts[0] if len(opts) == 1 else rng.choice(opts)
            ins = [t]
            if rng.random() < two:
                k = rng.randint(0, len(t))
                ins = [t[:k], t[k:]]
            res.append((g, ins, sides, full))
    if len(res) > most:
        res = rng.sample(res, most)
    return [(g, mach.case(g, ins, mach.full_cfg(g), sides=s, full=f, **kw)) for g, ins, s, f in res]


def fixtures(chk):
    """records for MCMachine: the grammars with their tables, as the parser of today compiles them"""
    from c01 import lits
    gs = make()
    cs = [dict(mach.case(g, [[]], mach.full_cfg(g), notab=0), id=i + 1) for i, g in enumerate(gs)]
    out = []
    for g, c, r in zip(gs, cs, chk.run('core', cs, 20)):
        rec = mach.record(c, r)
        assert rec['ok'] == 1, (g.name, r)
        out.append({'id': c['id'], 'name': g.name, 'tab': rec['tab'], 'types': rec['types'], 'cfg': rec['cfg'], 'g': g.json(), 'lits': lits(g), 'alpha': g.alpha})
    return out


# ---- hook layers ------------------------------------------------------------------
def act(keep=1, peek=0, *xs):
    return {'keep': keep, 'peek': peek, 'x': [{'n': '', 't': 0, 'b': [], 'self': 1} if x is None else {'n': x[0], 't': 0, 'b': list(x[1].encode()), 'self': 0} for x in xs]}


def prog(toks, *acts):
    return dict(kind='prog', toks=toks, lits=[], nodes=[], prog=list(acts))


def conv(pairs, i='', o='', save=0):
    cmds = ['convert(%s)' % ', '.join("'%s'" % x for p in pairs for x in p)]
    cmds += ['input-type(%s)' % i] if i else []
    cmds += ['output-type(%s)' % o] if o else []
    cmds += ['save-position()'] if save else []
    c = dict(kind='convert', toks=[], lits=[], nodes=[], prog=[], save=save, map=[{'f': list(f.encode()), 't': list(t.encode())} for f, t in pairs])
    c['in'], c['out'] = i, o
    return '@convert %s;' % ' '.join(cmds), c


def layered():
    """(kind, name, types, nodes, alphabet, length, user's hooks, layers: programs or (text, configuration))"""
    import layers
    base = lambda: [sp(), w(), op(), Type('x', ext=1)]
    user = lambda **kw: dict(prog(['', '-eof-', '-eoi-']), nodes=[{'n': '', 'm': 1}], **kw)
    ab = ['a', 'b', '+', ' ']
    ob = ['a', '+', ' ', '!']
    res = []
    stream = lambda name, *ls, alpha=ab, us=None, n=3: res.append(('stream', name, base(), [('g', layers.take_all(base()))], alpha, n, us or user(), list(ls)))
    W, O = ('w', 'n'), ('op', '(')
    stream('keep', prog(['w'], act()))
    stream('drop', prog(['w'], act(0), act(1)))
    stream('twice', prog(['w', 'sp'], act(1, 0, None), act(0, 0, None, W)), alpha=ob)
    stream('before', prog(['w'], act(0, 0, O, None), act(0, 0, W, O)))
    stream('chain', prog(['w'], act(1, 0, O)), prog(['op', 'w'], act(0, 1, W), act(1)))
    stream('three', prog(['op'], act(0, 0, W)), prog(['w'], act(1, 2, W), act(0)), prog(['', '-eof-'], act(1, 0, O), act(1)))
    stream('ends', prog(['-eof-', '-eoi-'], act(0, 0, W), act(1, 0, O), act(0)), alpha=ob)
    stream('marks', prog(['w'], act(1), act(1, 0, ('-eof-', '')), act(0, 0, ('-eoi-', ''))), n=4)
    stream('space', prog(['w'], act(0, 0, ('sp', ' '), None)), prog(['sp'], act(0), act(1, 1, O)))
    stream('any', prog([''], act(1, 1), act(0, 2, O)), prog(['w', ''], act(1, 0, ('x', 'q'))), alpha=ob)
    stream('peek', us=dict(user(), prog=[act(1, 1), act(1, 2), act(1, 4)]), alpha=ob, n=4)
    stream('peeks', prog(['w'], act(1, 2, O), act(0, 1)), us=dict(user(), prog=[act(1, 3), act(1, 1)]), alpha=ob)
    stream('convert', conv([('a', 'b'), ('+', '-')]))
    stream('input', conv([('a', 'b'), ('+', '-')], 'w', '', 1), alpha=ob)
    stream('output', conv([('a', 'z'), (' ', '+')], '', 'op'))
    stream('both', conv([('a', '+'), ('b', '')], 'w', 'op', 1))
    stream('hidden', conv([('a', ' ')], 'w', 'sp', 1), prog(['sp'], act(1, 0, W), act(0)))
    stream('cascade', conv([('a', 'b'), ('b', 'c')]), conv([('b', 'd'), ('c', 'a')], '', 'x', 1))
    stream('emitted', prog(['op'], act(0, 0, ('w', 'a')), act(1, 0, ('w', 'b'))), conv([('a', '+'), ('b', '-')], 'w', 'op'))
    ind = lambda name, ts, space, alpha, n=5: res.append(('indent', name, ts, [('g', layers.take_all(ts))], alpha, n, user(),
        [('@indent space(%s) on-indent(in) on-dedent(de);' % ', '.join(space), layers.indent_cfg(space))]))
    ext = lambda: [Type('in', ext=1), Type('de', ext=1)]
    com = lambda: Type('com', ('cat', lit('#'), ('star', ('set', 'ab'))), side=1)
    nl = ('set', chr(10))
    ind('one', [Type('sp', ('plus', ('set', ' ' + chr(10))), side=1), w()] + ext(), ['sp'], ['a', ' ', chr(10)], 6)
    ind('tabs', [Type('sp', ('plus', ('set', ' ' + chr(9) + chr(10))), side=1), w()] + ext(), ['sp'], ['a' + chr(10), ' ', chr(9), chr(9) + ' '])
    ind('single', [Type('sp', ('set', ' ' + chr(10)), side=1), w(), com()] + ext(), ['sp'], ['a', ' ', '#', chr(10)])
    ind('two', [sp(), Type('nl', nl, side=1), w()] + ext(), ['sp', 'nl'], ['a', ' ', chr(10)], 6)
    ind('common', [sp(), Type('nl', nl), w(), com()] + ext(), ['nl', 'sp'], ['a', ' ', '#', chr(10)])
    ind('lines', [Type('nl', ('cat', nl, ('star', ('set', ' '))), side=1), w(), com()] + ext(), ['nl'], ['a', ' ', '#', chr(10)])
    ind('part', [Type('nl', ('cat', nl, ('star', ('set', ' '))), side=1), sp(), w()] + ext(), ['nl'], ['a', ' ', chr(10)], 6)
    ind('wrong', [Type('sp', ('plus', ('set', ' ' + chr(10))), side=1), w(), com()] + ext(), ['sp'], ['a', ' ', '!', chr(10)])
    node = lambda c, *kids: S(L(c), R(A(*([('node', k) for k in kids] + [L('+')]))), ('opt', L(')')))
    kids = ['n', 'm', 'k']
    nodes = [('g', R(A(*[('node', k) for k in kids])))] + [(k, node(c, *kids)) for k, c in zip(kids, 'abc')]
    def restrict(name, ns, forbid, allow=()):
        cmds = ['node(%s)' % ', '.join(ns), 'forbid-in(%s)' % ', '.join(forbid)] + (['allow-in(%s)' % ', '.join(allow)] if allow else [])
        res.append(('restrict', name, [sp(), w(), op()], nodes, ['a', 'b', 'c', ')'], 5, dict(prog([]), nodes=[{'n': '', 'm': 1}]),
                    [('@restrict %s;' % ' '.join(cmds), dict(layers.PLAIN, kind='restrict', node=list(ns), allow=list(allow), forbid=list(forbid)))]))
    restrict('self', ['n'], ['n'])
    restrict('other', ['n', 'm'], ['k'])
    restrict('back', ['n'], ['m'], ['k'])
    restrict('all', ['n', 'm', 'k'], ['m'], ['n'])
    restrict('root', ['m'], ['g'], ['n', 'k'])
    return res


def layer_cases():
    """the fixtures of the closed model of hook layers: (name, grammar, configuration, kind, length of texts)"""
    out = []
    for kind, name, ts, nodes, alpha, n, user, ls in layered():
        g = gram.Gram()
        g.types, g.nodes, g.reserved = ts, nodes, []
        g.name, g.alpha, g.kind, g.most = name, [list(x.encode()) for x in alpha], kind, n
        g.layers = ' '.join('@lay%d;' % (i + 1) if isinstance(x, dict) else x[0] for i, x in enumerate(ls))
        g.cfg = [user] + [x if isinstance(x, dict) else x[1] for x in ls]
        out.append(g)
    return out


def layer_texts(rng, kinds, n, most, two=0.3, only='', **kw):
    res = []
    for g in layer_cases():
        if g.kind in kinds and only in g.layers:
            for t in texts(g, n):
                k = rng.randint(0, len(t)) if rng.random() < two else -1
                res.append((g, [t] if k < 0 else [t[:k], t[k:]]))
    if len(res) > most:
        res = rng.sample(res, most)
    return [mach.case(g, ins, g.cfg, sides=rng.choice([0, 1]), full=rng.choice([0, 1]), **kw) for g, ins in res]


def layer_fixtures(chk):
    gs = layer_cases()
    cs = [dict(mach.case(g, [[]], g.cfg), id=i + 1) for i, g in enumerate(gs)]
    out = []
    for g, c, r in zip(gs, cs, chk.run('core', cs, 20)):
        rec = mach.record(c, r)
        assert rec['ok'] == 1, (g.name, r)
        out.append({'id': c['id'], 'name': g.name, 'kind': g.kind, 'most': g.most, 'tab': rec['tab'], 'types': rec['types'], 'cfg': rec['cfg'], 'alpha': g.alpha})
    return out


if __name__ == '__main__':
    chk = harness.Check('small')
    for name, rs in ((FILE, fixtures(chk)), (LAYERS, layer_fixtures(chk))):
        with open(name, 'w') as f:
            for r in rs:
                f.write(json.dumps(r, separators=(',', ':')) + '\n')
