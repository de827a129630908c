"""C05: lexing, by the parser (spec/Machine.tla) and by package lexer alone (spec/LexerApi.tla)."""
import gram, mach
from gram import LOWER, UPPER, DIGIT, Type

record = mach.record


def rand_re(rng, d=2, uni=False):
    """a random pattern that matches no empty text at the top"""
    if rng.random() < 0.07:
        return gram.shorthand(rng)
    x = rng.random()
    if d <= 0 or x < 0.3:
        y = rng.random()
        if y < 0.5:
            return ('set', rng.choice(['a', 'b', 'c', 'ab', 'abc', LOWER, DIGIT, '+-', '(', ')', '"', '\n', 'x', '-']))
        if y < 0.6:
            return ('nset', rng.choice([' \n', '"\n', 'ab', ';', '\n']))
        if y < 0.7 and uni:
            return ('lit', rng.choice(['é', '日', '->', 'añb']))
        return ('lit', rng.choice(['ab', 'abc', '->', '--', 'if', 'a', '""', '/*', '*/']))
    if x < 0.55:
        return ('cat', rand_re(rng, d - 1, uni), rng.choice([lambda: rand_re(rng, d - 1, uni), lambda: rep(rng, d - 1, uni)])())
    if x < 0.75:
        return ('alt', rand_re(rng, d - 1, uni), rand_re(rng, d - 1, uni))
    if x < 0.9:
        return ('plus', rand_re(rng, d - 1, uni))
    return ('cat', rep(rng, d - 1, uni), rand_re(rng, d - 1, uni))


def rep(rng, d, uni):
    return (rng.choice(['star', 'opt', 'lstar', 'lopt', 'star']), rand_re(rng, min(d, 1), uni))


TEXTS = ['a', 'b', 'c', 'ab', 'abc', 'abca', '+', '-', '->', '--', '(', ')', '"', '"a"', '"a', ' ', ' ', '\n', '12', '1', 'x', 'if', 'é', '日', '/*', '*/', ';', '!']


def text(rng, n):
    return ''.join(rng.choice(TEXTS) for _ in range(rng.randint(0, n)))


def profile(rng):
    """overlapping token types, groups, error types"""
    ts = []
    n = rng.randint(2, 6)
    for i in range(n):
        ts.append(Type('t%d' % i, rand_re(rng, rng.choice([0, 1, 1, 2]), True), grp=rng.choice([0, 0, 0, 1, 1, 2]), cl=rng.choice([0, 0, 0, 1]), nolit=0))
    if rng.random() < 0.8:
        ts.insert(rng.randint(0, len(ts)), Type('sp', ('plus', ('set', ' \n')), side=1, grp=rng.choice([0, 0, 0, 1])))
    if rng.random() < 0.4:
        ts.insert(rng.randint(0, len(ts)), Type('com', ('cat', ('lit', '/*'), ('lstar', ('nset', ';')), ('lit', '*/')), side=1))
    if rng.random() < 0.5:
        ts.insert(rng.randint(0, len(ts)), Type('err', rng.choice([('lit', '"'), ('lit', '!'), ('cat', ('lit', '/*'), ('star', ('nset', ';'))), rand_re(rng, 1)]), err=1,
                                                grp=rng.choice([0, 0, 1])))
    gs = sorted({t.grp for t in ts if t.grp})
    for t in ts:
        if t.grp:
            t.grp = gs.index(t.grp) + 1
    return ts


def wide(rng):
    """many token types: numbers of types up to the limit, in several groups"""
    ts = []
    n = rng.choice([31, 32, 33, 34, 40, 55, 62])
    chars = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-()'
    ng = rng.choice([1, 1, 2, 3])
    for i in range(n):
        y = rng.random()
        r = ('set', chars[i % len(chars)]) if y < 0.6 else ('lit', chars[i % len(chars)] + rng.choice('ab')) if y < 0.8 else ('plus', ('set', rng.choice(['ab', 'xyz', '01', 'abz'])))
        ts.append(Type('t%d' % i, r, grp=rng.randrange(ng)))
    ts.insert(rng.choice([0, len(ts)]), Type('sp', ('plus', ('set', ' \n')), side=1))
    gs = sorted({t.grp for t in ts if t.grp})
    for t in ts:
        if t.grp:
            t.grp = gs.index(t.grp) + 1
    return ts


def wide_case(rng):
    ts = wide(rng)
    far = [t for t in ts if not t.side]
    g = gram.Gram()
    g.types = ts

    def some():
        ls = [('type', t.name) for t in rng.sample(far[-12:] if rng.random() < 0.6 else far, rng.choice([1, 1, 2, 4]))]
        return ('alt', ls) if len(ls) > 1 else ls[0]
    items = [rng.choice([some, some, lambda: ('opt', some()), lambda: ('rep', some())])() for _ in range(rng.randint(1, 5))]
    rest = [('type', t.name) for t in far]
    rng.shuffle(rest)
    body = ('seq', items + [('rep', ('alt', rest))])
    if gram.known_pattern(body):
        return wide_case(rng)
    g.nodes = [('g', body)]
    g.pool = ['a']
    toks = mach.sentence(rng, g, 20) or []
    s = mach.glue(rng, toks[:12], 0.7, [' ', '\n'])
    return mach.case(g, mach.split_sources(rng, s, rng.choice([1, 1, 2])), mach.full_cfg(g), sides=rng.choice([0, 1]), full=rng.choice([0, 1]), exps=0)


def parse_case(rng, k=1):
    """k: how much longer the text is"""
    if rng.random() < 0.04:
        return wide_case(rng)
    ts = profile(rng)
    main = [t for t in ts if not t.side and not t.err]
    leaves = [('type', t.name) for t in main]
    g = gram.Gram()
    g.types = ts
    x = rng.random()
    if x < 0.35:
        body = ('rep', ('alt', leaves)) if len(leaves) > 1 else ('rep', leaves[0])
        g.nodes = [('g', body)]
    elif x < 0.75:                                # which types are wanted depends on the place
        def some():
            ls = rng.sample(leaves, min(len(leaves), rng.choice([1, 1, 2])))
            return ('alt', ls) if len(ls) > 1 else ls[0]
        items = [rng.choice([some, lambda: ('opt', some()), lambda: ('rep', some())])() for _ in range(rng.randint(2, 5))]
        body = ('seq', items)
        if rng.random() < 0.6:
            body = ('rep', body)
        if gram.known_pattern(body):
            return parse_case(rng)
        g.nodes = [('g', body)]
    else:
        names = [t.name for t in main]

        def leaf():
            return ('type', rng.choice(names))
        g = gram.grammar(rng, ts, leaf, rng.randint(1, 3), 3, 3, 0.3)
    g.pool = ['a']
    s = text(rng, 14 * k)
    if rng.random() < 0.5:
        toks = mach.sentence(rng, g, 20) or []
        s = mach.glue(rng, toks[:15] * k, 0.6, [' ', '\n']) + (text(rng, 2) if rng.random() < 0.4 else '')
    b = list(s.encode('utf8'))
    if b and rng.random() < 0.1:
        b[rng.randrange(len(b))] = rng.choice([0, 128, 200, 255, 13])
    cuts = sorted(rng.randint(0, len(b)) for _ in range(rng.choice([0, 0, 0, 1, 2])))
    ins, p = [], 0
    for c in cuts + [len(b)]:
        ins.append(b[p:c])
        p = c
    cfg = mach.full_cfg(g)
    if rng.random() < 0.2:
        cfg[0].update(toks=[''], prog=[{'keep': 1, 'peek': rng.choice([0, 1, 3]), 'x': []}])
    return mach.case(g, ins, cfg, sides=rng.choice([0, 1, 1]), full=rng.choice([0, 1]), parses=rng.choice([1, 1, 3]), exps=0)


def long_case(rng):
    """one token longer than any buffer, many of them, many sources"""
    n = rng.choice([130, 260, 600, 1100])
    ts = [Type('sp', ('plus', ('set', ' \n')), side=1), Type('w', ('plus', ('set', LOWER))), Type('str', ('cat', ('lit', '"'), ('star', ('nset', '"')), ('lit', '"')), grp=rng.choice([0, 1])),
          Type('op', ('set', '+-'))]
    rng.shuffle(ts)
    g = gram.Gram()
    g.types, g.pool = ts, ['a']
    g.nodes = [('g', ('rep', ('alt', [('type', t.name) for t in ts if not t.side])))]
    s = ''
    while len(s) < n:
        m = rng.choice([1, 5, n // 2, n])
        s += rng.choice([lambda: ''.join(rng.choice('abz') for _ in range(m)), lambda: '"' + ' x\n' * (m // 3) + rng.choice(['"', '"', '"', '']), lambda: rng.choice(' \n') * m, lambda: '+-' * min(m, 20)])()
    return mach.case(g, mach.split_sources(rng, s, rng.choice([1, 1, 3, 20])), mach.full_cfg(g), sides=rng.choice([0, 1]), full=rng.choice([0, 1]), exps=0)


def api_case(rng, k=1):
    lexers = []
    bits = [' ', '\n']
    for _ in range(rng.choice([1, 1, 2])):
        alts, gno, txt, types = [], 0, [], []
        for _ in range(rng.randint(1, 5)):
            parts, pt, ptree = [], [], []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                opt = 0
                if rng.random() < 0.2:
                    re = rep(rng, 1, True)
                    cap = 0
                else:
                    re = rand_re(rng, rng.choice([0, 1, 1]), True)
                    cap = 1 if rng.random() < 0.75 else 0
                    opt = 1 if cap and rng.random() < 0.15 else 0
                t = gram.re_text(re, 0 if cap else 1)
                if cap:
                    gno += 1
                    cap = gno
                    t = '(' + t + ')' + ('?' if opt else '')
                ptree.append((re, opt))
                parts.append({'re': gram.re_flat(re), 'cap': cap, 'opt': opt})
                pt.append(t)
            alts.append(parts)
            txt.append(''.join(pt))
            bits += [''.join(mach.sample_re(rng, r) for r, o in ptree if not o or rng.random() < 0.5) for _ in range(3)]
        if rng.random() < 0.7:                    # white space is insignificant
            i = rng.randint(0, len(alts))
            alts.insert(i, [{'re': gram.re_flat(('plus', ('set', ' \n'))), 'cap': 0, 'opt': 0}])
            txt.insert(i, '[\\n ]+')
        for g in range(gno + rng.choice([0, 0, 0, 0, -1, 1])):
            types.append({'t': rng.choice([0, 1, 2, 3, 4, 5, 62, 63, rng.randint(0, 63), g, g, g, -4, -1, 64, 100]), 'n': 't%d' % g})
        # groups are numbered in the order of the text: renumber after inserting nothing changes, they have no new groups
        lexers.append({'alts': alts, 're': '^(?s:' + '|'.join(txt) + ')', 'types': types})
    s = ''.join(rng.choice(bits) for _ in range(rng.randint(0, 9 * k)))
    if rng.random() < 0.3:
        s += text(rng, 2)
    b = list(s.encode('utf8'))
    if b and rng.random() < 0.1:
        b[rng.randrange(len(b))] = rng.choice([0, 128, 200, 255, 13])
    cuts = sorted(rng.randint(0, len(b)) for _ in range(rng.choice([0, 0, 0, 1, 2])))
    ins, p = [], 0
    for c in cuts + [len(b)]:
        ins.append(b[p:c])
        p = c
    ops = []
    for _ in range(rng.randint(3, 16 * k)):
        l = rng.randrange(len(lexers))
        of = 0 if rng.random() < 0.5 else 1
        used = [t['t'] for x in lexers for t in x['types'] if 0 <= t['t'] <= 63] or [0]
        mask = sorted({rng.choice(used + [0, 1, 63]) for _ in range(rng.randint(0, 4))}) if rng.random() < 0.8 else list(range(64))
        ops.append({'l': l, 'of': of, 'mask': mask, 'skip': rng.choice([0, 0, 1, 2])})
    return {'k': 'lexer', 'lexers': lexers, 'ins': ins, 'seek': 0 if rng.random() < 0.8 else rng.randint(0, 3), 'ops': ops}


def api_record(c, r):
    return {'id': c['id'], 'crash': r.get('crash', 0), 'lexers': [{'alts': x['alts'], 'types': x['types']} for x in c['lexers']], 'ins': c['ins'], 'seek': c['seek'],
            'ops': c['ops'], 'obs': r.get('obs') or []}


def main(chk):
    rng = chk.rng
    n = 14000 if chk.thorough else 2200
    mach.validate(chk, [parse_case(rng) for _ in range(n)] + [parse_case(rng, 15) for _ in range(n // 40)] + [long_case(rng) for _ in range(n // 60)])
    chk.validate('core', 'LexerApiTrace', [api_case(rng) for _ in range(n * 2)] + [api_case(rng, 12) for _ in range(n // 20)], record=api_record, batch=5000)
    return chk.finish(rule='token streams of random token types in parses; random calls of Next and NextOf of random lexers')
