"""C16: compiled tables against descriptions (spec/Tables.tla)."""
import gram, big, real
from gram import LOWER, UPPER, DIGIT, Type


def rnd_types(rng):
    """token types; literals of the given list can be matched by some of them"""
    ts = []
    if rng.random() < 0.6:
        ts.append(Type('sp', ('plus', ('set', ' \n')), side=1))
    up = rng.random() < 0.3
    if rng.random() < 0.5:
        ts.append(Type('one', ('set', 'abc'), nolit=0))
    ts.append(Type('w', rng.choice([('plus', ('set', LOWER)), ('cat', ('set', LOWER), ('star', ('set', LOWER + DIGIT))), ('alt', ('set', LOWER), ('lit', 'ab'), ('plus', ('set', 'abcde'))) ])))
    if up:
        ts.append(Type('up', gram.up_re(rng), cl=1))
    ts.append(Type('op', rng.choice([('set', '+-*/()[]{}=,;|'), ('alt', ('lit', '++'), ('set', '+-*/()[]{}=,;|'))])))
    if rng.random() < 0.5:
        ts.append(Type('num', ('plus', ('set', DIGIT))))
    if rng.random() < 0.3:
        ts.append(Type('raw', ('plus', ('nset', ';')), grp=1))
    if rng.random() < 0.3:
        ts.append(Type('err', ('cat', ('set', "'\""), ('star', ('nset', '\n'))), err=1))
    rng.shuffle(ts)
    if rng.random() < 0.3:
        ts.append(Type('ext', ext=1))
    return ts


LITS = ['a', 'b', 'c', 'ab', 'abc', '+', '-', '(', ')', ';', '|', 'é']


def make(rng):
    ts = rnd_types(rng)
    names = [t.name for t in ts if not t.side and not t.err]
    pool = [l for l in LITS if l.isascii() or 'raw' in names]
    if 'up' in names:
        pool = pool + gram.up_lits(rng, [t for t in ts if t.name == 'up'][0])
    k = rng.randint(1, 7)
    pool = rng.sample(pool, min(k, len(pool)))
    tp = rng.choice([0.0, 0.1, 0.3])

    def leaf():
        if rng.random() < tp:
            return ('type', rng.choice(names))
        return ('lit', rng.choice(pool))
    g = gram.grammar(rng, ts, leaf, rng.randint(1, 5), rng.randint(1, 4), rng.randint(2, 4), rng.choice([0.1, 0.4]), eoi_p=0.2)
    used = sorted({y[1] for _, b in g.nodes for y in gram.leaves(b) if y[0] == 'lit'})
    if rng.random() < 0.2:
        g.onlytypes = ['w', 'op'] + (['up'] if 'up' in names else []) + (['raw'] if 'raw' in names else [])
    if rng.random() < 0.2 and used:
        g.reserved = [rng.choice(used)]
    return gram.case(g)


def dense(rng):
    """many optional and repeated parts over one or two literals"""
    ts = [Type('c', ('set', 'abcd'))]
    pool = rng.sample('abcd', rng.randint(1, 3))
    g = gram.grammar(rng, ts, lambda: ('lit', rng.choice(pool)), rng.randint(1, 3), rng.randint(2, 4), 3, 0.2)
    return gram.case(g)


def wraps(x):
    return [x, ('opt', x), ('rep', x)]


def bodies(ls, depth=0):
    """all expressions with these leaves in this order; every part plain, optional or repeated"""
    if len(ls) == 1:
        return wraps(('lit', ls[0]))
    res = []
    for parts in cuts(ls):
        kids = [[]]
        for p in parts:
            kids = [k + [y] for k in kids for y in bodies(p, depth + 1)]
        for k in kids:
            for op in ('seq', 'alt'):
                if any(y[0] == op for y in k):       # the same as a longer list
                    continue
                if op == 'alt' and any(y[0] in ('opt', 'rep') for y in k) and len(ls) > 2:
                    continue
                res += wraps((op, k))
    return res


def cuts(ls):
    """ways to cut a list into two or more pieces"""
    n = len(ls)
    for m in range(1, 1 << (n - 1)):
        out, cur = [], [ls[0]]
        for i in range(1, n):
            if m >> (i - 1) & 1:
                out.append(cur)
                cur = []
            cur.append(ls[i])
        yield out + [cur]


CONTEXTS = [lambda b: [('g', b)], lambda b: [('g', ('seq', [b, ('lit', 'd')]))],
            lambda b: [('g', ('seq', [('node', 'n'), ('lit', 'd')])), ('n', b)],
            lambda b: [('g', ('alt', [('lit', 'd'), ('node', 'n')])), ('n', b)],
            lambda b: [('g', ('seq', [('rep', ('node', 'n')), ('lit', 'd')])), ('n', b)],
            lambda b: [('g', ('seq', [('opt', ('lit', 'c')), ('node', 'n')])), ('n', b)]]


def every(words):
    """all small expressions in all contexts"""
    for ls in words:
        for b in bodies(list(ls)):
            for ctx in CONTEXTS:
                ns = ctx(b)
                if any(gram.known_pattern(y) for _, y in ns):
                    continue
                g = gram.Gram()
                g.types = [Type('c', ('set', 'abcd'))]
                g.nodes = ns
                yield gram.case(g)


KNOWN = [('opt-rep', ('seq', [('opt', ('seq', [('rep', ('lit', 'a')), ('lit', 'b')])), ('lit', 'c')]))]


def known_cases():
    res = []
    for key, b in KNOWN:
        g = gram.Gram()
        g.types = [Type('c', ('set', 'abcd'))]
        g.nodes = [('g', b)]
        res.append(gram.case(g, key=key))
    return res


def record(c, r):
    rec = dict(c)
    rec.update(r)
    if r.get('crash'):
        rec.update(ok=0, tab={'tokens': [], 'nodes': [], 'states': [], 'layers': []})
    rec.setdefault('crash', 0)
    rec.pop('src', None)
    rec['id'] = c['id']
    return rec


def main(chk):
    rng = chk.rng
    n = 12000 if chk.thorough else 1500
    cases = known_cases()
    small = list(every(['a', 'ab', 'aa', 'ad']))
    more = list(every(['abc', 'aba', 'aab', 'abb', 'aaa', 'abd', 'adb']))
    chk.extra['all_expressions_of_2_leaves'] = len(small)
    chk.extra['expressions_of_3_leaves'] = [len(more) if chk.thorough else 500, len(more)]
    cases += small + (more if chk.thorough else rng.sample(more, 500))
    n += len(cases)
    seen = set()
    while len(cases) < n:
        c = make(rng) if rng.random() < 0.6 else dense(rng)
        if c['src'] not in seen and len(c['src']) < 900:
            seen.add(c['src'])
            cases.append(c)
    for _ in range(60 if chk.thorough else 9):
        cases.append(gram.case(rng.choice([big.wide, big.types, big.chain, big.long])(rng, rng.choice([70, 140, 200]))[0]))
    for _ in range(120 if chk.thorough else 25):
        cases.append(gram.case(big.ring(rng, rng.choice([6, 12, 24, 40]))[0]))
    cases += [gram.case(g) for g in real.load()]
    rejected = [0]

    def rec(c, r):
        rejected[0] += not r.get('ok')
        return record(c, r)
    chk.validate('core', 'TablesTrace', cases, record=rec, key=lambda c: c.get('key'), batch=1500)
    chk.extra['descriptions_rejected'] = rejected[0]
    return chk.finish(rule='all reachable pairs (table states, derivatives) of every node of random descriptions')
