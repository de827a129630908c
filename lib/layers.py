"""Grammars, configurations and texts for the standard hook layers."""
import gram, mach
from gram import LOWER, DIGIT, Type

WHITE = [' ', ' ', '  ', '   ', '\t', ' \t', '\t ']
PLAIN = {'toks': [], 'lits': [], 'nodes': [], 'prog': []}


def plain(**kw):
    return dict(PLAIN, kind='prog', **kw)


def quoted(s):
    return gram.quote(s) if hasattr(gram, 'quote') else "'" + s + "'"


# ---- indent -------------------------------------------------------------------
def indent_types(rng):
    """(types, names of space types)"""
    x = rng.random()
    if x < 0.25:
        ts, sp = [Type('sp', ('plus', ('set', ' \t\n')), side=1)], ['sp']
    elif x < 0.5:
        ts = [Type('sp', ('plus', ('set', ' \t')), side=1), Type('nl', rng.choice([('set', '\n'), ('plus', ('set', '\n'))]), side=1)]
        sp = ['sp', 'nl']
    elif x < 0.62:
        ts, sp = [Type('sp', ('set', ' \t\n'), side=1)], ['sp']
    elif x < 0.75:
        ts, sp = [Type('sp', ('plus', ('set', ' \t')), side=1), Type('nl', ('set', '\n'))], ['sp', 'nl']
    elif x < 0.88:                           # newline and the indentation after it are one token
        ts, sp = [Type('nl', ('cat', ('set', '\n'), ('star', ('set', ' \t'))), side=1), Type('sp', ('plus', ('set', ' \t')), side=1)], ['nl', 'sp']
    else:                                    # only some of the white space counts
        ts, sp = [Type('nl', ('cat', ('set', '\n'), ('star', ('set', ' '))), side=1), Type('sp', ('plus', ('set', ' \t')), side=1)], ['nl']
    if rng.random() < 0.7:
        ts.append(Type('com', ('cat', ('lit', '#'), ('star', ('nset', '\n'))), side=1))
    if rng.random() < 0.3:
        ts.append(Type('rem', ('cat', ('lit', '('), ('star', ('set', LOWER + ' \n')), ('lit', ')')), side=1))
    rng.shuffle(ts)
    ts.append(Type('w', rng.choice([('plus', ('set', LOWER)), ('plus', ('set', LOWER)), ('set', LOWER)])))
    if rng.random() < 0.6:
        ts.append(Type('op', ('set', '+-:')))
    if rng.random() < 0.3:
        ts.append(Type('str', ('cat', ('lit', '"'), ('star', ('nset', '"')), ('lit', '"'))))
    ts.append(Type('in', ext=1))
    ts.append(Type('de', ext=1))
    rng.shuffle(sp)
    return ts, sp


def indent_text(rng, sp, on='in', off='de'):
    cmds = ['space(%s)' % ', '.join(sp), 'on-indent(%s)' % on, 'on-dedent(%s)' % off]
    rng.shuffle(cmds)
    return '@indent %s;' % ' '.join(cmds)


def indent_cfg(sp, on='in', off='de'):
    return dict(PLAIN, kind='indent', space=sp, on=on, off=off)


def lines(rng, g, n, wrong=0.06, words=None):
    """a text with indented lines, now and then wrong ones"""
    names = {t.name for t in g.types}
    words = words or (['a', 'b', 'do', 'x'] + (['+', ':', '-'] if 'op' in names else []) + (['"s"', '"a\n  b"'] if 'str' in names else []))
    coms = (['# c', '#'] if 'com' in names else []) + (['( r )', '(r\n r)', '()'] if 'rem' in names else [])
    nls = ['\n', '\n', '\n', '\n\n', '\n \n', '\n\t\n'] if 'nl' not in names or rng.random() < 0.6 else ['\n']
    levels, out = [''], []
    if rng.random() < 0.2:
        out.append(rng.choice(['\n', ' ', '\n  \n', ' \n']))
    if rng.random() < 0.06:
        levels.append(rng.choice(WHITE))
    for i in range(rng.randint(0, n)):
        x = rng.random()
        if x < 0.12 and coms:
            out.append(rng.choice(WHITE + ['']) + rng.choice(coms) + rng.choice(nls))
            continue
        if x < 0.4 and i:
            levels.append(levels[-1] + rng.choice(WHITE))
        elif x < 0.65:
            del levels[rng.randint(1, len(levels)):]
        ind = levels[-1]
        if rng.random() < wrong:
            y = rng.random()
            ind = ind[:-1] if y < 0.4 else rng.choice(WHITE) if y < 0.7 else ind.replace(' ', '\t', 1) if y < 0.85 else ind + (rng.choice(coms) + ' ' if coms else '')
        ws = [rng.choice(words) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        s = ind
        for k, w in enumerate(ws):
            s += (rng.choice([' ', ' ', '  ']) if k else '') + w
            if coms and rng.random() < 0.08:
                s += rng.choice(['', ' ']) + rng.choice(coms)
        out.append(s + rng.choice(['', '', '', ' ']) + rng.choice(nls))
    s = ''.join(out)
    if rng.random() < 0.4:
        s = s.rstrip('\n')
    if rng.random() < 0.15:
        s += rng.choice(WHITE)
    if rng.random() < 0.05:
        i = rng.randint(0, len(s))
        s = s[:i] + rng.choice(['?', '!', ' ', '\n', '\t']) + s[i:]
    return s


def take_all(ts):
    return ('rep', ('alt', [('type', t.name) for t in ts if not t.side and not t.err]))


def indent_grammar(rng, kind):
    ts, sp = indent_types(rng)
    g = gram.Gram()
    g.types, g.pool = ts, ['a', 'b', 'do', 'x']
    names = [t.name for t in ts if not t.side]
    if kind == 'all':
        g.nodes = [('g', take_all(ts))]
    elif kind == 'block':
        w = ('alt', [('type', n) for n in names if n not in ('in', 'de', 'nl')])
        nl = [('rep', ('type', 'nl'))] if 'nl' in names else []
        st = ('seq', [w, ('rep', w)] + nl + [('opt', ('seq', [('type', 'in'), ('node', 'st'), ('rep', ('node', 'st')), ('type', 'de')]))] + nl)
        g.nodes = [('g', ('seq', nl + [('rep', ('node', 'st'))])), ('st', st)]
    else:
        g = mach.make_grammar(rng, ts=ts, type_p=0.6)
    return g, sp


def steep(rng, g, k):
    """k levels of indentation, left one by one or at once"""
    out, levels, up = [], [''], True
    word = lambda: rng.choice(['a', 'b', 'x'])
    for i in range(rng.randint(k, 2 * k)):
        out.append(levels[-1] + word() + '\n')
        if len(levels) > k:
            up = False
        x = rng.random()
        if up and x < 0.9:
            levels.append(levels[-1] + rng.choice(WHITE))
        elif len(levels) > 1:
            m = len(levels) - (1 if x < 0.6 else rng.randint(1, len(levels) - 1))
            del levels[max(m, 1):]
    if rng.random() < 0.2:
        out.append(rng.choice([' ', '\t']) * rng.randint(1, k) + 'a')
    return ''.join(out)


# ---- layer definitions, right and wrong (spec/LayerConfig.tla) -------------------
DESC = """$sp=/[ \\t\\n]+/; $nl=/;/; $w=/[a-z]+/; $op=/[+-]/; $bad=/!/; $in=//; !side $sp; !error $bad; !extern $in $de;
%s
g=a|b,{$nl|$in|$de}; a=$w,[b]; b=$op,[a];""".replace('$in=//; ', '')
TYPES = ['sp', 'nl', 'w', 'op', 'in', 'de']
COMMANDS = {'indent': ['space', 'on-indent', 'on-dedent'], 'convert': ['convert', 'input-type', 'output-type', 'save-position'],
            'restrict': ['node', 'allow-in', 'forbid-in']}


def good(rng, t):
    some = lambda xs, n: rng.sample(xs, min(n, len(xs)))
    if t == 'indent':
        cs = [['space', some(TYPES, rng.randint(1, 3))], ['on-indent', [rng.choice(TYPES)]], ['on-dedent', [rng.choice(TYPES)]]]
    elif t == 'convert':
        fs = some(['a', 'b', 'c', '+', '-', 'x y'], rng.randint(1, 4))
        ps = [[f, rng.choice(['a', 'b', '+', 'z', 'a b'])] for f in fs]
        k = rng.randint(1, len(ps))
        cs = [['convert', sum(ps[:k], [])]] + ([['convert', sum(ps[k:], [])]] if ps[k:] else [])
        if rng.random() < 0.5:
            cs.append(['input-type', [rng.choice(TYPES + ['-eof-', '-eoi-'])]])
        if rng.random() < 0.5:
            cs.append(['output-type', [rng.choice(TYPES)]])
        cs += [['save-position', []]] * rng.choice([0, 0, 1, 1, 2])
    else:
        names = some(['g', 'a', 'b', 'q', 'r'], rng.randint(1, 4))
        k = rng.randint(1, len(names))
        cs = [['node', some(['g', 'a', 'b'], rng.randint(1, 3))], ['forbid-in', names[:k]]]
        if names[k:]:
            cs.append(['allow-in', names[k:]])
        if rng.random() < 0.2:
            cs[0][1] = ['g']
            cs.append(['node', ['a']])
        if rng.random() < 0.15:
            cs[0][1].append('nowhere')
    rng.shuffle(cs)
    return cs


def spoil(rng, t, cs):
    cs = [[c, list(a)] for c, a in cs]
    x = rng.random()
    i = rng.randrange(len(cs))
    if x < 0.2:
        del cs[i]
    elif x < 0.35:
        cs.insert(rng.randint(0, len(cs)), [cs[i][0], list(cs[i][1])])
    elif x < 0.5:
        cs[i][1] = cs[i][1][:-1]
    elif x < 0.65:
        cs[i][1].insert(rng.randint(0, len(cs[i][1])), rng.choice(['a', 'w', 'g', 'zzz', '+', 'sp']))
    elif x < 0.75 and cs[i][1]:
        cs[i][1][rng.randrange(len(cs[i][1]))] = rng.choice(['bad', 'zzz', '-eof-', '-eoi-', 'a', 'b'])
    elif x < 0.85:
        cs[i][1] = []
    elif x < 0.93:
        cs[i][0] = rng.choice(COMMANDS[t] + ['other', 'spaces'])
    else:
        cs[i][1] = cs[i][1] * 2
    return cs or [['other', []]]


def def_text(rng, t, cs):
    arg = lambda a: a if rng.random() < 0.5 and a.replace('-', '').isalnum() and a[0].isalpha() else "'" + a + "'"
    return '@%s %s;' % (t, ' '.join('%s(%s)' % (c, ', '.join(arg(x) for x in a)) for c, a in cs))


def config_case(rng, t):
    ls = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        cs = good(rng, t)
        while rng.random() < 0.6:
            cs = spoil(rng, t, cs)
        ls.append((t, cs))
    if rng.random() < 0.15:
        u = rng.choice(list(COMMANDS))
        ls.insert(rng.randint(0, len(ls)), (u, good(rng, u)))
    if rng.random() < 0.04:
        ls.insert(rng.randint(0, len(ls)), ('other', [['space', ['w']]]))
    return {'k': 'parse', 'src': DESC % ' '.join(def_text(rng, u, cs) for u, cs in ls), 'ins': [[97]], 'hooks': [PLAIN], 'parses': 1, 'notab': 1,
            'layers': [{'t': u, 'c': [{'c': c, 'a': a} for c, a in cs]} for u, cs in ls], 'g': {'types': TYPES, 'nodes': ['g', 'a', 'b']}}


def config_record(c, r):
    runs = r.get('runs') or []
    return {'id': c['id'], 'layers': c['layers'], 'g': c['g'], 'crash': r.get('crash', 0), 'ok': r.get('ok', 0),
            'code': (r.get('err') or {}).get('code', 0), 'pcode': runs[0]['err']['code'] if runs else 0}


def configs(chk, t, n):
    chk.validate('core', 'LayerConfigTrace', [config_case(chk.rng, t) for _ in range(n)], record=config_record, batch=5000)
