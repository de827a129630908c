"""Texts of grammar descriptions: one abstract description (gram.Gram) written
in many ways, and broken texts made from it."""
import gram, mach
from gram import LOWER, UPPER, DIGIT, Type, quote

NAMES = ['x', 'y', 'Z', '_', 'ab', 'a-b', 'a_1', '_9', 'name', 'side', 'string', 'foo', 'Foo', 'k--', 'x1', 'Q_-2', 'literal', 'g', 'op']
JUNK_COMMENTS = ['#\n', '# x\n', '#$a=/x/;\n', "#'\n", '#"\n', '# é\n', '##\n', '#;\n', '# \t,\n']


class Writer:
    """writes a description in a random style; remembers what is known about its patterns"""

    def __init__(self, rng, g, style=None):
        self.rng, self.g = rng, g
        self.pats = []
        self.tpl_n = 0
        r = rng
        self.style = style or {'ws': r.choice([0, 0.1, 0.4]), 'com': r.choice([0, 0, 0.1]), 'tpl': r.choice([0, 0, 0.3, 0.6]),
                               'par': r.choice([0, 0, 0.15, 0.4]), 'esc': r.choice([0, 0.3, 0.8]), 'split': r.choice([0, 0.5]), 'ren': r.random() < 0.5,
                               'nlayers': r.choice([0, 0, 1, 3])}
        self.items = []          # statements of the head: (order class, lexemes)

    # -- layout
    def gap(self, need=False):
        r, s = self.rng, ''
        while r.random() < self.style['ws']:
            s += r.choice([' ', '\n', '\t', '\r\n', '\f', '  '])
        if r.random() < self.style['com']:
            s += r.choice(JUNK_COMMENTS)
        return s or (' ' if need else '')

    def join(self, toks):
        out = self.gap()
        prev = ''
        for t in toks:
            need = bool(prev) and (prev[-1].isalnum() or prev[-1] in '_-$!') and (t[0].isalnum() or t[0] in '_-$')
            out += self.gap(need and not self.safe(prev, t)) + t
            prev = t
        return out

    @staticmethod
    def safe(a, b):
        return False

    # -- names
    def names(self):
        r, g = self.rng, self.g
        self.tn, self.nn, self.pn = {}, {}, {}
        if not self.style['ren']:
            self.tn = {t.name: t.name for t in g.types}
            self.nn = {n: n for n, _ in g.nodes}
            return
        pool = NAMES[:]
        r.shuffle(pool)
        for t in g.types:
            self.tn[t.name] = pool.pop() if pool and r.random() < 0.6 else t.name + r.choice(['', '-', '_x', '0'])
        if len(set(self.tn.values())) != len(self.tn):
            self.tn = {t.name: t.name for t in g.types}
        pool = NAMES[:]
        r.shuffle(pool)
        for n, _ in g.nodes:
            self.nn[n] = pool.pop() if pool and r.random() < 0.5 else n + r.choice(['', '-', '_q'])
        if len(set(self.nn.values())) != len(self.nn):
            self.nn = {n: n for n, _ in g.nodes}

    # -- strings
    def string(self, s):
        r = self.rng
        if "'" not in s and '\n' not in s and r.random() < 0.6:
            return "'" + s + "'"
        out = ''
        for c in s:
            if c in '\\"':
                out += '\\' + c if r.random() < 0.7 else self.hexed(c)
            elif r.random() < self.style['esc']:
                out += self.hexed(c)
            elif c in '\n\r\t' and r.random() < 0.7:
                out += {'\n': '\\n', '\r': '\\r', '\t': '\\t'}[c]
            else:
                out += c
        return '"' + out + '"'

    def hexed(self, c):
        r = self.rng
        n = ord(c)
        h = r.choice(['%0{}x', '%0{}X'])
        x = r.random()
        if x < 0.4 or n > 0xffff and x < 0.5:
            return ''.join('\\x' + h.format(2) % b for b in c.encode('utf8'))
        if x < 0.75 and n <= 0xffff:
            return '\\u' + h.format(4) % n
        return '\\U' + h.format(8) % n

    # -- patterns
    def pattern(self, r):
        """lexemes of a pattern, templates defined on the way"""
        full = gram.re_text(r)
        self.know(full, r)
        parts = self.parts(r, 0)
        # join texts between template names, cut them again at random
        out, cur = [], ''
        for kind, t in parts + [('name', None)]:
            if kind == 'text':
                cur += t
                continue
            out += ['/' + x + '/' for x in self.cut(cur)]
            cur = ''
            if t:
                out.append(t)
        return out

    def cut(self, t):
        """cuts a pattern text at places that are not inside an escape"""
        if not t:
            return []
        units, i = [], 0
        while i < len(t):
            j = i + (2 if t[i] == '\\' else 1)
            units.append(t[i:j])
            i = j
        out = [units[0]]
        for u in units[1:]:
            if self.rng.random() < self.style['tpl'] * 0.1:
                out.append(u)
            else:
                out[-1] += u
        return out

    def parts(self, r, prec):
        rng = self.rng
        if rng.random() < self.style['tpl'] * 0.6:
            return [('name', self.template(r, prec))]
        k = r[0]
        if k in ('cat', 'alt'):
            sub = []
            for i, x in enumerate(r[1:]):
                if i and k == 'alt':
                    sub.append(('text', '|'))
                sub += self.parts(x, 1)
            if (k == 'cat' and prec == 2) or (k == 'alt' and prec):
                sub = [('text', '(?:')] + sub + [('text', ')')]
            return sub
        return [('text', gram.re_text(r, prec))]

    def template(self, r, prec):
        rng = self.rng
        for n, p in self.pn.items():
            if p == (r, prec) and rng.random() < 0.7:
                return n
        text = gram.re_text(r, prec)
        while True:
            self.tpl_n += 1
            n = rng.choice(NAMES) if rng.random() < 0.4 else 't%d' % self.tpl_n
            if n not in self.pn:
                break
        self.pn[n] = None
        self.know(text, r)
        toks = ['$$' + n, '=']
        if prec == 0 and rng.random() < 0.4 and r[0] in ('cat', 'alt'):
            toks += self.pattern(r)
        else:
            toks += ['/' + x + '/' for x in self.cut(text)]
        self.items.append(toks + [';'])
        self.pn[n] = (r, prec)
        return n

    def know(self, text, r):
        t = list(text.encode('utf8'))
        if not any(p['t'] == t for p in self.pats):
            self.pats.append({'t': t, 'st': 'ok', 're': gram.re_flat(r)})

    # -- node bodies
    def body(self, x, prec=0):
        r = self.rng
        if r.random() < self.style['par']:
            return ['('] + self.body0(x, 0) + [')']
        return self.body0(x, prec)

    def body0(self, x, prec):
        k = x[0]
        if k == 'lit':
            return [self.string(x[1])]
        if k == 'type':
            return ['$' + self.tn.get(x[1], x[1])]
        if k == 'node':
            return [self.nn.get(x[1], x[1])]
        if k == 'eoi':
            return ['$']
        if k in ('opt', 'rep'):
            o, c = '[]' if k == 'opt' else '{}'
            return [o] + self.body(x[1]) + [c]
        sep, p = (',', 1) if k == 'seq' else ('|', 2)
        out = []
        for i, y in enumerate(x[1]):
            out += ([sep] if i else []) + self.body(y, p)
        return ['('] + out + [')'] if prec >= p else out

    def layer(self):
        r = self.rng
        toks = ['@', r.choice(NAMES)]
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            toks += [r.choice(NAMES), '(']
            n = r.choice([0, 0, 1, 1, 2, 4])
            for i in range(n):
                toks += [','] if i else []
                if r.random() < 0.1:
                    toks.append('"' + ''.join(r.choice(['\\x%02x' % r.randrange(256), '\\u%04X' % r.choice([0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff]),
                                                        '\\U%08x' % r.choice([0x10000, 0x10ffff, 0xfffd, 0x41]), '\\\\', '\\"', '\\n', '\\t', '\\r', 'z']) for _ in range(r.randint(1, 5))) + '"')
                    continue
                toks.append(r.choice(NAMES) if r.random() < 0.4 else self.string(r.choice(['', 'a', '$x', 'é日', 'a b', '"', "'", '\\', '\n', 'foo', '(?:x|y)+', ';', ',', ')', '#'])))
            toks.append(')')
        return toks + [';']

    # -- the whole text
    def statements(self):
        """(head statements, node statements) as lists of lexemes"""
        r, g = self.rng, self.g
        self.names()
        deferred = []
        T = lambda n: '$' + self.tn.get(n, n)
        for t in g.types:
            if t.re:
                toks = self.pattern(t.re)
                self.items.append([T(t.name), '='] + toks + [';'])

        def split(xs):
            xs = list(xs)
            r.shuffle(xs)
            if xs and r.random() < 0.15:
                xs.append(r.choice(xs))
            while xs:
                n = r.randint(1, len(xs)) if r.random() < self.style['split'] else len(xs)
                yield xs[:n]
                xs = xs[n:]
        for d, f in (('side', 'side'), ('error', 'err'), ('extern', 'ext'), ('caseless', 'cl')):
            for part in split([t.name for t in g.types if getattr(t, f)]):
                deferred.append(['!' + d] + [T(n) for n in part] + [';'])
        if r.random() < 0.1:
            deferred.append(['!' + r.choice(['side', 'error', 'extern', 'caseless', 'literal', 'reserved']), ';'])
        lits = [self.string(s) for s in g.onlylits] + [T(s) for s in g.onlytypes]
        for part in split(lits):
            deferred.append(['!literal'] + part + [';'])
        for part in split([self.string(s) for s in g.reserved]):
            deferred.append(['!reserved'] + part + [';'])
        for _ in range(self.style['nlayers']):
            deferred.append(self.layer())
        groups = []
        for n in range(1, max([t.grp for t in g.types] + [0]) + 1):
            names = [T(t.name) for t in g.types if t.grp == n]
            r.shuffle(names)
            groups.append(['!group'] + names + [';'])
        if self.g.extra:
            deferred.append([self.g.extra])
        # directives go anywhere in the head, groups keep their order
        head = list(self.items)
        for s in deferred:
            head.insert(r.randint(0, len(head)), s)
        p = 0
        for s in groups:
            p = r.randint(p, len(head))
            head.insert(p, s)
            p += 1
        nodes = [[self.nn[n], '='] + self.body(b) + [';'] for n, b in g.nodes]
        rest = nodes[1:]
        r.shuffle(rest)
        for _ in range(r.choice([0, 0, 1]) if self.style['nlayers'] else 0):
            rest.insert(r.randint(0, len(rest)), self.layer())
        return head, [nodes[0]] + rest

    def lexemes(self):
        h, n = self.statements()
        return [x for s in h + n for x in s]

    def write(self):
        return self.join(self.lexemes()) + self.gap()


BAD_PATS = ['(', ')', '[a', '*a', 'a**', '\\Qabc', '(?P<n>a', 'a{2,1}', '[z-a]', '\\8', '+', '(?<', 'x(?:', '[[:foo:]]', '(?z)']
ALL_PATS = [{'t': list(p.encode()), 'st': 'bad', 're': []} for p in BAD_PATS]


def case(text, pats, deep=0, **kw):
    if isinstance(text, str):
        text = text.encode('utf8')
    c = {'k': 'text', 'text': list(text), 'pats': pats + ALL_PATS, 'deep': deep}
    c.update(kw)
    return c


NOTAB = {'tokens': [], 'nodes': [], 'states': [], 'layers': []}


def record(c, r):
    rec = {'id': c['id'], 'text': c['text'], 'pats': c['pats'], 'deep': c['deep'], 'crash': r.get('crash', 0), 'ok': r.get('ok', 0),
           'err': r.get('err') or {'code': 0, 'line': 0, 'col': 0}, 'tab': r.get('tab') or NOTAB, 'pnew': r.get('pnew', 0)}
    rec['err'] = {k: rec['err'][k] for k in ('code', 'line', 'col')}
    return rec


# ---- descriptions ------------------------------------------------------------
def rnd_types(rng):
    ts = []
    if rng.random() < 0.7:
        ts.append(Type('sp', rng.choice([('plus', ('set', ' \n')), ('alt', ('plus', ('set', ' \n\t')), ('cat', ('lit', '//'), ('star', ('nset', '\n'))))]), side=1))
    ts.append(Type('w', rng.choice([('plus', ('set', LOWER)), ('cat', ('set', LOWER), ('star', ('set', LOWER + DIGIT))), ('alt', ('set', LOWER), ('lit', 'ab'), ('plus', ('set', 'abcde')))])))
    if rng.random() < 0.4:
        ts.append(Type('up', gram.up_re(rng), cl=1))
    ts.append(Type('op', rng.choice([('set', '+-*/()[]{}=,;|\'"\\'), ('alt', ('lit', '++'), ('set', '+-*/()[]{}=,;|"\\'))])))
    if rng.random() < 0.5:
        ts.append(Type('num', rng.choice([('plus', ('set', DIGIT)), ('cat', ('opt', ('set', '-+')), ('plus', ('set', DIGIT)))])))
    if rng.random() < 0.35:
        ts.append(Type('raw', rng.choice([('plus', ('nset', ';')), ('cat', ('nset', ';"'), ('lstar', ('nset', ';')))]), grp=1))
    if rng.random() < 0.3:
        ts.append(Type('nl', ('alt', ('lit', '\n'), ('lit', '\r\n')), grp=rng.choice([0, 1, 2])))
    if rng.random() < 0.3:
        ts.append(Type('uni', ('alt', ('lit', 'é'), ('lit', '日本')), grp=rng.choice([0, 0, 1])))
    if rng.random() < 0.2:
        odd = gram.Raw(''.join(rng.sample('\r\r\t\n\0\x7f\x0b`%\x01', rng.randint(1, 4))))
        ts.append(Type('ctl', rng.choice([('set', odd), ('plus', ('set', odd)), ('lit', odd), ('cat', ('lit', odd), ('star', ('nset', odd))),
                                          ('alt', ('lit', gram.Raw(rng.choice(['\ufeff', '\u2028', '\u00a0', '\u0085', 'a\ufeff']))), ('set', odd))]), grp=rng.choice([0, 1, 2])))
    if rng.random() < 0.25:
        ts.append(Type('sh', rng.choice([lambda: gram.shorthand(rng), lambda: ('plus', gram.shorthand(rng)),
                                         lambda: ('cat', gram.shorthand(rng), ('opt', gram.shorthand(rng)))])(), grp=rng.choice([0, 1, 2])))
    if rng.random() < 0.3:
        ts.append(Type('err', ('cat', ('set', '`~'), ('star', ('nset', '\n'))), err=1, grp=rng.choice([0, 0, 2])))
    rng.shuffle(ts)
    if rng.random() < 0.3:
        ts.append(Type('ext', ext=1, cl=rng.choice([0, 0, 1])))
        if rng.random() < 0.4:
            ts.append(Type('ext2', ext=1))
    if rng.random() < 0.1:
        rng.choice(ts).ext = 1
    if rng.random() < 0.1:
        rng.choice(ts).grp = rng.choice([1, 2, 3])
    return ts


LITS = ['a', 'b', 'c', 'ab', 'abc', '+', '-', '(', ')', '|', '"', '\\', 'de']


def description(rng):
    ts = rnd_types(rng)
    names = [t.name for t in ts if not t.side and not t.err]
    pool = LITS[:]
    if 'raw' in names and not any(t.name == 'raw' and t.cl for t in ts):
        pool += ['é', 'a b', 'x\ty', '日', 'a\nb', '#', "it's"]
    if 'uni' in names:
        pool += ['é', '日本']
    if 'nl' in names:
        pool += ['\n', '\r\n']
    if 'up' in names:
        pool += gram.up_lits(rng, [t for t in ts if t.name == 'up'][0])
    pool = rng.sample(pool, rng.randint(1, min(7, len(pool))))
    tp = rng.choice([0.1, 0.3, 0.6])

    def leaf():
        return ('type', rng.choice(names)) if rng.random() < tp else ('lit', rng.choice(pool))
    g = gram.grammar(rng, ts, leaf, rng.randint(1, 5), rng.randint(1, 4), rng.randint(2, 4), rng.choice([0.1, 0.4]), eoi_p=0.2)
    used = sorted({y[1] for _, b in g.nodes for y in gram.leaves(b) if y[0] == 'lit'})
    if rng.random() < 0.2:
        g.onlytypes = [n for n in names if n in ('w', 'op', 'up', 'uni', 'nl') or (n == 'raw' and set(used) & {'é', 'a b', 'x\ty', '日', 'a\nb', '#', "it's"})]
    if rng.random() < 0.25 and used:
        g.reserved = rng.sample(used, rng.randint(1, min(3, len(used)))) + (['zz'] if rng.random() < 0.2 and 'w' in names else [])
    if rng.random() < 0.2:
        g.onlylits = used + (['zz'] if rng.random() < 0.2 else [])
    return g
