"""Descriptions as people write them (lib/real/*.llx: those of the repository's examples and others of the
same kind), read by a small reader of their own, and texts for them."""
import glob, os
import gram, mach
from gram import Type

DIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'real')
ALL = ''.join(chr(i) for i in range(128))
SHORT = {'d': gram.DIGIT, 'w': gram.LOWER + gram.UPPER + gram.DIGIT + '_', 's': '\t\n\f\r '}


class Pattern:
    """RE2 text -> pattern term"""
    def __init__(self, s):
        self.s, self.p = s, 0
        self.term = self.alts()
        assert self.p == len(s), (s, self.p)

    def peek(self, t):
        return self.s.startswith(t, self.p)

    def eat(self, t):
        if self.peek(t):
            self.p += len(t)
            return True

    def alts(self):
        xs = [self.cat()]
        while self.eat('|'):
            xs.append(self.cat())
        return xs[0] if len(xs) == 1 else ('alt', *xs)

    def cat(self):
        xs = []
        while self.p < len(self.s) and self.s[self.p] not in '|)':
            xs.append(self.rep())
        return ('eps',) if not xs else xs[0] if len(xs) == 1 else ('cat', *xs)

    def rep(self):
        x = self.atom()
        while self.p < len(self.s):
            if self.eat('*?'):
                x = ('lstar', x)
            elif self.eat('+?'):
                x = ('cat', x, ('lstar', x))
            elif self.eat('??'):
                x = ('lopt', x)
            elif self.eat('*'):
                x = ('star', x)
            elif self.eat('+'):
                x = ('plus', x)
            elif self.eat('?'):
                x = ('opt', x)
            elif self.peek('{') and self.s[self.p + 1].isdigit():
                e = self.s.index('}', self.p)
                n = int(self.s[self.p + 1:e])
                self.p = e + 1
                x = ('cat', *[x] * n)
            else:
                break
        return x

    def escape(self):
        """set of characters of an escape (after the backslash), True if negated"""
        c = self.s[self.p]
        self.p += 1
        if c in SHORT:
            return set(SHORT[c]), False
        if c.lower() in SHORT:
            return set(SHORT[c.lower()]), True
        if c == 'x':
            if self.eat('{'):
                e = self.s.index('}', self.p)
                n = int(self.s[self.p:e], 16)
                self.p = e + 1
            else:
                n = int(self.s[self.p:self.p + 2], 16)
                self.p += 2
            return {chr(n)}, False
        return {{'n': '\n', 't': '\t', 'r': '\r', 'f': '\f'}.get(c, c)}, False

    def atom(self):
        s = self.s
        if self.eat('(?:'):
            x = self.alts()
            assert self.eat(')')
            return x
        if self.eat('['):
            neg = self.eat('^')
            cs, far, first = set(), False, True
            while first or not self.peek(']'):
                first = False
                lo = self.member()
                if len(lo) == 1 and self.peek('-') and s[self.p + 1] != ']':
                    self.p += 1
                    a, b = ord(min(lo)), ord(min(self.member()))
                    if b > 127:
                        assert b == 0x10ffff
                        far, b = True, 127
                    cs |= {chr(i) for i in range(a, b + 1)}
                else:
                    cs |= lo
            self.p += 1
            if far:
                assert not neg
                return ('nset', ''.join(sorted(set(ALL) - cs)))
            return ('nset' if neg else 'set', ''.join(sorted(cs)))
        if self.eat('.'):
            return ('nset', '')
        if self.eat('\\'):
            cs, neg = self.escape()
            return ('nset' if neg else 'set', ''.join(sorted(cs)))
        c = s[self.p]
        assert c not in '()*+?$^', s
        self.p += 1
        return ('set', c)

    def member(self):
        if self.eat('\\'):
            cs, neg = self.escape()
            assert not neg
            return cs
        self.p += 1
        return {self.s[self.p - 1]}


class Reader:
    """text of a description -> gram.Gram; knows no rule of the language beyond its syntax"""
    def __init__(self, text):
        self.toks = []
        i = 0
        while i < len(text):
            c = text[i]
            if c.isspace():
                i += 1
            elif c == '#':
                while i < len(text) and text[i] != '\n':
                    i += 1
            elif c in '"\'':
                e = text.index(c, i + 1)
                assert '\\' not in text[i:e]
                self.toks.append((c, text[i + 1:e]))
                i = e + 1
            elif c == '/':
                e = i + 1
                while text[e] != '/':
                    e += 2 if text[e] == '\\' else 1
                self.toks.append(('/', text[i + 1:e]))
                i = e + 1
            elif c in '!$' or c.isalpha():
                e = i
                while e < len(text) and text[e] in '!$':
                    e += 1
                k = text[i:e]
                b = e
                while e < len(text) and (text[e].isalnum() or text[e] in '_-'):
                    e += 1
                self.toks.append((k, text[b:e]))
                i = e
            else:
                self.toks.append((c, c))
                i += 1
        g = gram.Gram()
        types, tpls, order, dirs, groups = {}, {}, [], [], 0
        self.p = 0
        while self.p < len(self.toks):
            k, s = self.next()
            if k == '!':
                ns = []
                while self.peek()[0] != ';':
                    ns.append(self.next())
                self.next()
                dirs.append((s, ns))
                order += [n for t, n in ns if t == '$' and n not in order]
            elif k in ('$', '$$'):
                assert self.next()[0] == '='
                re = ''
                while self.peek()[0] != ';':
                    t, x = self.next()
                    re += x if t == '/' else tpls[x]
                self.next()
                if k == '$$':
                    tpls[s] = re
                else:
                    types[s] = Type(s, ('as', re, Pattern(re).term))
            else:
                assert k == '', (k, s)
                assert self.next()[0] == '='
                b = self.seq()
                assert self.next()[0] == ';'
                g.nodes.append((s, b))
        g.types = list(types.values())
        for d, ns in dirs:
            if d == 'group':
                groups += 1
            for t, n in ns:
                if d == 'literal' and t == '$':
                    g.onlytypes.append(n)
                elif d == 'literal':
                    g.onlylits.append(n)
                elif d == 'reserved':
                    g.reserved.append(n)
                elif d == 'group':
                    types[n].grp = groups
                else:
                    setattr(types[n], {'side': 'side', 'error': 'err', 'caseless': 'cl'}[d], 1)
        g.pool = sorted({y[1] for _, b in g.nodes for y in gram.leaves(b) if y[0] == 'lit'}) or ['a']
        self.g = g

    def next(self):
        self.p += 1
        return self.toks[self.p - 1]

    def peek(self):
        return self.toks[self.p]

    def seq(self):
        xs = [self.alt()]
        while self.peek()[0] == ',':
            self.next()
            xs.append(self.alt())
        return xs[0] if len(xs) == 1 else ('seq', xs)

    def alt(self):
        xs = [self.item()]
        while self.peek()[0] == '|':
            self.next()
            xs.append(self.item())
        return xs[0] if len(xs) == 1 else ('alt', xs)

    def item(self):
        k, s = self.next()
        if k in '([{' and k:
            x = self.seq()
            assert self.next()[0] == {'(': ')', '[': ']', '{': '}'}[k]
            return {'(': x, '[': ('opt', x), '{': ('rep', x)}[k]
        if k in ('"', "'"):
            return ('lit', s)
        if k == '$':
            return ('type', s) if s else ('eoi',)
        assert k == '', (k, s)
        return ('node', s)


def load():
    res = []
    for f in sorted(glob.glob(os.path.join(DIR, '*.llx'))):
        with open(f) as fh:
            text = fh.read()
        g = Reader(text).g
        g.name = os.path.basename(f)[:-4]
        g.text = lambda g=g, text=text: (g.layers + '\n' if g.layers else '') + text
        res.append(g)
    return res


SEPS = {'toml': [' ', ' ', '\t', ' # x\n', '\n'], 'conf': [' ', ' ', '\n', ' #c\n'], 'xml': ['', '', ' ', ' <!-- - -->'], 'makefile': [' ', ' ', '\\\n', '\n', ' #c\n'],
        'pascal': [' ', ' ', '\n', '{}', '(* *)'], 'lisp': [' ', '\n', ';x\n'], 'cdata': [' ', '\n ', '/**/'], 'ebnf': [' ', '\n', '#\n'], 'cdata': [' ', '\n\t']}
SEP = {'toml': 0.15, 'conf': 0.2, 'xml': 0.1, 'makefile': 0.5, 'json': 0.3, 'calc': 0.3}


def some(rng, gs, most=14):
    """a description and a text for it"""
    g = rng.choice(gs)
    toks = None
    for _ in range(30):
        toks = mach.sentence(rng, g, 3 * most)
        if toks is not None and 0 < len(toks) <= most:
            break
    toks = (toks or [])[:most]
    for i, t in enumerate(toks):
        if any(x.cl for x in g.types) and rng.random() < 0.5:
            toks[i] = t.lower()
    if g.name == 'sql' or g.name == 'pascal':
        sep = 1
    else:
        sep = SEP.get(g.name, 0.6)
    if rng.random() < 0.5:
        toks = mach.mutate(rng, toks, g.pool + ['zz', '7', '\n', '"'])
    s = mach.glue(rng, toks, sep, SEPS.get(g.name, [' ', ' ', '\n']))
    if rng.random() < 0.04 and s:
        i = rng.randrange(len(s))
        s = s[:i] + rng.choice(['!', '"', 'é', '\\', '\t', '<', "'"]) + s[i:]
    return g, s


def cases(rng, n, layers=None, hooks=True, **kw):
    """(description, case of the machine)"""
    gs = load()
    for _ in range(n):
        g, s = some(rng, gs)
        k = (rng.choice([0, 0, 1, 2]) if layers is None else layers)
        g.layers = mach.layers_text(rng, k)
        opts = dict(sides=rng.choice([0, 1]), full=rng.choice([0, 0, 1]), parses=rng.choice([1, 1, 2]))
        opts.update(kw)
        yield g, mach.case(g, mach.split_sources(rng, s, rng.choice([1, 1, 1, 2, 3])), mach.make_cfg(rng, g, k) if hooks else mach.full_cfg(g), **opts)
        g.layers = ''


def add(chk, rng, quick=200, thorough=2500, **kw):
    """the cases of a check"""
    return cases(rng, thorough if chk.thorough else quick, **kw)
