"""Random grammar descriptions: an abstract description (what the
specifications read) and its text (what the real code reads)."""

# ---- regular expressions: nested tuples -------------------------------------
# ('set', 'abc') ('nset', 'abc') ('cat', x, ..) ('alt', x, ..) ('star', x) ('plus', x) ('opt', x) ('lstar', x) ('lopt', x) ('eps',)
LOWER = 'abcdefghijklmnopqrstuvwxyz'
UPPER = LOWER.upper()
DIGIT = '0123456789'


def lit(s):
    b = [('set', chr(c)) for c in s.encode('utf8')] if any(ord(c) > 127 for c in s) else [('set', c) for c in s]
    return b[0] if len(b) == 1 else ('cat',) + tuple(b)


def utf8lit(s):
    """a literal text; non-ASCII characters are kept as whole runes in the text form"""
    return ('lit', s)


def re_flat(r):
    """syntax array for Regex.tla, root first"""
    out = []

    def put(x):
        i = len(out)
        out.append(None)
        k = x[0]
        if k == 'lit':
            bs = list(x[1].encode('utf8'))
            if len(bs) == 1:
                out[i] = {'k': 'set', 's': bs, 'a': []}
            else:
                out[i] = {'k': 'cat', 's': [], 'a': [put(('byte', b)) for b in bs]}
        elif k == 'byte':
            out[i] = {'k': 'set', 's': [x[1]], 'a': []}
        elif k in ('set', 'nset'):
            out[i] = {'k': k, 's': sorted({ord(c) for c in x[1]}), 'a': []}
        elif k == 'as':
            out.pop()
            return put(x[2])
        elif k == 'eps':
            out[i] = {'k': k, 's': [], 'a': []}
        else:
            out[i] = {'k': k, 's': [], 'a': [put(y) for y in x[1:]]}
        return i + 1
    put(r)
    return out


CLS_SPECIAL = set('\\]^-[')
RE_SPECIAL = set('\\.+*?()|[]{}^$/')


class Raw(str):
    """characters of a pattern written as they are, control characters, too"""


def esc(c, cls=False, raw=False):
    if raw and c < ' ':
        return c
    if c == '\n':
        return '\\n'
    if c == '\t':
        return '\\t'
    if c == '\r':
        return '\\r'
    if c == '/':
        return '\\/'
    if (c in CLS_SPECIAL) if cls else (c in RE_SPECIAL):
        return '\\' + c
    return c


def cls(s):
    """text of a character class body"""
    raw = isinstance(s, Raw)
    cs = sorted(set(s))
    out = ''
    i = 0
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and ord(cs[j + 1]) == ord(cs[j]) + 1:
            j += 1
        if j - i >= 2:
            out += esc(cs[i], True, raw) + '-' + esc(cs[j], True, raw)
        else:
            out += ''.join(esc(c, True, raw) for c in cs[i:j + 1])
        i = j + 1
    return out


def re_text(r, prec=0):
    """RE2 text; prec 0 alternation, 1 concatenation, 2 operand of a repeat"""
    k = r[0]
    if k == 'set':
        if len(set(r[1])) == 1:
            return esc(r[1][0], False, isinstance(r[1], Raw))
        return '[' + cls(r[1]) + ']'
    if k == 'nset':
        return '[^' + cls(r[1]) + ']'
    if k == 'lit':
        t = ''.join(esc(c, False, isinstance(r[1], Raw)) for c in r[1])
        return t if len(r[1]) == 1 or prec < 2 else '(?:' + t + ')'
    if k == 'eps':
        return '(?:)'
    if k == 'as':
        return r[1] if prec < 2 or len(r[1]) < 3 else '(?:' + r[1] + ')'
    if k == 'cat':
        t = ''.join(re_text(x, 1) for x in r[1:])
        return '(?:' + t + ')' if prec == 2 else t
    if k == 'alt':
        t = '|'.join(re_text(x, 1) for x in r[1:])
        return '(?:' + t + ')' if prec else t
    op = {'star': '*', 'plus': '+', 'opt': '?', 'lstar': '*?', 'lopt': '??'}[k]
    t = re_text(r[1], 2) + op
    return '(?:' + t + ')' if prec == 2 else t


def shorthand(rng, dot=True):
    """a pattern written with other syntax elements of RE2: ('as', text, meaning)"""
    word = LOWER + UPPER + DIGIT + '_'
    a, b = rng.sample('abcx', 2)
    one = rng.choice([('lit', a), ('set', a + b)])
    t = re_text(one, 2)
    return rng.choice([
        lambda: ('as', '.', ('nset', '')) if dot else ('as', r'\d', ('set', DIGIT)),
        lambda: ('as', r'\d', ('set', DIGIT)),
        lambda: ('as', r'\w', ('set', word)),
        lambda: ('as', r'\W', ('nset', word)),
        lambda: ('as', r'\s', ('set', '\t\n\f\r ')),
        lambda: ('as', r'[[:alpha:]]', ('set', LOWER + UPPER)),
        lambda: ('as', '(?i:%s%s)' % (a, b), ('cat', ('set', a + a.upper()), ('set', b + b.upper()))),
        lambda: ('as', '(?-s:.)', ('nset', '\n')),
        lambda: ('as', '(?U:%s+)' % t, ('cat', one, ('lstar', one))),
        lambda: ('as', '(?U:%s*?)%s' % (t, b), ('cat', ('star', one), ('lit', b))),
        lambda: ('as', '%s{2}' % t, ('cat', one, one)),
        lambda: ('as', '%s{1,2}' % t, ('cat', one, ('opt', one))),
        lambda: ('as', '%s{2,}' % t, ('cat', one, ('plus', one))),
        lambda: ('as', '%s{1,2}?' % t, ('cat', one, ('lopt', one))),
        lambda: ('as', r'\Q%s+%s\E' % (a, b), ('lit', a + '+' + b)),
        lambda: ('as', r'\x%02x' % ord(a), ('lit', a)),
        lambda: ('as', r'[^\n%s]' % a, ('nset', '\n' + a)),
    ])()


# ---- descriptions -------------------------------------------------------------
def up_re(rng):
    """a pattern for caseless types: one-byte letters only, or others, too"""
    if rng.random() < 0.5:
        return ('plus', ('set', LOWER + UPPER))
    return ('plus', ('alt', ('set', LOWER + UPPER), *[('lit', c) for c in UNI]))


UNI = 'é\u00c9яЯпПÿŸıß'
UPLITS = ['A', 'IF', 'AB', 'É', 'AÉ', 'Я', 'ПЯ', 'I', 'Ÿ', 'Iß']


def up_lits(rng, t):
    """literals (in upper case) of a caseless type made by up_re"""
    return [l for l in UPLITS if l.isascii() or t.re[1][0] == 'alt']


def recase(rng, s):
    return ''.join(rng.choice([c, c, c.lower(), c.upper() if c != 'ß' else c, 'ı' if c == 'I' and rng.random() < 0.3 else c]) for c in s)


class Type:
    def __init__(self, name, re=None, side=0, err=0, ext=0, cl=0, grp=0, nolit=0):
        self.name, self.re, self.side, self.err, self.ext, self.cl, self.grp, self.nolit = name, re, side, err, ext, cl, grp, nolit


class Gram:
    def __init__(self):
        self.types = []          # Type
        self.nodes = []          # (name, ast)
        self.reserved = []       # literal texts
        self.onlylits = []       # texts listed in !literal
        self.onlytypes = []      # type names listed in !literal
        self.layers = ''         # text of layer definitions
        self.extra = ''

    def json(self):
        ns = []

        def put(x):
            i = len(ns)
            ns.append(None)
            k = x[0]
            if k in ('lit', 'type', 'node'):
                ns[i] = {'k': k, 's': x[1], 'a': []}
            elif k == 'eoi':
                ns[i] = {'k': 'eoi', 's': '', 'a': []}
            elif k in ('seq', 'alt'):
                ns[i] = {'k': k, 's': '', 'a': [put(y) for y in x[1]]}
            else:
                ns[i] = {'k': k, 's': '', 'a': [put(x[1])]}
            return i + 1
        nodes = [{'n': n, 'b': put(b)} for n, b in self.nodes]
        return {'ns': ns, 'nodes': nodes, 'types': [self.type_json(t) for t in self.types], 'rsv': list(self.reserved)}

    def type_json(self, t):
        nolit = t.nolit or (1 if self.onlytypes and t.name not in self.onlytypes else 0)
        return {'n': t.name, 're': re_flat(t.re) if t.re else [], 'side': t.side, 'err': t.err, 'ext': t.ext, 'cl': t.cl, 'grp': t.grp, 'nolit': nolit}

    def text(self):
        out = []
        for t in self.types:
            if t.re:
                out.append('$%s=/%s/;' % (t.name, re_text(t.re)))
        for d, f in (('side', 'side'), ('error', 'err'), ('extern', 'ext'), ('caseless', 'cl')):
            l = ['$' + t.name for t in self.types if getattr(t, f)]
            if l:
                out.append('!%s %s;' % (d, ' '.join(l)))
        for g in range(1, max([t.grp for t in self.types] + [0]) + 1):
            out.append('!group %s;' % ' '.join('$' + t.name for t in self.types if t.grp == g))
        if self.onlylits or self.onlytypes:
            out.append('!literal %s;' % ' '.join([quote(s) for s in self.onlylits] + ['$' + s for s in self.onlytypes]))
        if self.reserved:
            out.append('!reserved %s;' % ' '.join(quote(s) for s in self.reserved))
        if self.layers:
            out.append(self.layers)
        if self.extra:
            out.append(self.extra)
        for n, b in self.nodes:
            out.append('%s=%s;' % (n, ast_text(b)))
        return '\n'.join(out)


def quote(s):
    if "'" not in s and '\n' not in s and all(ord(c) >= 32 for c in s):
        return "'" + s + "'"
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t').replace('\r', '\\r') + '"'


def ast_text(x, prec=0):
    """prec 0: sequence, 1: item (variants allowed), 2: variant"""
    k = x[0]
    if k == 'lit':
        return quote(x[1])
    if k == 'type':
        return '$' + x[1]
    if k == 'node':
        return x[1]
    if k == 'eoi':
        return '$'
    if k == 'opt':
        return '[' + ast_text(x[1]) + ']'
    if k == 'rep':
        return '{' + ast_text(x[1]) + '}'
    if k == 'seq':
        t = ','.join(ast_text(y, 1) for y in x[1])
        return '(' + t + ')' if prec >= 1 else t
    t = '|'.join(ast_text(y, 2) for y in x[1])
    return '(' + t + ')' if prec == 2 else t


def nullable(x):
    k = x[0]
    if k in ('opt', 'rep'):
        return True
    if k == 'seq':
        return all(nullable(y) for y in x[1])
    if k == 'alt':
        return any(nullable(y) for y in x[1])
    return False


def starts_over(x):
    """does the list start with a repeat (the pattern of the listed finding)"""
    k = x[0]
    if k == 'rep':
        return True
    if k == 'opt':
        return starts_over(x[1])
    if k == 'seq':
        return starts_over(x[1][0])
    return False


def known_pattern(x):
    """an optional list that starts with a repeated list and cannot be empty
    otherwise (listed in known-findings.txt)"""
    k = x[0]
    if k in ('lit', 'type', 'node', 'eoi'):
        return False
    if k == 'opt' and starts_over(x[1]) and not nullable(x[1]):
        return True
    if k in ('seq', 'alt'):
        return any(known_pattern(y) for y in x[1])
    return known_pattern(x[1])


def leaves(x):
    if x[0] in ('seq', 'alt'):
        for y in x[1]:
            yield from leaves(y)
    elif x[0] in ('opt', 'rep'):
        yield from leaves(x[1])
    else:
        yield x


def size(x):
    return sum(1 for _ in leaves(x))


class Shape:
    """Random node bodies.  Recursion into earlier nodes is allowed only after a
    leaf that takes a token, so there is no left recursion."""

    def __init__(self, rng, leaf, depth=3, width=3, node_p=0.3, eoi_p=0.0):
        self.rng, self.leaf, self.depth, self.width, self.node_p, self.eoi_p = rng, leaf, depth, width, node_p, eoi_p

    def body(self, later, any_node):
        while True:
            self.later, self.any_node = later, any_node
            self.taken = False
            b, _ = self.item(self.depth, False)
            if not known_pattern(b):
                return b

    def atom(self, after):
        """after: a token has surely been taken before"""
        r = self.rng
        nodes = self.any_node if after else self.later
        if nodes and r.random() < self.node_p:
            return ('node', r.choice(nodes)), True
        return self.leaf(), True

    def item(self, d, after):
        r = self.rng
        x = r.random()
        if d > 0 and r.random() < 0.06:                # a list of optional items, maybe optional or repeated itself
            items = [(r.choice(['opt', 'opt', 'rep']), self.item(r.choice([0, 0, 1]), after)[0]) for _ in range(r.randint(2, 4))]
            if r.random() < 0.2:
                i = r.randrange(len(items))
                items[i] = self.atom(after)[0]
            return r.choice([('rep', ('seq', items)), ('rep', ('seq', items)), ('opt', ('seq', items)), ('seq', items)]), False
        if d <= 0 or x < 0.25:
            return self.atom(after)
        if x < 0.6:
            n = r.randint(2, self.width)
            items = []
            took = after
            for _ in range(n):
                y, t = self.item(d - 1, took)
                took = took or t
                items.append(y)
            return ('seq', items), took
        if x < 0.76:
            n = r.randint(2, self.width)
            res = [self.item(d - 1, after) for _ in range(n)]
            if r.random() < 0.85:
                uniq = {repr(a): (a, t) for a, t in res}
                res = list(uniq.values())
                if len(res) == 1:
                    return res[0]
            return ('alt', [a for a, _ in res]), all(t for _, t in res)
        if x < 0.88:
            y, _ = self.item(d - 1, after)
            return ('opt', y), False
        y, _ = self.item(d - 1, after)
        return ('rep', y), False


def normalize(x):
    """drops nested sequences/alternatives that the text form would flatten"""
    k = x[0]
    if k in ('seq', 'alt'):
        return (k, [normalize(y) for y in x[1]])
    if k in ('opt', 'rep'):
        return (k, normalize(x[1]))
    return x


def grammar(rng, types, leaf, n_nodes=3, depth=3, width=3, node_p=0.35, eoi_p=0.0):
    """A grammar with the given types whose leaves come from leaf()."""
    g = Gram()
    g.types = types
    names = ['g'] + ['n%d' % i for i in range(1, n_nodes)]
    sh = Shape(rng, leaf, depth, width, node_p)
    bodies = {}
    for i in range(n_nodes):
        bodies[names[i]] = sh.body(names[i + 1:], names[1:])
    # keep reachable ones only
    todo, seen = ['g'], []
    while todo:
        n = todo.pop(0)
        if n in seen:
            continue
        seen.append(n)
        todo += [y[1] for y in leaves(bodies[n]) if y[0] == 'node']
    g.nodes = [(n, bodies[n]) for n in names if n in seen]
    if eoi_p and rng.random() < eoi_p:
        n, b = g.nodes[0]
        if rng.random() < 0.5:
            tail = ('eoi',)
        else:
            tail = ('alt', [leaf(), ('eoi',)])
        nb = ('seq', (b[1] if b[0] == 'seq' else [b]) + [tail])
        if not known_pattern(nb):
            g.nodes[0] = (n, nb)
    return g


def case(g, **kw):
    c = {'k': 'lang', 'src': g.text(), 'g': g.json()}
    c.update(kw)
    return c
