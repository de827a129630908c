"""C17: broken and odd descriptions (spec/LangText.tla)."""
import gram, langtext
from gram import Type
from langtext import Writer, description, record, NAMES, BAD_PATS

FRESH = ['q0', 'q1', 'zz-top', 'Undef']


def put_leaf(rng, x, new, front=False):
    """the body with a leaf replaced (the first one it can start with if front)"""
    k = x[0]
    if k in ('seq', 'alt'):
        xs = list(x[1])
        i = rng.randrange(len(xs))
        if front and k == 'seq':
            i = 0
            while i + 1 < len(xs) and gram.nullable(xs[i]) and rng.random() < 0.6:
                i += 1
        xs[i] = put_leaf(rng, xs[i], new, front)
        return (k, xs)
    if k in ('opt', 'rep'):
        return (k, put_leaf(rng, x[1], new, front))
    return new(x)


def break_gram(rng, g):
    """breaks (perhaps) a rule about nodes, types or literals"""
    names = [n for n, _ in g.nodes]
    i = rng.randrange(len(g.nodes))
    n, b = g.nodes[i]
    x = rng.random()
    if x < 0.12:                                      # unknown node
        g.nodes[i] = (n, put_leaf(rng, b, lambda y: ('node', rng.choice(FRESH))))
    elif x < 0.24:                                    # unused nodes, maybe using each other
        f = rng.sample(FRESH, rng.choice([1, 1, 2]))
        for k, m in enumerate(f):
            g.nodes.insert(rng.randint(1, len(g.nodes)), (m, ('seq', [('lit', 'a'), ('node', f[k - 1])]) if rng.random() < 0.5 else b))
    elif x < 0.42:                                    # left recursion
        g.nodes[i] = (n, put_leaf(rng, b, lambda y: ('node', rng.choice(names)), True))
    elif x < 0.52:                                    # cycles with nothing to start with
        m = rng.sample(FRESH, rng.choice([1, 2, 3]))
        for k, q in enumerate(m):
            body = ('node', m[k - 1])
            if rng.random() < 0.5:
                body = ('seq', [body, rng.choice([('lit', 'a'), ('node', q), ('opt', ('lit', 'b'))])])
            if rng.random() < 0.3:
                body = (rng.choice(['opt', 'rep']), body)
            if rng.random() < 0.3:
                body = ('alt', [body, rng.choice([('lit', 'a'), ('eoi',), ('node', rng.choice(m))])])
            g.nodes.append((q, body))
        g.nodes[i] = (n, put_leaf(rng, b, lambda y: rng.choice([('node', m[0]), ('alt', [y, ('node', m[0])])])))
    elif x < 0.6:                                     # wrong types in nodes
        ts = [t.name for t in g.types if t.side or t.err] + ['nope', '']
        g.nodes[i] = (n, put_leaf(rng, b, lambda y: ('type', rng.choice(ts))))
    elif x < 0.7:                                     # literals without a type
        l = rng.choice(['', ' ', '?', 'if', 'A1', 'é', '~', '`x', 'aB', '99', 'a+', '++', 'IF'])
        g.nodes[i] = (n, put_leaf(rng, b, lambda y: ('lit', l)))
        if rng.random() < 0.3:
            g.reserved = g.reserved + [l]
    elif x < 0.78:                                    # literals that are not allowed
        used = sorted({y[1] for _, c in g.nodes for y in gram.leaves(c) if y[0] == 'lit'})
        g.onlylits = rng.sample(used, rng.randint(0, len(used))) + ['zz']
        if rng.random() < 0.3:
            g.reserved = rng.sample(used, rng.randint(0, min(2, len(used))))
    elif x < 0.86:                                    # literal types
        g.onlytypes = [t.name for t in g.types if rng.random() < 0.3] or [g.types[0].name]
    elif x < 0.93:
        t = rng.choice(g.types)
        t.side, t.err, t.ext, t.cl = (rng.choice([0, 1]) for _ in range(4))
    else:
        g.nodes.append(rng.choice([(n, b), (g.nodes[0][0], ('lit', 'a'))]))


def break_text(rng, w, head, nodes):
    """breaks (perhaps) a rule about statements of the head; lists of lexemes"""
    types = [s[0] for s in head if s[0][:1] == '$' and s[0][:2] != '$$']
    tpls = [s[0] for s in head if s[0][:2] == '$$']
    T = lambda: rng.choice(types) if types and rng.random() < 0.7 else rng.choice(['$nope', '$', '$ext', '$q0'])
    at = lambda: rng.randint(0, len(head))
    x = rng.random()
    if x < 0.1:
        head.insert(at(), rng.choice([s for s in head]) if head else ['$a', '=', '/a/', ';'])       # any statement twice
    elif x < 0.2:
        head.insert(at(), [T(), '=', '/x/', ';'])
    elif x < 0.32:
        p = rng.choice(BAD_PATS)
        head.insert(at(), [rng.choice(['$q1', '$$q1']), '=', '/' + p + '/', ';'])
    elif x < 0.4:
        p = rng.choice(BAD_PATS)
        k = rng.randrange(1, len(p) + 1)
        head.insert(at(), ['$q1', '='] + ['/' + y + '/' for y in langtext_cut(p, k)] + [';'])
    elif x < 0.55:
        n = rng.choice([1, 1, 2])
        for _ in range(n):
            head.insert(at(), ['!group'] + [T() for _ in range(rng.randint(0, 3))] + [';'])
    elif x < 0.65:
        head.insert(at(), ['!' + rng.choice(['side', 'error', 'extern', 'caseless', 'literal'])] + [T() for _ in range(rng.randint(0, 2))] + [';'])
    elif x < 0.72:
        head.insert(at(), ['!' + rng.choice(['foo', 'groups', 'sid', 'x', 'literals'])] + ([T()] if rng.random() < 0.5 else []) + [';'])
    elif x < 0.82:
        head.insert(at(), [rng.choice(['$q1', '$$q1']), '=', rng.choice(NAMES + [t[2:] for t in tpls]), ';'])
    elif x < 0.9:
        n = rng.choice([50, 58, 59, 60, 61, 62, 63, 64, 66])
        k = rng.randint(0, 3)
        for i in range(n - len(types) - k):
            head.append(['$u%d' % i, '=', '/' + 'a' + '/', ';'])
        if k:
            head.insert(at(), ['!' + rng.choice(['extern', 'extern', 'side'])] + ['$v%d' % i for i in range(k)] + [';'])
    elif x < 0.95:
        s = rng.choice(['"\\q"', '"\\x4"', '"\\xg0"', '"\\u12"', '"\\uD800"', '"\\uDFFFa"', '"\\U00110000"', '"\\U0010FFFF"', '"\\UFFFFFFFF"', '"\\U000000410"', '"\\é"', '"\\', "'\n'", '"\n"', '"\\\n"', '"\\x\\"41"'])
        if rng.random() < 0.5:                            # an escape with odd digits
            k, n = rng.choice([('x', 2), ('x', 2), ('u', 4), ('U', 8)])
            ds = [rng.choice('0004') if k == 'U' else rng.choice('00127aAfF') for _ in range(n)]
            if rng.random() < 0.7:
                ds[rng.choice([0, 0, rng.randrange(n), n - 1])] = rng.choice('+- _.xgG@`/:')
            s = '"' + rng.choice(['', 'a', '\\\\']) + '\\' + k + ''.join(ds) + rng.choice(['', 'b', '1']) + '"'
        y = rng.random()
        if y < 0.4:
            head.insert(at(), ['!' + rng.choice(['literal', 'reserved']), s, ';'])
        elif y < 0.7:
            head.insert(at(), ['@', 'x', 'c', '('] + (['a', ','] if rng.random() < 0.5 else []) + [s] + ([',', 'b'] if rng.random() < 0.3 else []) + [')', ';'])
        else:
            nodes[0][2:-1] = nodes[0][2:-1] + [',', s]
    else:
        nodes.insert(rng.randint(0, len(nodes)), rng.choice(head) if head else ['!side', ';'])


def langtext_cut(p, k):
    if k <= 0 or k >= len(p) or p[k - 1] == '\\':
        return [p]
    return [p[:k], p[k:]]


SOUP = ["'a'", '"b"', 'x', 'g', 'y-1', '!side', '!group', '!literal', '!x', '$$t', '$t', '$', '/a/', '/[b]+/', '(', ')', '{', '}', '[', ']', '=', '|', ',', ';', '@',
        '"\\x41"', '"\\u0041"', '"\\q"', '"', "'", '!', '/', '//', '#\n', '?', '\\', '*', '1', 'é', '\n', ' ', '\t', '\f', '\v', '-', '$$', '"\\"', '\\"', '.', '%', '<', '\0']


def mutate_tokens(rng, toks):
    toks = list(toks)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randrange(len(toks)) if toks else 0
        x = rng.random()
        if x < 0.25 and toks:
            del toks[i]
        elif x < 0.45:
            toks.insert(i, rng.choice(SOUP[:28]))
        elif x < 0.6 and toks:
            toks[i] = rng.choice(SOUP[:28] + toks)
        elif x < 0.7 and toks:
            toks.insert(i, toks[i])
        elif x < 0.8 and toks:
            j = rng.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif x < 0.9:
            toks = toks[:i]
        elif toks:
            toks.insert(rng.randrange(len(toks)), toks[i])
    return toks


def mutate_bytes(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        i = rng.randint(0, len(b))
        x = rng.random()
        if x < 0.3 and i < len(b):
            del b[i]
        elif x < 0.6:
            b[i:i] = rng.choice(SOUP).encode('utf8')
        elif x < 0.75 and i < len(b):
            b[i] = rng.choice([rng.randrange(256), rng.randrange(32, 127)])
        elif x < 0.9:
            b = b[:i]
        else:
            j = rng.randint(i, min(len(b), i + 12))
            b[i:j] = b''
    return bytes(b)


def small(rng):
    """tiny descriptions that break the node rules in many ways"""
    names = ['g', 'a', 'b', 'c'][:rng.randint(1, 4)]

    def item(d):
        x = rng.random()
        if d <= 0 or x < 0.5:
            return rng.choice(names + ["'x'", "'y'", '$w', '$'] + (['u'] if rng.random() < 0.05 else []))
        if x < 0.62:
            return '[' + item(d - 1) + ']'
        if x < 0.72:
            return '{' + item(d - 1) + '}'
        if x < 0.87:
            return '(' + ','.join(item(d - 1) for _ in range(rng.randint(1, 3))) + ')'
        return '(' + '|'.join(item(d - 1) for _ in range(rng.randint(1, 3))) + ')'
    out = '$w=/[a-z]/;'
    for n in names:
        out += n + '=' + item(3) + (',' + item(2) if rng.random() < 0.4 else '') + ';'
    return langtext.case(out, [{'t': list(b'[a-z]'), 'st': 'ok', 're': gram.re_flat(('set', gram.LOWER))}])


def big(rng):
    """long chains and deep nesting: nothing may take for ever"""
    pats = [{'t': [97 + i], 'st': 'ok', 're': gram.re_flat(('set', chr(97 + i)))} for i in range(6)]
    head = ''.join('$%s=/%s/;' % (c, c) for c in 'abcdef')
    n = rng.randint(12, 30)
    x = rng.random()
    leaves = ['$' + c for c in 'abcdef']
    if x < 0.5:
        names = ['n%d' % i for i in range(n)]
        rng.shuffle(names)
        s = ''
        for i in range(n):
            nxt = rng.sample(range(i + 1, n), min(n - 1 - i, rng.choice([1, 2, 3])))
            if i + 1 < n:
                nxt = list({i + 1, *nxt})
            if rng.random() < 0.02:
                nxt.append(rng.randrange(n))
            vs = [names[j] for j in nxt] + rng.sample(leaves, rng.randint(1, 6))
            rng.shuffle(vs)
            s += names[i] + '=' + rng.choice(['|'.join(vs), '[' + '|'.join(vs) + '],$a', '{' + ','.join(vs[:3]) + '},' + '|'.join(vs)]) + ';'
        return langtext.case(head + s, pats)
    if x < 0.75:
        o, c = rng.choice(['()', '[]', '{}', '{}'])
        a = rng.choice(leaves) + ',' if rng.random() < 0.5 else ''
        z = rng.choice([',', '|']) + rng.choice(leaves) if rng.random() < 0.5 else ''
        k = n if rng.random() < 0.85 else rng.randint(0, 2)
        return langtext.case(head + 'g=' + (o + a) * n + '$f' + (z + c) * k + ';', pats)
    items = [rng.choice(['[%s]', '{%s}', '%s', '(%s)']) % rng.choice(leaves) for _ in range(n * 2)]
    return langtext.case(head + 'g=' + rng.choice([',', '|']).join(items) + ';', pats)


def make(rng):
    x = rng.random()
    if x < 0.22:
        return small(rng)
    if x < 0.25:
        return big(rng)
    if x < 0.3:
        return langtext.case(''.join(rng.choice(SOUP) + rng.choice(['', '', ' ']) for _ in range(rng.randint(0, 25))), [])
    if x < 0.32:
        return langtext.case(bytes(rng.randrange(256) for _ in range(rng.randint(0, 30))), [])
    g = description(rng)
    if x < 0.6:
        for _ in range(rng.choice([1, 1, 1, 2])):
            break_gram(rng, g)
    w = Writer(rng, g)
    head, nodes = w.statements()
    if 0.6 <= x < 0.8 or rng.random() < 0.05:
        for _ in range(rng.choice([1, 1, 1, 2])):
            break_text(rng, w, head, nodes)
    toks = [t for s in head + nodes for t in s]
    if 0.8 <= x < 0.9:
        toks = mutate_tokens(rng, toks)
    b = (w.join(toks) + w.gap()).encode('utf8')
    if x >= 0.9:
        b = mutate_bytes(rng, b)
    if len(b) > 2500:
        return make(rng)
    return langtext.case(b, w.pats)


def main(chk):
    rng = chk.rng
    n = 60000 if chk.thorough else 8000
    chk.validate('core', 'LangTextTrace', [make(rng) for _ in range(n)], record=record, timeout=5, batch=5000)
    return chk.finish(rule='random descriptions with random rules broken, mutated lexemes and bytes, garbage, long and deep ones')
