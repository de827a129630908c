"""C12: the restrict layer (spec/Machine.tla, spec/LayerConfig.tla)."""
import gram, mach, layers, small
from gram import LOWER, Type


def restrict(rng, names):
    """(text, configuration) of a restrict layer"""
    node = rng.sample(names, rng.randint(1, min(3, len(names))))
    special = rng.sample(names, rng.randint(1, min(4, len(names))))
    forbid = [n for n in special if rng.random() < 0.5] or [special[0]]
    allow = [n for n in special if n not in forbid]
    cmds = [[c, a] for c, a in (('node', node), ('forbid-in', forbid), ('allow-in', allow)) if a]
    for c in list(cmds):
        if len(c[1]) > 1 and rng.random() < 0.3:
            cmds.append([c[0], c[1][1:]])
            c[1] = c[1][:1]
    rng.shuffle(cmds)
    return '@restrict %s;' % ' '.join('%s(%s)' % (c, ', '.join(a)) for c, a in cmds), dict(layers.PLAIN, kind='restrict', node=node, allow=allow, forbid=forbid)


def nested(rng):
    """nodes with brackets of their own, nested in any way"""
    g = gram.Gram()
    g.types = [Type('sp', ('plus', ('set', ' \n')), side=1), Type('w', ('plus', ('set', LOWER))), Type('op', ('set', '+-()[]{}<>'))]
    k = rng.randint(2, 6)
    names = ['n%d' % i for i in range(k)]
    words = ['a', 'b', 'c', 'd', 'e', 'f'][:k]
    g.pool = words + ['(', ')']
    amb = rng.random() < 0.25                # all nodes start alike
    nodes = [('g', ('rep', ('alt', [('node', n) for n in names])))]
    for n, w in zip(names, words):
        kids = rng.sample(names, rng.randint(1, k))
        inner = ('rep', ('alt', [('node', x) for x in kids] + [('lit', '+')]))
        head = [('lit', '('), ('lit', w)] if amb else [('lit', w), ('lit', '(')]
        nodes.append((n, ('seq', head + [inner, ('lit', ')')]) if rng.random() < 0.8 else ('seq', head + [('lit', ')')])))
    g.nodes = nodes
    seen = {'g'}
    todo = ['g']
    while todo:
        for y in gram.leaves(dict(nodes)[todo.pop()]):
            if y[0] == 'node' and y[1] not in seen:
                seen.add(y[1])
                todo.append(y[1])
    g.nodes = [(n, b) for n, b in nodes if n in seen]
    return g


def make(rng):
    if rng.random() < 0.65:
        g = nested(rng)
        t = mach.sentence(rng, g, 60) or []
        t = t[:60] if rng.random() < 0.8 else mach.mutate(rng, t, g.pool)
        s = mach.glue(rng, t, 0.3, [' ', '\n'])
    else:
        g = mach.make_grammar(rng, n_nodes=rng.randint(2, 6), node_p=0.6)
        s = mach.text_for(rng, g, rng.choice([0.6, 0.9, 1.0]))
    names = [n for n, _ in g.nodes]
    n = rng.choice([1, 1, 2, 3])
    cfg = mach.make_cfg(rng, g, n, toks=0.15, nodes=0.6, prog=False)
    text = []
    one = rng.randint(1, n)
    for i in range(1, n + 1):
        if i == one or rng.random() < 0.5:
            t, cfg[i] = restrict(rng, names)
            text.append(t)
        else:
            text.append('@lay%d;' % i)
    g.layers = ' '.join(text)
    return mach.case(g, mach.split_sources(rng, s, rng.choice([1, 1, 2])), cfg, full=rng.choice([0, 1]), sides=rng.choice([0, 1]), parses=rng.choice([1, 1, 2]))


def deep(rng, k=60):
    """the ancestor that decides is far away"""
    while True:
        g = nested(rng)
        if len(g.nodes) > 3 and all(gram.size(b) > 2 for _, b in g.nodes):
            break
    names = [n for n, _ in g.nodes]
    bodies = dict(g.nodes)
    kids = {n: [y[1] for y in gram.leaves(b) if y[0] == 'node'] for n, b in g.nodes}
    head = {n: [y[1] for y in gram.leaves(bodies[n]) if y[0] == 'lit'][:2] for n in names[1:]}
    toks, at, d = [], 'g', 0
    for _ in range(rng.randint(k // 2, k)):
        if not kids.get(at):
            break
        at = rng.choice(kids[at])
        toks += head[at]
        d += 1
    toks += [')'] * d
    t, cfg = restrict(rng, names)
    g.layers = t
    return mach.case(g, mach.split_sources(rng, mach.glue(rng, toks, 0.3, [' ', '\n']), rng.choice([1, 2])), mach.full_cfg(g) + [cfg], full=rng.choice([0, 1]), sides=rng.choice([0, 1]))


def main(chk):
    rng = chk.rng
    n = 16000 if chk.thorough else 2400
    mach.validate(chk, [make(rng) for _ in range(n)] + [deep(rng) for _ in range(n // 60)]
                  + small.layer_texts(rng, ('restrict',), 6 if chk.thorough else 4, 8000 if chk.thorough else 700))
    layers.configs(chk, 'restrict', n // 2)
    return chk.finish(rule='random restrictions in random parses; random definitions')
