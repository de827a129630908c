"""C11: the convert layer (spec/Machine.tla, spec/LayerConfig.tla)."""
import gram, mach, layers, small


def quote(s):
    return "'" + s + "'"


def convert(rng, g, k=4):
    """(text, configuration) of a convert layer"""
    names = [t.name for t in g.types if not t.err]
    words = g.pool + ['zz', '7', 'a', 'b', '+', '-', ' ', 'ab']
    froms = sorted({rng.choice(words) for _ in range(rng.randint(1, k))} | ({a + b for a in 'abcdefgh' for b in 'abcdefgh'} if k > 4 else set()))
    rng.shuffle(froms)
    pairs = [(f, rng.choice(words + ['new', 'x y'])) for f in froms]
    cfg = dict(layers.PLAIN, kind='convert', save=0, map=[{'f': list(f.encode()), 't': list(t.encode())} for f, t in pairs])
    cfg['in'], cfg['out'] = '', ''
    k = rng.randint(1, len(pairs))
    cmds = ['convert(%s)' % ', '.join(quote(x) for p in ps for x in p) for ps in (pairs[:k], pairs[k:]) if ps]
    if rng.random() < 0.5:
        cfg['in'] = rng.choice(names)
        cmds.append('input-type(%s)' % cfg['in'])
    if rng.random() < 0.5:
        cfg['out'] = rng.choice(names)
        cmds.append('output-type(%s)' % cfg['out'])
    for _ in range(rng.choice([0, 1, 1, 2])):
        cfg['save'] = 1
        cmds.append('save-position()')
    rng.shuffle(cmds)
    return '@convert %s;' % ' '.join(cmds), cfg


def make(rng, k=1):
    if rng.random() < 0.6:                   # the whole stream is seen
        g = mach.make_grammar(rng, nlits=rng.choice([2, 3, 4]), n_nodes=1)
        g.nodes = [('g', layers.take_all(g.types))]
        if rng.random() < 0.5:
            g.nodes = [('g', ('rep', ('alt', list(g.nodes[0][1][1][1]) + [('lit', p) for p in rng.sample(g.pool, 1)])))]
        g.reserved = []
        words = g.pool + ['zz', '7', 'a', '+', '-'] + (['ab', 'bc', 'hh', 'gd'] if k > 1 else [])
        s = mach.glue(rng, [rng.choice(words) for _ in range(rng.randint(0, 14 * k))], 0.8, [' ', '\n', '  '] if any(t.name == 'sp' for t in g.types) else [''])
    else:
        g = mach.make_grammar(rng, nlits=rng.choice([2, 3, 4]), n_nodes=rng.randint(1, 3))
        s = mach.text_for(rng, g, rng.choice([0.6, 0.9, 1.0]))
    n = rng.choice([1, 1, 2, 3])
    cfg = mach.make_cfg(rng, g, n, toks=0.5, nodes=0.4, prog=rng.random() < 0.5)
    text = []
    one = rng.randint(1, n)
    for i in range(1, n + 1):
        if i == one or rng.random() < 0.5:
            t, cfg[i] = convert(rng, g, 4 * k)
            text.append(t)
        else:
            text.append('@lay%d;' % i)
    if rng.random() < 0.8:
        cfg[0]['toks'] = sorted(set(cfg[0]['toks'] + ['']))
        cfg[0]['nodes'] = [{'n': '', 'm': 1}]
    g.layers = ' '.join(text)
    return mach.case(g, mach.split_sources(rng, s, rng.choice([1, 1, 2, 3])), cfg, full=rng.choice([0, 1]), sides=rng.choice([0, 1]), parses=rng.choice([1, 1, 2]))


def main(chk):
    rng = chk.rng
    n = 16000 if chk.thorough else 2400
    mach.validate(chk, [make(rng) for _ in range(n)] + [make(rng, 8) for _ in range(n // 60)]
                  + small.layer_texts(rng, ('stream',), 4 if chk.thorough else 3, 8000 if chk.thorough else 900, only='@convert'))
    layers.configs(chk, 'convert', n // 2)
    return chk.finish(rule='random conversions in random parses; random definitions')
