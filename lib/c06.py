"""C06: token hooks, layer by layer (spec/Machine.tla)."""
import mach, big, small, real, harness

record = mach.record


def make(rng):
    g = mach.make_grammar(rng, nlits=rng.choice([2, 3, 4]), n_nodes=rng.randint(1, 3))
    n = rng.choice([0, 1, 2, 2, 3])
    g.layers = mach.layers_text(rng, n)
    s = mach.text_for(rng, g, rng.choice([0.6, 0.9, 1.0]))
    cfg = mach.make_cfg(rng, g, n, toks=0.85, nodes=0.3)
    if rng.random() < 0.6:
        cfg[0]['nodes'] = [{'n': '', 'm': 1}]
    return mach.case(g, mach.split_sources(rng, s, rng.choice([1, 1, 2, 3])), cfg, sides=rng.choice([0, 1]), full=rng.choice([0, 1]),
                     parses=rng.choice([1, 1, 2]))


def free(rng):
    """a grammar taking everything, so that the whole stream is seen"""
    import gram
    g = mach.make_grammar(rng, nlits=3, n_nodes=1)
    leaves = [('type', t.name) for t in g.types if not t.side and not t.err]
    lits = [('lit', p) for p in g.pool[:2]]
    body = ('rep', ('alt', leaves + lits)) if rng.random() < 0.8 else ('seq', [('rep', ('alt', leaves)), ('opt', rng.choice(leaves))])
    g.nodes = [('g', body)]
    g.reserved = []
    n = rng.choice([0, 1, 2, 3])
    g.layers = mach.layers_text(rng, n)
    words = g.pool + ['zz', '7', 'a', '+', '-']
    s = mach.glue(rng, [rng.choice(words) for _ in range(rng.randint(0, 12))], 0.8,
                  [' ', '\n'] if any(t.name == 'sp' for t in g.types) else [''])
    cfg = mach.make_cfg(rng, g, n, toks=0.9, nodes=0.1)
    cfg[0]['nodes'] = [{'n': '', 'm': 1}]
    return mach.case(g, mach.split_sources(rng, s, rng.choice([1, 1, 2, 3])), cfg, sides=rng.choice([0, 1]), full=rng.choice([0, 1]),
                     parses=rng.choice([1, 2]))


def main(chk):
    rng = chk.rng
    n = 14000 if chk.thorough else 2200
    cases = [make(rng) if rng.random() < 0.6 else free(rng) for _ in range(n)]
    cases += [c for _, c in big.add(chk, rng, hooks=True)]
    cases += [c for _, c in real.add(chk, rng)]
    # all short texts through small layers, and the closed model of them (C06, C10-C12)
    cases += small.layer_texts(rng, ('stream',), 4 if chk.thorough else 3, 8000 if chk.thorough else 700)
    mach.validate(chk, cases)
    harness.mc(chk, 'MCLayers', 'MCLayersBig' if chk.thorough else 'MCLayers', env={'CASES': small.LAYERS})
    return chk.finish(rule='random parses with token hook layers, short texts through small layers; the closed model of layers')
