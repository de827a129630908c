"""C21: errors from hooks and cancellation at every call (spec/Machine.tla)."""
import mach, big, small, real, c03, c06

record = mach.record


def nested(rng):
    """nodes in nodes, every layer hooks (nearly) every node: an error in one
    layer must not be lost in the next one"""
    while True:
        g = mach.make_grammar(rng, n_nodes=rng.randint(2, 4), node_p=0.6, depth=rng.randint(1, 3), eoi_p=0)
        if len(g.nodes) > 1:
            break
    n = rng.choice([0, 1, 1, 2, 2])
    g.layers = mach.layers_text(rng, n)
    toks = mach.sentence(rng, g, 20) or []
    has_sp = any(t.name == 'sp' for t in g.types)
    s = mach.glue(rng, toks[:20], 1 if has_sp else 0, [' ', ' ', '\n'])
    cfg = mach.make_cfg(rng, g, n, toks=0.3, nodes=1)
    for h in cfg:
        if rng.random() < 0.85:
            h['nodes'] = [{'n': '', 'm': 1}] + [x for x in h['nodes'] if x['n'] and rng.random() < 0.5]
    return mach.case(g, mach.split_sources(rng, s, rng.choice([1, 1, 2])), cfg, sides=rng.choice([0, 1]), full=rng.choice([0, 1]))


def main(chk):
    rng = chk.rng
    n = 450 if chk.thorough else 90
    most = 3000 if not chk.thorough else 16000
    base = []
    while len(base) < n:
        c = rng.choice([mach.general, nested, nested, c03.make, c06.make, c06.free])(rng)
        if sum(len(b) for b in c['ins']) <= 40:
            c['parses'] = rng.choice([1, 2])
            base.append(c)
    res = chk.run('core', [dict(c, notab=1) for c in base])
    cases = []
    for c, r in zip(base, res):
        if not r.get('ok') or not r.get('runs'):
            continue
        calls = len(r['runs'][0]['log'])
        for i in range(1, min(calls, 60) + 2):
            cases.append(dict(c, failAt=i, failKind=rng.randint(0, 4)))
            cases.append(dict(c, stopAt=i, stopKind=rng.randint(0, 1)))
            if rng.random() < 0.1:
                cases.append(dict(c, stopAt=i, failAt=i + rng.randint(0, 2)))
        cases.append(dict(c, stopAt=-1, stopKind=rng.randint(0, 2)))
    if len(cases) > most:
        cases = rng.sample(cases, most)
    large = [c for _, c in big.add(chk, rng)] + [c for _, c in real.add(chk, rng, 150)]
    for c, r in zip(large, chk.run('core', [dict(c, notab=1) for c in large])):
        if r.get('ok') and r.get('runs') and r['runs'][0]['log']:
            i = rng.randint(1, len(r['runs'][0]['log']) + 1)
            cases.append(dict(c, **(dict(failAt=i, failKind=rng.randint(0, 4)) if rng.random() < 0.5 else dict(stopAt=i, stopKind=rng.randint(0, 1)))))
    for c in small.layer_texts(rng, ('stream', 'indent', 'restrict'), 4, 3000 if chk.thorough else 350):
        i = rng.randint(1, 14)
        cases.append(dict(c, **(dict(failAt=i, failKind=rng.randint(0, 4)) if rng.random() < 0.6 else dict(stopAt=i, stopKind=rng.randint(0, 1)))))
    mach.validate(chk, cases)
    return chk.finish(rule='each hook call of random parses fails or cancels')
