"""C13: tree editing (spec/Tree.tla)."""
import harness
import treegen as tg


def main(chk):
    rng = chk.rng
    cases = []
    paths = harness.mc_paths(chk, 'MCTree', 'MCTree')
    el = [{'n': 1, 't': 'a', 'x': ''}, {'n': 1, 't': 'b', 'x': ''}, {'n': 0, 't': 'c', 'x': 'x'}, {'n': 0, 't': 'c', 'x': 'y'}]
    cases += [{'k': 'tree', 'elems': el, 'ops': p['path']} for p in paths]
    if chk.thorough:
        paths = harness.mc_paths(chk, 'MCTree', 'MCTreeBig', limit=150000)
        el = [{'n': 1, 't': 'a', 'x': ''}] * 3 + [{'n': 0, 't': 'c', 'x': 'x'}] * 2
        cases += [{'k': 'tree', 'elems': el, 'ops': p['path']} for p in paths]
    chk.extra['model_transitions_replayed'] = len(cases)
    for i in range(20000 if chk.thorough else 2500):
        e = tg.elems(rng, rng.randint(2, 12), rng.choice([0.3, 0.6, 0.9]))
        f = tg.Forest(e)
        ops = tg.build(rng, f, rng.choice([0, 0, 0.2, 0.6])) if rng.random() < 0.8 else []
        ops += [tg.rnd_edit(rng, f) for _ in range(rng.randint(3, 25))]
        cases.append({'k': 'tree', 'elems': e, 'ops': ops})
    for i in range(120 if chk.thorough else 12):
        e = tg.elems(rng, rng.randint(60, 130), rng.choice([0.1, 0.5, 0.95]))
        f = tg.Forest(e)
        ops = tg.build(rng, f, rng.choice([0, 0.1]), rng.choice([0.5, 0.98, 0.02]))
        ops += [tg.rnd_edit(rng, f) for _ in range(30)]
        cases.append({'k': 'tree', 'elems': e, 'ops': ops})
    chk.validate('core', 'TreeTrace', cases)
    return chk.finish(rule='every transition of MCTree replayed (every forest of 4 elements, every edit); random edit histories on up to 12 elements')
