"""C14: walkers, navigation, selectors (spec/Tree.tla)."""
import itertools
import harness
import treegen as tg


def shapes(n):
    """All ordered trees of n elements as parent lists (element 1 is the root)."""
    def go(k, par):
        if k > n:
            yield par
            return
        # in preorder the parent of k is an element on the rightmost path
        x = k - 1
        while x:
            yield from go(k + 1, par + [x])
            x = par[x - 1]
    yield from go(2, [0])


def main(chk):
    rng = chk.rng
    harness.mc(chk, 'MCTree', 'MCTree')
    cases = []
    # every small tree, every assignment of leaves, every start, all skip flags
    for n in range(1, (7 if chk.thorough else 6)):
        for par in shapes(n):
            inner = {p for p in par if p}
            for leaf in ([0, 1] if n < 6 else [0]):
                e = [{'n': 1 if (i + 1 in inner or i == 0 or (leaf and i % 2)) else 0, 't': tg.NAMES[i % 3], 'x': tg.TEXTS[i % 3]} for i in range(n)]
                ops = [{'o': 'child', 'a': [par[i], i + 1]} for i in range(1, n)]
                for s in range(1, n + 1):
                    ops.append({'o': 'nav', 'a': [s]})
                    for m in (0, 1):
                        ops.append({'o': 'next', 'a': [s, m], 'f': [0] * (n + 2)})
                for m in (0, 1):
                    if n <= 5:
                        for pos in range(n):
                            for fl in (1, 2, 4, 6):
                                f = [0] * (n + 2)
                                f[pos + 1] = fl
                                ops.append({'o': 'step', 'a': [1, m], 'f': f})
                                ops.append({'o': 'walk', 'a': [1, m], 'f': f[1:]})
                        for i, j in itertools.combinations(range(1, n + 1), 2):
                            f = [0] * (n + 2)
                            f[i] = rng.choice([2, 4, 6])
                            f[j] = rng.choice([2, 4, 6])
                            ops.append({'o': 'step', 'a': [1, m], 'f': f})
                cases.append({'k': 'tree', 'elems': e, 'ops': ops})
    chk.extra['small_trees'] = len(cases)
    for i in range(12000 if chk.thorough else 2000):
        e = tg.elems(rng, rng.randint(2, 14), rng.choice([0.3, 0.5, 0.8]))
        f = tg.Forest(e)
        ops = tg.build(rng, f, rng.choice([0, 0, 0.15]))
        ops += [tg.query(rng, f) for _ in range(15)]
        for j in range(rng.choice([0, 0, 2])):
            ops.append(tg.rnd_edit(rng, f, nil=0))
            ops += [tg.query(rng, f) for _ in range(4)]
        cases.append({'k': 'tree', 'elems': e, 'ops': ops})
    for i in range(120 if chk.thorough else 12):
        e = tg.elems(rng, rng.randint(60, 130), rng.choice([0.1, 0.5, 0.95]))
        f = tg.Forest(e)
        ops = tg.build(rng, f, 0, rng.choice([0.5, 0.98, 0.02]))
        ops += [tg.query(rng, f) for _ in range(20)]
        cases.append({'k': 'tree', 'elems': e, 'ops': ops})
    chk.validate('core', 'TreeTrace', cases)
    return chk.finish(rule='all tree shapes up to %d elements with all single skip flags; random trees, walks and selector expressions' % (6 if chk.thorough else 5))
