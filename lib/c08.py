"""C08: lines and columns (spec/LineCol.tla)."""
import itertools
import harness

ALPHA = [97, 10, 13, 195, 169, 226, 130, 172, 240, 159, 152, 128, 237, 160, 0, 255]


def text(rng, n, pool):
    out = []
    while len(out) < n:
        x = rng.random()
        if x < 0.25:
            out.append(10)
        elif x < 0.35:
            out += rng.choice([[13], [13, 10], [10, 13], [13, 13, 10]])
        elif x < 0.5:
            out += list(rng.choice(['\u00e9', '\u20ac', '\U0001F600', '\u07ff', '\ud7ff', '\ue000', '\U0010FFFF']).encode())
        elif x < 0.62:
            out.append(rng.choice(pool))
        else:
            out.append(rng.choice([97, 98, 32, 9]))
    return out[:n]


def queries(rng, content, n):
    ops = []
    for _ in range(n):
        x = rng.random()
        L = len(content)
        if x < 0.6:
            ops.append([0, rng.randint(-1, L + 1)])
        elif x < 0.8:
            ops.append([1, rng.randint(-1, content.count(10) + 3), rng.randint(-1, 6)])
        elif x < 0.9:
            ops.append([2, rng.randint(0, L)])
        else:
            ops.append([3, rng.randint(0, L)])
    return ops


def big_case(rng, size):
    t = []
    while len(t) < size:
        x = rng.random()
        if x < 0.5:
            for _ in range(rng.randint(1, 300)):
                t += [97] * rng.randint(0, 3) + [10]
        elif x < 0.75:
            t += rng.choice([[98], [195, 169], [226, 130, 172]]) * rng.randint(100, 600) + [10]
        else:
            t += text(rng, 200, ALPHA)
    t = t[:size + rng.randint(0, 3)]
    ops = []
    for _ in range(30):
        base = rng.choice([rng.randint(0, len(t)), rng.choice([0, 255, 256, 257, 1023, 1024, len(t) - 1, len(t)])])
        for _ in range(rng.randint(1, 2)):
            ops.append([0, base + rng.randint(-2, 300)])
    lines = t.count(10) + 1
    ops += [[1, rng.randint(0, lines + 1), rng.choice([1, 2, 5, 300, 700])] for _ in range(8)]
    rng.shuffle(ops)
    return {'k': 'src', 'content': t, 'ops': ops}


def main(chk):
    rng = chk.rng
    harness.mc(chk, 'MCLineCol', 'MCLineCol')
    cases = []
    # every text of the model, with every offset and every place, in every direction
    top = 5 if chk.thorough else 4
    for n in range(top + 1):
        for t in itertools.product([97, 10, 13, 195, 169], repeat=n):
            t = list(t)
            if 13 in t:
                cases.append({'k': 'nls', 'content': t})
            if 13 in t and n > 3:
                continue
            offs = list(range(-1, n + 2))
            ops = [[0, p] for p in offs] + [[0, p] for p in reversed(offs)]
            ops += [[1, a, b] for a in range(0, t.count(10) + 3) for b in range(0, 4)]
            cases.append({'k': 'src', 'content': t, 'ops': ops})
    # every order of three queries on multi-line texts
    for t in ([97, 10, 97, 10, 97], [10, 10, 10, 10], [97, 97, 10, 10, 195, 169, 10]):
        for seq in itertools.product(range(len(t) + 1), repeat=3):
            cases.append({'k': 'src', 'content': t, 'ops': [[0, p] for p in seq]})
    for i in range(6000 if chk.thorough else 900):
        n = rng.choice([rng.randint(0, 12), rng.randint(5, 60)])
        t = text(rng, n, ALPHA)
        cases.append({'k': 'nls', 'content': t})
        cases.append({'k': 'src', 'content': t, 'ops': queries(rng, t, rng.randint(5, 25))})
    # long texts: many lines, queries jumping around
    for i in range(60 if chk.thorough else 8):
        t = text(rng, rng.randint(150, 400), ALPHA)
        cases.append({'k': 'src', 'content': t, 'ops': queries(rng, t, 30)})
        cases.append({'k': 'nls', 'content': t})
    chk.extra['cases'] = len(cases)
    chk.validate('core', 'LineColTrace', cases)
    # big texts: many short lines, a few very long ones, long jumps
    big = []
    for i in range(24 if chk.thorough else 6):
        big.append(big_case(rng, rng.choice([1500, 3000, 5000, 9000])))
    if chk.thorough:
        big += [big_case(rng, 70000) for _ in range(3)]
    chk.validate('core', 'LineColTrace', big, key=lambda c: None)
    return chk.finish(rule='all texts up to length %d over {a,LF,CR,C3,A9} with all offsets both ways, random longer ones' % top)
