"""C22: internal containers (spec/Containers.tla)."""
import harness


def rnd_deque(rng, k=1):
    ops = []
    n = 0
    val = 0
    phase = 0
    for _ in range(rng.randint(10, 120 * k)):
        if phase <= 0:
            phase = rng.randint(2, 25 * k)
            up = rng.random()
            side = rng.random()
        phase -= 1
        x = rng.random()
        if x < 0.1:
            ops.append({'o': 'peek', 'a': [rng.randint(-n - 2, n + 2)]})
        elif x < 0.12:
            n = rng.choice([0, 1, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33] + ([127, 128, 255, 256, 257, 300] if k > 1 else []))
            ops.append({'o': 'fill', 'a': [rng.randint(200, 900) for _ in range(n)]})
        elif x < 0.13:
            n = 0
            ops.append({'o': 'clear', 'a': []})
        elif rng.random() < up:
            val += 1
            n += 1
            ops.append({'o': 'append' if rng.random() < side else 'prepend', 'a': [val]})
        else:
            n = max(0, n - 1)
            ops.append({'o': 'first' if rng.random() < side else 'last', 'a': []})
    return {'k': 'deque', 'init': [rng.randint(1, 99) for _ in range(rng.choice([0, 0, 1, 3, 4, 5, 8, 16, 17]))], 'ops': ops}


def rnd_set(rng, k=1):
    rad = rng.choice([3, 70, 70, 200, 500] if k == 1 else [3000, 20000])
    edge = [-129, -128, -127, -65, -64, -63, -1, 0, 1, 62, 63, 64, 65, 127, 128, 129, 192]

    def item():
        return rng.choice(edge) if rng.random() < 0.5 and rad > 3 else rng.randint(-rad, rad)

    def items():
        c = item()
        return [c + rng.randint(-5, 5) if rng.random() < 0.6 else item() for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))]
    ops = []
    for _ in range(rng.randint(4, 30 * k)):
        i, j, k = (rng.randint(0, 2) for _ in range(3))
        o = rng.choice(['new', 'from', 'add', 'add', 'add', 'remove', 'remove', 'has', 'copy', 'eq', 'eq', 'empty',
                        'unite', 'inter', 'minus', 'Unite', 'Inter', 'Minus'])
        if o in ('new', 'from', 'add', 'remove'):
            a = [i] + items()
        elif o == 'has':
            a = [i, item()]
        elif o in ('copy', 'eq', 'unite', 'inter', 'minus'):
            a = [i, j]
        elif o == 'empty':
            a = [i]
        else:
            a = [i, j, k]
        ops.append({'o': o, 'a': a})
    for i in range(3):
        ops.append({'o': 'empty', 'a': [i]})
        ops.append({'o': 'eq', 'a': [i, (i + 1) % 3]})
    return {'k': 'set', 'init': [], 'ops': ops}


def main(chk):
    rng = chk.rng
    paths = harness.mc_paths(chk, 'MCDeque', 'MCDeque')
    cases = [{'k': 'deque', 'init': [], 'ops': p['path'] + [{'o': 'first', 'a': []}, {'o': 'last', 'a': []}]} for p in paths]
    chk.extra['model_transitions_replayed'] = len(cases)
    n = 12000 if chk.thorough else 1500
    cases += [rnd_deque(rng) for _ in range(n)]
    cases += [rnd_set(rng) for _ in range(n * 2)]
    cases += [rnd_deque(rng, 12) for _ in range(n // 40)] + [rnd_set(rng, 3) for _ in range(n // 20)]
    chk.validate('cont', 'ContainersTrace', cases)
    return chk.finish(rule='every transition of MCDeque (length <= 18) replayed; random deque and set histories around chunk and capacity boundaries')
