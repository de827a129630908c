"""C07: source queue (spec/SourceQueue.tla)."""
import harness

LENS = [2, 1, 0]


def rnd_case(rng, k=1):
    lens = [rng.choice([0, 1, 2, 3, 7] if k == 1 else [0, 1, 5, 300, 70000]) for _ in range(rng.randint(1, 6 if k == 1 else 50))]
    n = len(lens)
    ops = []
    snaps = 0
    bias = rng.choice([0.2, 0.5, 0.7])
    for _ in range(rng.randint(5, 45 * k)):
        if rng.random() < bias:
            ops.append({'o': rng.choice(['append', 'prepend']), 'a': rng.randint(1, n) if rng.random() < 0.97 else 0})
            continue
        x = rng.random()
        if x < 0.3:
            ops.append({'o': 'next', 'a': 0})
        elif x < 0.45:
            ops.append({'o': 'skip', 'a': rng.randint(-1, 8)})
        elif x < 0.55:
            ops.append({'o': 'rewind', 'a': rng.randint(-1, 8)})
        elif x < 0.7:
            ops.append({'o': 'seek', 'a': rng.randint(-2, 9)})
        elif x < 0.82:
            ops.append({'o': 'snap', 'a': 0})
            snaps += 1
        elif x < 0.97 and snaps:
            ops.append({'o': 'restore', 'a': rng.randint(1, snaps)})
        elif x > 0.985:
            ops.append({'o': 'drain', 'a': 0})
    ops.append({'o': 'drain', 'a': 0})
    return {'k': 'queue', 'lens': lens, 'ops': ops}


def main(chk):
    rng = chk.rng
    paths = harness.mc_paths(chk, 'MCSourceQueue', 'MCSourceQueueBig' if chk.thorough else 'MCSourceQueue', limit=120000 if chk.thorough else 25000)
    cases = [{'k': 'queue', 'lens': LENS, 'ops': p['path'] + [{'o': 'drain', 'a': 0}]} for p in paths]
    chk.extra['model_transitions_replayed'] = len(cases)
    for i in range(20000 if chk.thorough else 2500):
        cases.append(rnd_case(rng))
    cases += [rnd_case(rng, 12) for _ in range(400 if chk.thorough else 60)]
    chk.validate('core', 'SourceQueueTrace', cases)
    return chk.finish(rule='every transition of MCSourceQueue replayed, random histories of up to 45 operations')
