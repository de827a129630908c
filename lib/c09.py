"""C09: where a parse stops (spec/Machine.tla)."""
import mach, small, big, real, c03

record = mach.record


def make(rng):
    if rng.random() < 0.4:
        c = c03.make(rng)
        c.update(parses=rng.choice([2, 3, 5]), full=rng.choice([0, 0, 1]), sides=rng.choice([0, 1]))
        if len(c['ins']) == 1 and rng.random() < 0.7:
            c['ins'] = mach.split_sources(rng, bytes(c['ins'][0]).decode('utf8', 'replace'), rng.choice([2, 3, 5]))
        return c
    g = mach.make_grammar(rng, nlits=rng.choice([1, 2, 3]), n_nodes=rng.randint(1, 3))
    n = rng.choice([0, 0, 1])
    g.layers = mach.layers_text(rng, n)
    s = ' '.join(mach.text_for(rng, g, rng.choice([0.6, 0.9, 1.0])) for _ in range(rng.choice([1, 2, 3])))[:80]
    if not any(t.name == 'sp' for t in g.types):
        s = s.replace(' ', '')
    cfg = mach.full_cfg(g) + mach.make_cfg(rng, g, n)[1:] if rng.random() < 0.7 else mach.make_cfg(rng, g, n)
    b = len(s.encode('utf8'))
    ins = mach.split_sources(rng, s, rng.choice([1, 2, 3, 5]))
    return mach.case(g, ins, cfg, sides=rng.choice([0, 1]), full=rng.choice([0, 0, 1]),
                     parses=rng.choice([2, 3, 5]), seek=0 if rng.random() < 0.9 else rng.randint(0, len(ins[0])))


def main(chk):
    rng = chk.rng
    n = 14000 if chk.thorough else 1600
    cases = [make(rng) for _ in range(n)]
    cases += [c for _, c in small.cases(rng, 6 if chk.thorough else 5, 8000 if chk.thorough else 400, two=0.6, parses=3)]
    cases += [dict(c, parses=rng.choice([2, 6])) for _, c in big.add(chk, rng)]
    cases += [c for _, c in real.add(chk, rng, parses=3)]
    mach.validate(chk, cases)
    return chk.finish(rule='several parses of one queue')
