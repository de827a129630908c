"""C01: a successful parse is a derivation (spec/Derivation.tla)."""
import gram, mach, small, big, real, harness


def lits(g):
    return [{'s': s, 'b': list(s.encode('utf8'))} for s in sorted({y[1] for _, b in g.nodes for y in gram.leaves(b) if y[0] == 'lit'} | set(g.reserved))]


def make(rng):
    g = mach.make_grammar(rng)
    if any(t.ext for t in g.types):
        return None
    s = mach.text_for(rng, g, rng.choice([0.7, 0.9, 1.0]))
    ns = rng.choice([1, 1, 1, 2, 3])
    ins = mach.split_sources(rng, s, ns)
    c = mach.case(g, ins, mach.full_cfg(g), full=rng.choice([0, 0, 1]), notab=1)
    c['g'] = g.json()
    c['lits'] = lits(g)
    return c


def record(c, r):
    rec = {k: c[k] for k in ('id', 'ins', 'g', 'types', 'lits')}
    runs = r.get('runs') or []
    # only a parse that succeeded is a claim
    rec['ok'] = 1 if r.get('ok') and runs and runs[0]['err']['k'] == 'none' else 0
    rec['runs'] = [{'log': runs[0]['log']}] if rec['ok'] else [{'log': []}]
    return rec


def main(chk):
    rng = chk.rng
    n = 20000 if chk.thorough else 3500
    cases = []
    while len(cases) < n:
        c = make(rng)
        if c:
            cases.append(c)
    for g, c in small.cases(rng, 6 if chk.thorough else 4, 20000 if chk.thorough else 1200, opts=((0, 0), (0, 1)), notab=1):
        cases.append(dict(c, g=g.json(), lits=lits(g)))
    for g, c in big.add(chk, rng, layers=0, hooks=False):
        cases.append(dict(c, parses=1, sides=0, notab=1, g=g.json(), lits=lits(g)))
    for g, c in real.add(chk, rng, layers=0, hooks=False, sides=0, parses=1, notab=1):
        cases.append(dict(c, g=g.json(), lits=lits(g)))
    # the machine itself has the properties (C01-C04, C09, C15, C21) for all short texts of the small grammars
    harness.mc(chk, 'MCMachine', 'MCMachineBig' if chk.thorough else 'MCMachine', env={'CASES': small.FILE})
    good = [0]

    def rec(c, r):
        x = record(c, r)
        good[0] += x['ok']
        return x
    chk.validate('core', 'DerivationTrace', cases, record=rec, batch=3000, timeout=2)
    chk.extra['successful_parses'] = good[0]
    return chk.finish(rule='successful parses of random descriptions and texts, short texts of small descriptions, large ones, languages as people write them; the closed machine')
