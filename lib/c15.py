"""C15: the syntax tree (spec/Building.tla)."""
import mach, big, real, c03


def make(rng):
    x = rng.random()
    if x < 0.25:
        c = c03.make(rng)
    else:
        g = mach.make_grammar(rng)
        n = rng.choice([0, 0, 0, 1])
        g.layers = mach.layers_text(rng, n)
        s = mach.text_for(rng, g, rng.choice([0.6, 0.9, 1.0]))
        cfg = mach.full_cfg(g) + mach.make_cfg(rng, g, n)[1:]
        if rng.random() < 0.2:
            cfg[0].update(mach.make_cfg(rng, g, 0, toks=1.0)[0], nodes=[{'n': '', 'm': 1}])
        c = mach.case(g, mach.split_sources(rng, s, rng.choice([1, 1, 2, 3])), cfg)
    c['hooks'][0]['nodes'] = [{'n': '', 'm': 1}]
    return built(rng, c)


def built(rng, c):
    y = rng.random()
    c.update(k='built', parses=1, sides=1 if y < 0.75 else 0, full=1 if y < 0.65 or y > 0.9 else 0)
    c['plain'] = 0 if any(h['toks'] or h['lits'] for h in c['hooks']) else 1
    return c


def record(c, r):
    rec = {k: c[k] for k in ('id', 'ins', 'types', 'sides', 'full', 'plain')}
    rec['crash'] = r.get('crash', 0) if r.get('why') != 'hang' else 0    # termination is C02's
    rec['ok'] = r.get('ok', 0)
    rec['log'] = [e for e in r.get('log') or [] if e.get('l', 0) == 0 and e['e'] != 'tk' or e['e'] in ('tok', 'end')]
    ids = {e['i'] for e in rec['log'] if e['e'] == 'open'}      # instances of the user's hooks
    rec['log'] = [{k: e[k] for k in ('e', 'n', 'tok') if k in e} for e in rec['log'] if e.get('i') in ids]
    for k in ('errA', 'errB'):
        rec[k] = r.get(k, 'none')
    for k in ('el', 'linked'):
        rec[k] = r.get(k, 0)
    for k in ('elems', 'qa', 'qb'):
        rec[k] = r.get(k) or []
    return rec


def main(chk):
    rng = chk.rng
    n = 20000 if chk.thorough else 3500
    cases = [make(rng) for _ in range(n)]
    cases += [built(rng, c) for _, c in big.add(chk, rng)]
    cases += [built(rng, dict(c, hooks=[dict(c['hooks'][0], nodes=[{'n': '', 'm': 1}])] + c['hooks'][1:])) for _, c in real.add(chk, rng)]
    chk.validate('core', 'BuildingTrace', cases, record=record, batch=3500, timeout=2)
    return chk.finish(rule='trees built by the node hook in random parses')
