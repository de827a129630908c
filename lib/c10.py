"""C10: the indent layer (spec/Indent.tla by the definition, spec/Machine.tla in a whole parse)."""
import gram, mach, layers, small


def seen(rng, k=0):
    """the stream behind the layer, seen by the user's token hook"""
    kind = 'all' if rng.random() < 0.7 else rng.choice(['block', 'free'])
    g, sp = layers.indent_grammar(rng, kind)
    g.layers = layers.indent_text(rng, sp)
    s = layers.lines(rng, g, 8, wrong=rng.choice([0, 0.05, 0.15])) if not k else layers.steep(rng, g, k) if rng.random() < 0.6 else layers.lines(rng, g, k, wrong=0.01)
    user = layers.plain(toks=['', '-eof-', '-eoi-'])
    c = mach.case(g, mach.split_sources(rng, s, rng.choice([1, 1, 1, 2, 3])), [user, layers.indent_cfg(sp)], full=rng.choice([0, 1]), sides=rng.choice([0, 1]), notab=1)
    c.update(all=1 if kind == 'all' else 0, must=0 if kind == 'free' else 1)
    return c


def seen_record(c, r):
    rec = {k: c[k] for k in ('id', 'ins', 'types', 'all', 'full', 'must')}
    cfg = c['hooks'][1]
    rec['cfg'] = {k: cfg[k] for k in ('space', 'on', 'off')}
    runs = r.get('runs') or []
    hang = r.get('why') == 'hang'            # termination is C02's
    rec['crash'] = 0 if hang else r.get('crash', 0)
    rec['ok'] = 1 if r.get('ok') and runs else 0
    if hang:
        rec['must'] = 0
    rec['seen'] = [e['tok'] for e in runs[0]['log'] if e['e'] == 'tk' and e['tok']['t'] != -2] if runs else []
    rec['err'] = {k: runs[0]['err'].get(k, 0) for k in ('k', 'code', 'line', 'col', 'src')} if runs else {}
    if rec['err'].get('k') == 'none':
        rec['err']['code'] = 0
    return rec


def whole(rng, k=0):
    """a whole parse, indent layers among others"""
    kind = rng.choice(['all', 'block', 'block', 'free'])
    g, sp = layers.indent_grammar(rng, kind)
    n = rng.choice([1, 1, 2, 2, 3])
    at = sorted(rng.sample(range(n), 1 if n == 1 or rng.random() < 0.8 else 2))
    cfg = mach.make_cfg(rng, g, n, toks=0.5, nodes=0.6, prog=rng.random() < 0.6)
    text = []
    for i in range(1, n + 1):
        if i - 1 in at:
            names = rng.sample(['in', 'de'], 2) if rng.random() < 0.2 else ['in', 'de']
            some = sp if rng.random() < 0.85 else rng.sample(sp, rng.randint(1, len(sp)))
            cfg[i] = layers.indent_cfg(some, *names)
            text.append(layers.indent_text(rng, some, *names))
        else:
            text.append('@lay%d;' % i)
    g.layers = ' '.join(text)
    s = layers.lines(rng, g, 7, wrong=rng.choice([0, 0.05, 0.1])) if not k else layers.steep(rng, g, k) if rng.random() < 0.6 else layers.lines(rng, g, k, wrong=0.01)
    return mach.case(g, mach.split_sources(rng, s, rng.choice([1, 1, 2, 3])), cfg, full=rng.choice([0, 1]), sides=rng.choice([0, 1]),
                     parses=rng.choice([1, 1, 2]))


def record(c, r):
    return mach.record(c, r) if 'must' not in c else seen_record(c, r)


def main(chk):
    rng = chk.rng
    n = 16000 if chk.thorough else 2200
    short = small.layer_texts(rng, ('indent',), 6 if chk.thorough else 5, 12000 if chk.thorough else 1200, notab=1)
    short = [dict(c, all=1, must=1, hooks=[dict(c['hooks'][0], nodes=[])] + c['hooks'][1:]) for c in short]
    chk.validate('core', 'IndentTrace', [seen(rng) for _ in range(n)] + [seen(rng, 8) for _ in range(n // 60)] + short, record=seen_record, batch=3000, timeout=2)
    mach.validate(chk, [whole(rng) for _ in range(n // 2)] + [whole(rng, 40) for _ in range(n // 40)]
                  + small.layer_texts(rng, ('indent',), 5, 4000 if chk.thorough else 300))
    layers.configs(chk, 'indent', n // 2)
    return chk.finish(rule='indented texts, random space tokens, several sources and layers')
