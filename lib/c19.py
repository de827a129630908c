"""C19: files written by llxgen (spec/GenTool.tla)."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess
import harness, langtext, big, c17
from langtext import Writer, description

KEYWORDS = ['type', 'func', 'map', 'go', 'range', 'grammar', 'string', 'init', 'main', '_', 'int', 'nil', 'true', 'x', 'Gram', 'a1']


def b(s):
    return list(s.encode('utf8', 'surrogateescape'))


def make(rng, large=False):
    g = rng.choice([big.wide, big.wide, big.types])(rng, rng.choice([70, 140, 280]))[0] if large else description(rng)
    x = rng.random()
    if x < 0.08:
        c17.break_gram(rng, g)
    w = Writer(rng, g)
    if rng.random() < 0.5:
        w.style['nlayers'] = max(1, w.style['nlayers'])
    head, nodes = w.statements()
    if rng.random() < 0.12:                      # the root node has a special name
        old = nodes[0][0]
        new = rng.choice(KEYWORDS)
        if not any(s[0] == new for s in nodes):
            nodes = [[new if t == old else t for t in s] if s[0] != '@' else s for s in nodes]
    toks = [t for s in head + nodes for t in s]
    if 0.08 < x < 0.12:
        toks = c17.mutate_tokens(rng, toks)
    text = w.join(toks)
    cwd = rng.choice(['pkg', 'x1', 'work', 'A_b', 'a-b', 'pkg', 'pkg', 'x2', 'y'])
    name = rng.choice(['gr', 'my.gram', 'a.b', 'Gr-1', '.hid', 'x y']) + rng.choice(['.llx', '.llx', '', '.txt', '.x.y'])
    if rng.random() < 0.3:
        name = rng.choice(['sub/', 'sub.d/', './', '../other/']) + name
    c = {'k': 'text', 'text': b(text), 'cwd': cwd, 'in': name, 'there': 0 if rng.random() < 0.04 else 1, 'j': 1 if rng.random() < 0.45 else 0, 'o': '', 'p': '', 'v': ''}
    if rng.random() < 0.04:
        c['in'] = ''
    if rng.random() < 0.35:
        c['o'] = rng.choice(['out.go', 'out/y.go', 'out/deep/z', './q.json', '../other/w.go', 'nope/z.go', 'o.txt', 'out/a-b/c.go'])
    if not c['j'] or rng.random() < 0.1:
        bad = rng.random()
        c['p'] = rng.choice(['', '', 'p', 'Pk_9', 'main', 'grammar', 'p'])
        c['v'] = rng.choice(['', 'v', 'Gr', 'v', 'gr_9', 'V0', 'G'])
        if bad < 0.12:
            c['v'] = rng.choice(['a b', '1x'] + KEYWORDS)
        elif bad < 0.2:
            c['p'] = rng.choice(['a-b', '9a', 'func', '_', 'é'])
    return c


def prepare(c, base):
    shutil.rmtree(base, ignore_errors=True)
    top = os.path.join(base, c['cwd'])
    for d in ('', 'sub', 'sub.d', 'out', 'out/deep', 'out/a-b'):
        os.makedirs(os.path.join(top, d), exist_ok=True)
    os.makedirs(os.path.join(base, 'other'))
    if c['in'] and c['there']:
        with open(os.path.join(top, c['in']), 'wb') as fh:
            fh.write(bytes(c['text']))
    if c['id'] % 3 == 0 and c['o'] and os.path.isdir(os.path.join(top, os.path.dirname(c['o']))):
        with open(os.path.join(top, c['o']), 'w') as fh:
            fh.write('old contents, longer than nothing\n' * 40)
    return top


def snapshot(base, top):
    res = {}
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                res[os.path.relpath(p, top)] = hashlib.sha1(fh.read()).hexdigest()
    return res


def tool(exe, c, root):
    base = os.path.join(root, 'r%d' % c['id'])
    top = prepare(c, base)
    before = snapshot(base, top)
    args = [exe] + (['-j'] if c['j'] else [])
    for k in 'opv':
        if c[k]:
            args += ['-' + k, c[k]]
    if c['in']:
        args.append(c['in'])
    try:
        p = subprocess.run(args, cwd=top, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
    except subprocess.TimeoutExpired:
        return {'crash': 1, 'why': 'hang'}, None
    after = snapshot(base, top)
    changed = sorted(f for f in after if before.get(f) != after[f]) + sorted(f for f in before if f not in after)
    r = {'crash': 0, 'exit': p.returncode, 'files': changed, 'pkg': '', 'loads': 0, 'out': p.stdout[-300:].decode('utf8', 'replace')}
    content = None
    if len(changed) == 1 and changed[0] in after:
        with open(os.path.join(top, changed[0]), 'rb') as fh:
            content = fh.read()
    shutil.rmtree(base, ignore_errors=True)
    return r, content


def go_tables(chk, gen):
    """gen: [(number, file content, package, variable)]; builds a driver with all
    these packages in it and returns number -> tables (none: does not compile)"""
    d = os.path.join(chk.tmp, 'gen')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    core = os.path.join(harness.VERIF, 'driver', 'core')
    repl, todo = {}, {}

    def put(rel, text):
        p = os.path.join(d, rel.replace('/', '__'))
        with open(p, 'wb' if isinstance(text, bytes) else 'w') as fh:
            fh.write(text)
        repl[os.path.join(harness.REPO, 'zzverif', rel)] = p
    for n, content, pkg, var in gen:
        if pkg == 'main':
            # a command cannot be imported: same file in another package
            content = re.sub(rb'(?m)^package main$', b'package zzmain', content, count=1)
            pkg = 'zzmain'
        put('p%d/gen.go' % n, content)
        put('p%d/zz.go' % n, 'package %s\n\nimport zzgrammar "github.com/ava12/llx/grammar"\n\nfunc ZzGet() *zzgrammar.Grammar { return %s }\n' % (pkg, var))
        todo[n] = pkg
    for f in os.listdir(core):
        with open(os.path.join(core, f), 'rb') as fh:
            put('gen/' + f, fh.read())
    while True:
        put('gen/zz_gen.go', 'package main\n\nimport (\n\t"encoding/json"\n\t"github.com/ava12/llx/grammar"\n' +
            ''.join('\tp%d "github.com/ava12/llx/zzverif/p%d"\n' % (n, n) for n in todo) + ')\n\nvar gens = map[int]func() *grammar.Grammar{\n' +
            ''.join('\t%d: p%d.ZzGet,\n' % (n, n) for n in todo) + '}\n\nfunc init() {\n\thandlers["gen"] = func(raw json.RawMessage) result {\n' +
            '\t\tvar c struct{ N int }\n\t\tmust(json.Unmarshal(raw, &c))\n\t\treturn result{"tab": byteTables(gens[c.N]())}\n\t}\n}\n')
        ov = os.path.join(chk.tmp, 'overlay-gen.json')
        with open(ov, 'w') as fh:
            json.dump({'Replace': repl}, fh)
        exe = os.path.join(chk.tmp, 'drv-gen')
        p = subprocess.run(['go', 'build', '-buildvcs=false', '-gcflags=-N -l', '-overlay', ov, '-o', exe, './zzverif/gen'], cwd=harness.REPO, env=harness.go_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            break
        bad = {int(x) for x in re.findall(r'zzverif/p(\d+)\b', p.stdout)} | {int(x) for x in re.findall(r'p(\d+)__gen\.go', p.stdout)}
        bad &= set(todo)
        if not bad:
            raise harness.ToolError('cannot build the driver of generated packages\n' + p.stdout[-3000:])
        for n in bad:
            del todo[n]
            for f in ('gen.go', 'zz.go'):
                repl.pop(os.path.join(harness.REPO, 'zzverif', 'p%d/%s' % (n, f)), None)
    chk.drivers['gen'] = exe
    ns = list(todo)
    res = {}
    for n, r in zip(ns, harness.run_chunk(exe, [{'k': 'gen', 'N': n} for n in ns], 10, chk.tmp, chk)):
        if not r.get('crash'):
            res[n] = r['tab']
    return res


def run(chk, cases):
    exe = chk.build('llxgen', pkg='./cmd/llxgen')
    root = os.path.join(chk.tmp, 'runs')
    langs = chk.run('core', cases)
    with cf.ThreadPoolExecutor(harness.NCPU) as ex:
        got = list(ex.map(lambda c: tool(exe, c, root), cases))
    gen, loads = [], []
    for c, l, (r, content) in zip(cases, langs, got):
        r['lang'] = {'ok': l.get('ok', 0), 'tab': l.get('tab') or langtext.NOTAB}
        if l.get('crash'):
            r['crash'] = 1
        if r.get('crash') or content is None or r['exit'] != 0:
            continue
        if c['j']:
            loads.append((r, content))
            continue
        m = re.search(rb'(?m)^package[ \t]+(\S+)', content)
        r['pkg'] = m.group(1).decode('utf8', 'replace') if m else ''
        var = c['v'] or (bytes(r['lang']['tab']['nodes'][0]['n']).decode() if r['lang']['tab']['nodes'] else 'x')
        if re.match(r'^[A-Za-z_]\w*$', r['pkg'] or '') and re.match(r'^[A-Za-z_]\w*$', var):
            gen.append((c['id'], content, r['pkg'], var))
    tabs = go_tables(chk, gen) if gen else {}
    for c, (r, _) in zip(cases, got):
        if c['id'] in tabs:
            r['loads'], r['tab'] = 1, tabs[c['id']]
    ids = [c['id'] for c in cases]
    js = harness.run_chunk(chk.drivers['core'], [{'k': 'jsongram', 'text': list(t)} for _, t in loads], 10, chk.tmp, chk)
    for (r, _), x in zip(loads, js):
        r['loads'], r['tab'] = x.get('ok', 0), x.get('tab') or langtext.NOTAB
    for c, i in zip(cases, ids):
        c['id'] = i
    return [r for r, _ in got]


def valid(tab):
    def ok(x):
        try:
            bytes(x).decode('utf8')
            return True
        except UnicodeDecodeError:
            return False
    return all(ok(t['n']) for t in tab['tokens']) and all(ok(a) for l in tab['layers'] for c in l['c'] for a in c['a'])


def record(c, r):
    top = c['cwd']
    norm = lambda f: os.path.normpath(f) if f else ''
    lang = r.get('lang') or {'ok': 0, 'tab': langtext.NOTAB}
    out = c['o'] or ''
    outdir = 0 if out.startswith('nope/') else 1
    return {'id': c['id'], 'j': c['j'], 'o': b(plain(c['o'])), 'p': b(c['p']), 'v': b(c['v']), 'in': b(plain(c['in'])), 'cwd': b(top), 'there': c['there'], 'outdir': outdir,
            'lang': lang, 'utf8': 1 if valid(lang['tab']) else 0, 'exit': -1 if r.get('crash') else r['exit'], 'files': [b(norm(f)) for f in r.get('files', [])],
            'pkg': b(r.get('pkg', '')), 'loads': r.get('loads', 0), 'tab': r.get('tab') or langtext.NOTAB}


def plain(f):
    """names are compared relative to the current directory"""
    return os.path.normpath(f) if f else ''


def main(chk):
    rng = chk.rng
    n = 8000 if chk.thorough else 1600
    cases = [make(rng) for _ in range(n)] + [make(rng, True) for _ in range(n // 130)]
    chk.validate('llxgen', 'GenToolTrace', cases, record=record, runner=run, batch=800)
    return chk.finish(rule='random descriptions and options; files compiled or loaded again')
