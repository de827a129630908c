"""Common machinery of the checks: building the drivers from /repo's current
tree, running generated cases through the real code, running TLC on the
recorded traces, reporting, evidence files.

The verdict on every trace is TLC's; nothing here knows what the right answer
is."""
import json, os, random, re, select, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


def go_env():
    env = dict(os.environ)
    env.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', CGO_ENABLED=env.get('CGO_ENABLED', '1'))
    env.setdefault('HOME', '/root')
    return env


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random('%s-%d' % (pid, self.seed))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='llxv-%s-' % pid)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.known_hits = []
        self.known = load_known(pid)
        self.drivers = {}
        self.case_no = 0
        self.hangs = 0
        self.tlc_no = 0
        self.coverage_actions = {}
        self.wants = {}

    # ---- building -------------------------------------------------------
    def build(self, name, pkg=None, race=False):
        """Builds /verif/driver/<name> as a package of /repo's module (overlay,
        nothing is written into /repo)."""
        key = name + ('-race' if race else '')
        if key in self.drivers:
            return self.drivers[key]
        out = os.path.join(self.tmp, 'drv-' + key)
        args = ['go', 'build', '-buildvcs=false', '-o', out]
        if race:
            args.append('-race')
        if os.environ.get('GOCOVERDIR'):  # tools/cover.sh
            args += ['-cover', '-coverpkg=./...']
        if pkg is None:
            src = os.path.join(VERIF, 'driver', name)
            repl = {os.path.join(REPO, 'zzverif', name, f): os.path.join(src, f)
                    for f in sorted(os.listdir(src)) if f.endswith('.go')}
            ov = os.path.join(self.tmp, 'overlay-%s.json' % key)
            with open(ov, 'w') as fh:
                json.dump({'Replace': repl}, fh)
            args += ['-overlay', ov]
            pkg = './zzverif/' + name
        args.append(pkg)
        p = subprocess.run(args, cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError('cannot build driver %s:\n%s' % (name, p.stdout[-4000:]))
        self.drivers[key] = out
        return out

    # ---- running cases through the real code ---------------------------
    def run(self, driver, cases, timeout=5.0, procs=None, race=False, stop=False, once=False):
        """Runs cases (dicts), returns results in the same order.  A case which
        makes the driver die or hang gets {"crash": 1, "why": ...}."""
        for c in cases:
            self.case_no += 1
            c['id'] = self.case_no
        self.hangs = 0
        exe = self.build(driver, race=race)
        procs = procs or max(1, min(NCPU, (len(cases) + 49) // 50))
        chunks = [cases[i::procs] for i in range(procs)]
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(procs) as ex:
            parts = list(ex.map(lambda ch: run_chunk(exe, ch, timeout, self.tmp, self, stop, once), chunks))
        res = [None] * len(cases)
        for i, part in enumerate(parts):
            res[i::procs] = part
        return res

    # ---- TLC -------------------------------------------------------------
    most_failed = 3

    def tlc(self, module, records, workers=None, cfg=None, mem='6g', timeout=840, env=None, extra=()):
        """Runs TLC on spec/<module>.tla with the records as the case file.
        Returns the dict record id -> (verdict, detail)."""
        verdicts, todo, failed = {}, records, 0
        while todo:
            out, ok = self.tlc_once(module, todo, workers, cfg, mem, timeout, env, extra)
            for v in out:
                old = verdicts.get(v['id'])
                if old is None or v['v'] == 'BAD':
                    verdicts[v['id']] = v
            todo = [r for r in todo if r['id'] not in verdicts]
            if ok:
                # no step of the specification explains the rest of these traces
                for r in todo:
                    verdicts[r['id']] = {'id': r['id'], 'v': 'BAD', 'at': -1, 'want': 'a step of the specification'}
                break
            # an observation outside the domain of the specification; the others are still to be judged
            failed += 0 if ok else 1
            if failed > self.most_failed:
                for r in todo:
                    verdicts[r['id']] = {'id': r['id'], 'v': 'SKIP'}
                break
        return verdicts

    def tlc_once(self, module, records, workers, cfg, mem, timeout, env, extra):
        self.tlc_no += 1
        path = os.path.join(self.tmp, 'cases-%d.ndjson' % self.tlc_no)
        with open(path, 'w') as fh:
            for r in records:
                fh.write(json.dumps(r, separators=(',', ':')) + '\n')
        out, code = self.tlc_raw(module, cfg or module, dict(env or {}, CASES=path), workers, mem, timeout, extra, ok_codes=(0, 75), code=True)
        os.unlink(path)
        verdicts = []
        for m in re.finditer(r'^"(\{.*\})"\s*$', out, re.M):
            try:
                v = json.loads(json.loads('"' + m.group(1) + '"'))
            except ValueError:
                continue
            if 'v' in v and 'id' in v:
                verdicts.append(v)
        if code == 0:
            return verdicts, True
        # the case whose next step cannot be evaluated
        i = out.find('Error:')
        m = re.findall(r'^/\\ ci = (\d+)$', out[max(0, i):], re.M)
        if not m and 'StackOverflow' not in out and 'OutOfMemory' not in out:
            if len(records) > 1:
                h = len(records) // 2
                a, ok1 = self.tlc_once(module, records[:h], workers, cfg, mem, timeout, env, extra)
                b, ok2 = self.tlc_once(module, records[h:], workers, cfg, mem, timeout, env, extra)
                return a + b, ok1 and ok2
            m = [1]
        if not m:
            raise ToolError('TLC failed on %s (exit %d)\n%s' % (module, code, out[max(0, i):][:6000]))
        r = records[int(m[-1]) - 1]
        verdicts.append({'id': r['id'], 'v': 'BAD', 'at': -1, 'want': 'an observation the specification has a meaning for: ' + out[max(0, i):][:400]})
        return verdicts, False

    def tlc_raw(self, module, cfg, env, workers=None, mem='6g', timeout=840, extra=(), ok_codes=(0,), code=False):
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.tmp)
        args = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss64m', '-cp', TLA_CP, 'tlc2.TLC', '-metadir', meta, '-nowarning', '-noGenerateSpecTE',
                '-workers', str(workers or NCPU), '-config', os.path.join(SPEC, cfg + '.cfg')]
        args += list(extra)
        args.append(os.path.join(SPEC, module + '.tla'))
        e = dict(os.environ)
        e.update(env)
        try:
            p = subprocess.run(args, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors='replace', timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timeout on %s' % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
        if m:
            self.transitions += int(m[-1][0].replace(',', ''))
            self.states += int(m[-1][1].replace(',', ''))
        if p.returncode not in ok_codes:
            i = out.find('Error:')
            raise ToolError('TLC failed on %s (exit %d)\n%s' % (module, p.returncode, out[max(0, i):][:6000]))
        return (out, p.returncode) if code else out

    # ---- the usual cycle ---------------------------------------------------
    def validate(self, driver, module, cases, timeout=5.0, race=False, batch=20000, record=None, key=None, describe=None, env=None, amend=None, runner=None):
        """Runs the cases, lets TLC judge the recorded traces, confirms and
        reports the bad ones.  record(case, result) makes the TLC record."""
        record = record or merge
        found = []
        todo = [cases[i:i + batch] for i in range(0, len(cases), batch)]
        while todo and len(self.violations) < 3:
            part = todo.pop(0)
            results = runner(self, part) if runner else self.run(driver, part, timeout, race=race, stop=True)
            late = [c for c, r in zip(part, results) if r.get('skipped')]
            if late:
                # too many hangs in a row; the rest is run only if these were false alarms
                both = [(c, r) for c, r in zip(part, results) if not r.get('skipped')]
                part, results = [c for c, _ in both], [r for _, r in both]
                todo.insert(0, late)
            if amend:
                amend(self, part, results)
            recs = [record(c, r) for c, r in zip(part, results)]
            if not recs:
                continue
            verdicts = self.tlc(module, recs, env=env)
            bad = []
            for c, r, rec in zip(part, results, recs):
                v = verdicts[rec['id']]
                if v['v'] == 'OK':
                    self.validated += 1
                    if isinstance(v.get('want'), str):
                        self.wants[v['want']] = self.wants.get(v['want'], 0) + 1
                    if len(self.samples) < 3 or (len(self.samples) < 6 and self.rng.random() < 0.01):
                        self.samples.append(trim({'case': c, 'result': r, 'verdict': 'accepted by ' + module}))
                elif v['v'] == 'BAD':
                    bad.append((c, r, v))
            bad.sort(key=lambda b: len(json.dumps(b[0])))
            for c, r, v in bad:
                self.judge(c, r, v, driver, module, timeout, race, record, key, describe, env, amend, runner)
            found += bad
        return found

    def judge(self, c, r, v, driver, module, timeout, race, record, key, describe, env, amend, runner):
        """a rejected trace: a listed finding, a violation (confirmed by itself), or a slow machine"""
        k = key(c) if key else None
        kf = self.find_known(c, k)
        if kf:
            self.known_hits.append(kf)
            self.validated += 1
            return
        if len(self.violations) >= 3:
            self.violations.append(None)
            return
        c2 = dict(c)
        r2 = (runner(self, [c2]) if runner else self.run(driver, [c2], timeout * 5, race=race, once=True))[0]
        if amend:
            amend(self, [c2], [r2])
        rec = record(c2, r2)
        v2 = self.tlc(module, [rec], env=env)[rec['id']]
        if v2['v'] == 'OK' and r.get('crash') and r.get('why') == 'hang':
            return                                       # slow machine, the case is fine
        self.violation({'module': module, 'driver': driver, 'case': c, 'result': r, 'verdict': v, 'again': v2, 'result_again': r2,
                        'note': describe(c, r, v) if describe else None})

    def find_known(self, case, key):
        for k in self.known:
            if k['key'] is not None and (k['key'] == key or k['key'] == case.get('key')):
                return k
        return None

    def violation(self, info):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        n = len(self.violations) + 1
        path = os.path.join(d, '%s-%d.json' % (self.pid, n))
        info['property'] = self.pid
        info['seed'] = self.seed
        with open(path, 'w') as fh:
            json.dump(info, fh, indent=1)
        self.violations.append(path)
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        sys.stdout.flush()

    def finish(self, exhaustive=False, assumptions=(), rule=None, level='model_checking'):
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.validated,
               'samples': self.samples or [{'note': 'none'}], 'exhaustive': exhaustive}
        if rule:
            cov['rule'] = rule
        if self.wants:
            cov['outcomes'] = dict(self.wants)
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
            fh.write('\n')
        for k in {json.dumps(k): k for k in self.known_hits}.values():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        shutil.rmtree(self.tmp, ignore_errors=True)
        print('%s: %s; %d traces validated, %d states, %.1f s' % (
            self.pid, 'VIOLATED' if self.violations else 'held', self.validated, self.states, time.time() - self.t0))
        return 1 if self.violations else 0


def merge(c, r):
    x = dict(c)
    x.update(r)
    x.setdefault('crash', 0)
    x['id'] = c['id']
    return x


def trim(x, limit=1500):
    s = json.dumps(x)
    if len(s) <= limit:
        return x
    return s[:limit] + '...'


def load_known(pid):
    res = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if not os.path.exists(path):
        return res
    for line in open(path):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)$', line.strip())
        if m and m.group(1) == pid:
            res.append({'key': m.group(2), 'what': m.group(3)})
    return res


class Proc:
    def __init__(self, exe, tmp):
        self.err = tempfile.TemporaryFile(dir=tmp)
        env = dict(os.environ)
        env['GOTRACEBACK'] = 'single'
        env['GORACE'] = 'halt_on_error=1'
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, cwd=tmp, env=env)
        self.buf = b''

    def ask(self, line, timeout):
        try:
            self.p.stdin.write(line)
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            return None, 'died'
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                return None, 'hang'
            rd, _, _ = select.select([fd], [], [], left)
            if not rd:
                return None, 'hang'
            data = os.read(fd, 1 << 20)
            if not data:
                return None, 'died'
            self.buf += data
        line, self.buf = self.buf.split(b'\n', 1)
        return line, None

    def tail(self):
        self.err.seek(0)
        return self.err.read()[-3000:].decode('utf8', 'replace')

    def close(self):
        try:
            if os.environ.get('GOCOVERDIR'):     # tools/cover.sh: let it write what it reached
                self.p.stdin.close()
                self.p.wait(5)
            self.p.kill()
        except (OSError, subprocess.TimeoutExpired):
            self.p.kill()
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.p.wait()
        self.p.stdout.close()
        self.err.close()


def run_chunk(exe, cases, timeout, tmp, chk, stop=False, once=False):
    res = []
    p = None
    try:
        for c in cases:
            if stop and chk.hangs >= 6:
                res.append({'crash': 0, 'skipped': 1})
                continue
            if p is None:
                p = Proc(exe, tmp)
            line, why = p.ask(json.dumps(c, separators=(',', ':')).encode() + b'\n', timeout)
            if why == 'hang' and not once:
                # a loaded machine must not look like a hang
                p.close()
                p = Proc(exe, tmp)
                line, why = p.ask(json.dumps(c, separators=(',', ':')).encode() + b'\n', timeout * 4)
            if why:
                if why == 'hang':
                    chk.hangs += 1
                if why == 'died' and p.p.wait() == 5:
                    why = 'hang'                         # ended by its watch: memory
                    chk.hangs += 1
                res.append({'crash': 1, 'why': why, 'stderr': p.tail()})
                p.close()
                p = None
                continue
            r = json.loads(line)
            r.setdefault('crash', 0)
            res.append(r)
    finally:
        if p is not None:
            p.close()
    return res


def mc_paths(chk, module, cfg, limit=None, workers=None):
    """Runs an exhaustive model and returns the paths it printed."""
    out = chk.tlc_raw(module, cfg, {}, workers=workers)
    res = []
    for m in re.finditer(r'^"(\{.*\})"\s*$', out, re.M):
        v = json.loads(json.loads('"' + m.group(1) + '"'))
        if 'path' in v:
            res.append(v)
    if not res:
        raise ToolError('no behaviours printed by ' + module)
    res.sort(key=lambda v: json.dumps(v))
    if limit and len(res) > limit:
        chk.rng.shuffle(res)
        res = res[:limit]
    return res


def mc(chk, module, cfg, **kw):
    """Runs an exhaustive model for its invariants only.  A violated invariant
    is a defect of the specification, never a verdict on the code."""
    return chk.tlc_raw(module, cfg, kw.pop('env', {}), **kw)


def replay(chk, mod, info):
    record = getattr(mod, 'record', merge)
    c = info['case']
    r = mod.run(chk, [c])[0] if hasattr(mod, 'run') else chk.run(info['driver'], [c], 20)[0]
    rec = record(c, r)
    v = chk.tlc(info['module'], [rec])[rec['id']]
    print(json.dumps({'case': c, 'result': r, 'verdict': v}, indent=1))
    return 1 if v['v'] != 'OK' else 0
