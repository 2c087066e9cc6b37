"""Shared machinery: running cases on the real code, TLC on the specification, reporting."""
import importlib, json, logging, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LGR_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
PY = '/opt/venv/bin/python'
NPROC = int(os.environ.get('VERIF_NPROC', '8'))
JARS = '/opt/veriftools/tla/tla2tools.jar'


def tla_classpath():
    base = '/opt/veriftools/tla'
    jars = [os.path.join(base, f) for f in sorted(os.listdir(base)) if f.endswith('.jar')]
    jars.sort(key=lambda p: 'tla2tools' not in p)
    return ':'.join(jars)


def setup_repo_path():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True


_DB = {}
ICU = ('/usr/lib/x86_64-linux-gnu/libicuuc.so.74', '/usr/lib/x86_64-linux-gnu/libicui18n.so.74', '74')


def unidb(fast=True):
    """The ICU 74 database through munidata (fast: with interval-list sets, see fastdb)."""
    if fast not in _DB:
        if fast:
            import fastdb
            _DB[fast] = fastdb.FastDB(*ICU)
        else:
            from munidata import UnicodeDataVersionManager
            _DB[fast] = UnicodeDataVersionManager().register(None, *ICU)
    return _DB[fast]


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def exc_name(e):
    return type(e).__name__


# ----------------------------------------------------------------------------- case workers
def worker_main(argv):
    """argv: module, in_file, out_file, per-case seconds.  Observes each case of in_file."""
    mod, infile, outfile, secs = argv[0], argv[1], argv[2], float(argv[3])
    setup_repo_path()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    logging.disable(logging.NOTSET)
    logging.lastResort = None
    logging.raiseExceptions = False
    m = importlib.import_module(mod)
    done = 0
    if os.path.exists(outfile):
        with open(outfile) as f:
            done = sum(1 for _ in f)
    signal.signal(signal.SIGALRM, _alarm)
    if hasattr(m, 'worker_setup'):
        m.worker_setup()
    with open(infile) as f, open(outfile, 'a', buffering=1) as out:
        for n, line in enumerate(f):
            if n < done:
                continue
            case = json.loads(line)
            signal.setitimer(signal.ITIMER_REAL, secs)
            try:
                obs = m.observe(case)
                signal.setitimer(signal.ITIMER_REAL, 0)
            except CaseTimeout:
                obs = {'crash': 'Timeout'}
            except BaseException as e:  # noqa - every escape is an observation
                signal.setitimer(signal.ITIMER_REAL, 0)
                if isinstance(e, KeyboardInterrupt):
                    raise
                if os.environ.get('VERIF_DEBUG'):
                    import traceback
                    traceback.print_exc()
                obs = {'crash': exc_name(e) + ': ' + str(e)[:200]}
            out.write(json.dumps(obs) + '\n')


def observe_all(mod, cases, tmp, secs=20.0, stall=90.0):
    """Run `observe` of module `mod` on every case in NPROC processes; returns the observations in order."""
    n = len(cases)
    if n == 0:
        return []
    k = min(NPROC, n)
    files = []
    for w in range(k):
        inf, outf = os.path.join(tmp, 'in%d.ndjson' % w), os.path.join(tmp, 'out%d.ndjson' % w)
        with open(inf, 'w') as f:
            for c in cases[w::k]:
                f.write(json.dumps(c) + '\n')
        if os.path.exists(outf):
            os.unlink(outf)
        files.append((inf, outf))
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               PYTHONPATH=os.pathsep.join([REPO, os.path.join(VERIF, 'harness')]))

    def start(w):
        inf, outf = files[w]
        return subprocess.Popen([PY, '-c', 'import sys; from common import worker_main; worker_main(sys.argv[1:])',
                                 mod, inf, outf, str(secs)], env=env, cwd=tmp,
                                stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                stderr=(None if os.environ.get('VERIF_DEBUG') else subprocess.DEVNULL))

    def lines(w):
        try:
            with open(files[w][1]) as f:
                return sum(1 for _ in f)
        except OSError:
            return 0

    procs = {w: start(w) for w in range(k)}
    last = {w: (0, time.time()) for w in range(k)}
    size = {w: len(cases[w::k]) for w in range(k)}
    while procs:
        time.sleep(0.1)
        for w, p in list(procs.items()):
            rc = p.poll()
            if rc is not None:
                got = lines(w)
                if got >= size[w]:
                    del procs[w]
                else:  # died in the middle of a case
                    if got == 0 and rc == 1 and not _module_ok(mod, env, tmp):
                        raise RuntimeError('driver %s cannot be imported' % mod)
                    with open(files[w][1], 'a') as f:
                        f.write(json.dumps({'crash': 'ProcessDied(%d)' % rc}) + '\n')
                    procs[w] = start(w)
                    last[w] = (got + 1, time.time())
                continue
            try:
                sz = os.path.getsize(files[w][1])
            except OSError:
                sz = 0
            if sz != last[w][0]:
                last[w] = (sz, time.time())
            elif time.time() - last[w][1] > stall:
                p.kill()
                p.wait()
                with open(files[w][1], 'a') as f:
                    f.write(json.dumps({'crash': 'Timeout'}) + '\n')
                procs[w] = start(w)
                last[w] = (0, time.time())
    res = [None] * n
    for w in range(k):
        with open(files[w][1]) as f:
            for j, line in enumerate(f):
                if w + j * k < n:
                    res[w + j * k] = json.loads(line)
    for inf, outf in files:
        os.unlink(inf)
        os.unlink(outf)
    return res


def _module_ok(mod, env, tmp):
    """False only when our own driver (not the code under test) cannot be imported."""
    p = subprocess.run([PY, '-c', 'import sys; sys.path.insert(0, %r); import common, gen' % REPO], env=env, cwd=tmp,
                       capture_output=True)
    return p.returncode == 0


# ----------------------------------------------------------------------------- TLC
class TlcError(Exception):
    pass


def run_tlc(module, cfg_text, tmp, env=None, workers=NPROC, timeout=800, extra=(), heap='6g'):
    """Run TLC on spec/<module>.tla with the given configuration.  Returns (rc, output lines)."""
    cfg = os.path.join(tmp, module + '.cfg')
    with open(cfg, 'w') as f:
        f.write(cfg_text)
    meta = tempfile.mkdtemp(prefix='meta', dir=tmp)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-cp', tla_classpath(), 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', '-config', cfg] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, env=e, cwd=SPEC, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        shutil.rmtree(meta, ignore_errors=True)
        raise TlcError('TLC timeout on %s\n%s' % (module, out[-2000:]))
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, out


STAT = re.compile(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found')


def stats(out):
    m = None
    for m in STAT.finditer(out.replace(',', ',')):
        pass
    if not m:
        m2 = re.search(r'([\d,]+) states generated.*?([\d,]+) distinct states', out)
        if not m2:
            return 0, 0
        return int(m2.group(2).replace(',', '')), int(m2.group(1).replace(',', ''))
    return int(m.group(2)), int(m.group(1))


def parse_tla_string(s):
    return s.replace('\\"', '"').replace('\\\\', '\\')


FAIL = re.compile(r'<<"FAIL", (\d+), "(.*)">>')


def validate_traces(module, records, tmp, tlc_timeout=800, max_errors=25, invariants=()):
    """Check every recorded case against spec module `module` (TraceRun pattern).

    Returns (failures: {index: [clauses]}, states, transitions)."""
    failures = {}
    todo = list(range(len(records)))
    states = trans = 0
    errors = 0
    while todo:
        path = os.path.join(tmp, 'cases.ndjson')
        with open(path, 'w') as f:
            for k in todo:
                f.write(json.dumps(records[k]) + '\n')
        cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + ''.join('INVARIANT %s\n' % v for v in invariants)
        rc, out = run_tlc(module, cfg, tmp, env={'CASES': path}, timeout=tlc_timeout)
        for m in FAIL.finditer(out):
            k = todo[int(m.group(1)) - 1]
            failures[k] = sorted(set(failures.get(k, [])) | set(json.loads(parse_tla_string(m.group(2)))))
        st, tr = stats(out)
        states += st
        trans += tr
        if 'Model checking completed. No error has been found' in out:
            os.unlink(path)
            return failures, states, trans
        # an observation TLC could not evaluate: isolate it and go on
        m = re.search(r'\bi = (\d+)', out)
        if not m:
            if len(todo) == 1:
                if os.environ.get('VERIF_DEBUG'):
                    print(out[-3000:])
                failures[todo[0]] = ['unevaluable']
                return failures, states, trans
            raise TlcError(out[-4000:])
        bad = todo[int(m.group(1)) - 1]
        if os.environ.get('VERIF_DEBUG'):
            print(out[-3000:])
        failures[bad] = ['unevaluable']
        errors += 1
        if errors >= max_errors:
            return failures, states, trans
        # cases already verdicted are unknown (parallel), so re-run the rest
        todo = [k for k in todo if k != bad]
    return failures, states, trans


# ----------------------------------------------------------------------------- reporting
def known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get('findings', [])


class Context(object):
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random('%s/%s/%d' % (pid, 'x', self.seed))
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.assumptions = []
        self.notes = {}
        self.violations = []      # (signature, detail dict)
        self.thorough = tier == 'thorough'

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def match_finding(pid, sig, detail):
    """A violation is a known finding iff an entry for this property names its clause and its exact input class."""
    for f in known_findings():
        if f.get('property') != pid:
            continue
        if f.get('signature') == sig:
            return f
    return None


def finish(ctx, level='model_checking', extra_cov=None):
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    new, seen = [], {}
    for sig, detail in ctx.violations:
        f = match_finding(ctx.pid, sig, detail)
        if f:
            seen.setdefault(f['signature'], (f, 0))
            seen[f['signature']] = (f, seen[f['signature']][1] + 1)
        else:
            new.append((sig, detail))
    for s, (f, n) in sorted(seen.items()):
        print('KNOWN-FINDING: property=%s %s' % (ctx.pid, f['what']))
    cov = dict(states=ctx.states, transitions=ctx.transitions,
               traces_validated_against_impl=ctx.traces, samples=ctx.samples[:3])
    cov.update(ctx.notes)
    if extra_cov:
        cov.update(extra_cov)
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
              assumptions=ctx.assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=len(new))
    rc = 0
    if new:
        rdir = os.path.join(ev_dir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s.json' % ctx.pid)
        with open(path, 'w') as f:
            json.dump([dict(signature=s, detail=d) for s, d in new[:40]], f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (ctx.pid, path))
        for s, d in new[:5]:
            print('  ' + str(s))
        rc = 1
    with open(os.path.join(ev_dir, '%s.json' % ctx.pid), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d states, %d transitions, %d traces, %d violation(s), %.1fs' % (
        ctx.pid, ctx.tier, ctx.states, ctx.transitions, ctx.traces, len(new), time.time() - ctx.t0))
    return rc


def trace_phase(ctx, mod, specmod, cases, secs=20.0, sig=None, chunk=20000, keep=None, invariants=()):
    """Observe cases with the real code and validate the recorded behaviours against the specification."""
    if not cases:
        return
    for a in range(0, len(cases), chunk):
        part = cases[a:a + chunk]
        obs = observe_all(mod, part, ctx.tmp, secs=secs)
        crashed = [k for k, o in enumerate(obs) if 'crash' in o]
        timeouts = [k for k in crashed if obs[k]['crash'] == 'Timeout']
        if timeouts:   # a loaded machine is not a violation: ask again, one by one, with more time
            again = observe_all(mod, [part[k] for k in timeouts[:16]], ctx.tmp, secs=secs * 4, stall=secs * 5)
            for k, o in zip(timeouts, again):
                obs[k] = o
            crashed = [k for k, o in enumerate(obs) if 'crash' in o]
        good = [k for k in range(len(part)) if k not in set(crashed)]
        recs = [dict(c={x: v for x, v in part[k].items() if x != 'doc'}, o=obs[k]) for k in good]
        fails, st, tr = validate_traces(specmod, recs, ctx.tmp, invariants=invariants)
        ctx.states += st
        ctx.transitions += tr
        ctx.traces += len(recs)
        if not ctx.samples and recs:
            ctx.samples.append(recs[0])
        for k in crashed:
            s = 'crash:' + obs[k]['crash'].split(':')[0]
            ctx.violations.append((sig(part[k], obs[k], [s]) if sig else s, dict(case=part[k], obs=obs[k], clauses=[s])))
        for j, clauses in sorted(fails.items()):
            r = part[good[j]]
            if keep:
                clauses = keep(clauses)
                if not clauses:
                    continue
            s = ','.join(clauses)
            ctx.violations.append((sig(r, recs[j]['o'], clauses) if sig else s,
                                   dict(case=r, obs=recs[j]['o'], clauses=clauses)))


def model_phase(ctx, module, cfg, invariants_note=None, timeout=800, workers=NPROC, env=None, extra=()):
    """Exhaustive TLC run of a design model; a violated invariant here is an error of the specification."""
    rc, out = run_tlc(module, cfg, ctx.tmp, timeout=timeout, workers=workers, env=env, extra=extra)
    if 'Model checking completed. No error has been found' not in out:
        raise TlcError('model %s: %s' % (module, out[-4000:]))
    st, tr = stats(out)
    ctx.states += st
    ctx.transitions += tr
    ctx.notes.setdefault('models', []).append('%s: %d distinct states, %d generated' % (module, st, tr))
    return out


PRINTED = re.compile(r'<<"CASE", "(.*)">>')


def printed_cases(out):
    return [json.loads(parse_tla_string(m.group(1))) for m in PRINTED.finditer(out)]
