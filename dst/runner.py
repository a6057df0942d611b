"""Worker, master, shrinker, replay, evidence."""
import hashlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
JIT = 'threshold=1039,function_threshold=1619,trace_eagerness=200'  # PyPy's defaults; lower ones are slower here


def derive(*parts):
    return int(hashlib.sha256(repr(parts).encode()).hexdigest()[:15], 16)


# -- one run ---------------------------------------------------------------------------

_loaded = {}


def load_world(kind):
    """Installs the seams and imports the world; must be called before anything else of /repo is imported."""
    if kind in _loaded:
        return _loaded[kind]
    from . import seams
    seams.install()
    if kind == 'core':
        from . import core_run as m
    elif kind == 'web':
        from . import web as m
    elif kind == 'file':
        from . import filew as m
    elif kind == 'confine':
        from . import confine as m
    else:
        raise ValueError(kind)
    m.setup()
    _loaded[kind] = m
    return m


def make_scenario(check, spec, base, seed):
    m = load_world(spec['world'])
    rng = random.Random(derive(check, base, seed, 'gen'))
    return m.generate(rng, spec)


class Crashed(object):
    """The result of a run which could not be set up, because the code under test raised."""
    log = history = ()
    calls = 0

    class sim(object):
        now = start_time = 0.0
        steps = switches = 0
        faults = {}

    @classmethod
    def of(cls, e):
        from . import images
        frames = traceback.extract_tb(e.__traceback__)
        if not any(f.filename.startswith(images.REPO + os.sep) for f in frames):
            return None
        from .core import Violation
        self = cls()
        self.probes = {}
        self.violations = [Violation('exception', 'setting up raised %s' % ''.join(
            traceback.format_exception_only(type(e), e)).strip(), tb=''.join(traceback.format_list(frames)))]
        return self

    def nontrivial(self):
        return False

    def signature(self):
        return ''


def execute(scenario, spec, chooser):
    m = load_world(spec['world'])
    try:
        w = m.run(scenario, chooser, spec)
    except Exception as e:
        w = Crashed.of(e)
        if w is None:
            raise
    enforced = set(spec['classes'])
    w.violations = [v for v in w.violations if v.oracle in enforced]
    return w


def run_seed(check, spec, base, seed):
    from .engine import Chooser
    sc = make_scenario(check, spec, base, seed)
    ch = Chooser(derive(check, base, seed, 'run'))
    w = execute(sc, spec, ch)
    return sc, ch, w


def first(w, known=()):
    for v in w.violations:
        if not (v.known and v.known in known):
            return v
    return None


def known_ids(check):
    return {e['id'] for e in load_known() if e.get('property') == check and e.get('status') == 'open'}


def load_known():
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            return json.load(f)['findings']
    except IOError:
        return []


def spec_of(check):
    from .checks import CHECKS
    return CHECKS[check]


# -- worker ----------------------------------------------------------------------------

def worker(check, base, index, count, budget, maxruns, prog, out):
    """Runs seeds index, index+count, ... for `budget` seconds."""
    import faulthandler
    sys.setrecursionlimit(10000)
    spec = spec_of(check)
    known = known_ids(check)
    t0 = _real_time()
    stats = dict(runs=0, sim_s=0.0, faults={}, probes={}, steps=0, switches=0, nontrivial=0, known={}, ops=0,
                 timed=[])
    sigs = set()
    seed = index
    fd = os.open(prog, os.O_RDWR | os.O_CREAT)
    violation = None
    seeds = []
    samples = []
    while stats['runs'] < maxruns and _real_time() - t0 < budget:
        os.pwrite(fd, b'%-20d' % seed, 0)
        sc, ch, w = run_seed(check, spec, base, seed)
        seeds.append(seed)
        stats['runs'] += 1
        stats['sim_s'] += w.sim.now - w.sim.start_time
        stats['steps'] += w.sim.steps
        stats['switches'] += w.sim.switches
        stats['ops'] += getattr(w, 'calls', 0)
        for k, n in w.sim.faults.items():
            stats['faults'][k] = stats['faults'].get(k, 0) + n
        for k, n in w.probes.items():
            stats['probes'][k] = stats['probes'].get(k, 0) + n
        if w.nontrivial():
            stats['nontrivial'] += 1
            sigs.add(w.signature())
        for v in w.violations:
            if v.known and v.known in known:
                stats['known'][v.known] = stats['known'].get(v.known, 0) + 1
        v = first(w, known)
        if len(samples) < 2 and (stats['runs'] == 3 or v is not None):
            samples.append({'seed': seed, 'scenario': sc, 'events': len(w.log),
                            'first_events': [repr(e) for e in w.log[:12]]})
        if v is not None:
            violation = dict(seed=seed, scenario=sc, trace=ch.trace, oracle=v.oracle, message=v.message, tb=v.tb,
                             prefix=seeds[-200:])
            break
        seed += count
    os.pwrite(fd, b'%-20d' % -1, 0)
    os.close(fd)
    stats['wall'] = _real_time() - t0
    with open(out + '.tmp', 'w') as f:
        json.dump(dict(stats=stats, sigs=sorted(sigs), violation=violation, samples=samples, last=seed), f)
    os.rename(out + '.tmp', out)


def _real_time():
    from . import seams
    return seams._real['time']() if 'time' in seams._real else time.time()


# -- shrinking -------------------------------------------------------------------------

def with_ops(sc):
    """Paths of all lists of operations inside of a scenario."""
    res = []

    def walk(ops, path):
        res.append((path, ops))
        for i, op in enumerate(ops):
            if isinstance(op, list):
                for j, part in enumerate(op):
                    if isinstance(part, list) and part and all(isinstance(x, list) for x in part):
                        walk(part, path + [i, j])
    for a, actor in enumerate(sc['actors']):
        for r, req in enumerate(actor['reqs']):
            walk(req, ['actors', a, 'reqs', r])
    return res


def at(sc, path):
    x = sc
    for p in path:
        x = x[p]
    return x


def candidates(sc):
    """Simpler scenarios, the most simplified first."""
    for a in range(len(sc['actors'])):
        if len(sc['actors']) > 1:
            c = json.loads(json.dumps(sc))
            del c['actors'][a]
            yield c
    for a in range(len(sc['actors'])):
        for r in range(len(sc['actors'][a]['reqs'])):
            c = json.loads(json.dumps(sc))
            del c['actors'][a]['reqs'][r]
            yield c
    paths = [(path, len(ops)) for path, ops in with_ops(sc)]
    for path, n in paths:
        for i in range(n):
            c = json.loads(json.dumps(sc))
            del at(c, path)[i]
            yield c
    for path, n in paths:
        for i in range(n):
            op = at(sc, path)[i]
            for j, part in enumerate(op):
                if isinstance(part, list) and part and all(isinstance(x, list) for x in part):
                    c = json.loads(json.dumps(sc))
                    at(c, path)[i:i + 1] = part
                    yield c
    cfg = sc['cfg']
    for k in ('faults', 'latency', 'torn', 'clock_grain', 'line_gap', 'native_many', 'levels', 'recover'):
        if cfg.get(k):
            c = json.loads(json.dumps(sc))
            c['cfg'].pop(k)
            yield c
    if len(cfg.get('fault_kinds', ())) > 1 and cfg.get('faults'):
        for i in range(len(cfg['fault_kinds'])):
            c = json.loads(json.dumps(sc))
            c['cfg']['fault_kinds'] = [cfg['fault_kinds'][i]]
            yield c
    if cfg.get('binding') == 'core':
        c = json.loads(json.dumps(sc))
        c['cfg']['binding'] = 'django'
        yield c


def shrink(spec, sc, trace, oracle, budget, known=()):
    from .engine import Chooser, HarnessError
    t0 = _real_time()
    tried = 0

    def attempt(c, ch):
        try:
            w = execute(c, spec, ch)
        except HarnessError:
            return None
        for v in w.violations:
            if v.oracle == oracle and not (v.known and v.known in known):
                return v
        return None

    best, btrace = sc, trace
    improved = True
    while improved and _real_time() - t0 < budget:
        improved = False
        for c in candidates(best):
            if _real_time() - t0 > budget:
                break
            found = None
            for k in range(25):
                ch = Chooser(trace=btrace) if k == 0 else Chooser(derive('shrink', k, tried))
                tried += 1
                if attempt(c, ch) is not None:
                    found = list(ch.trace)
                    break
                if _real_time() - t0 > budget:
                    break
            if found is not None:
                best, btrace = c, found
                improved = True
                break
    # schedule: benign decisions wherever possible
    tr = list(btrace)
    n = len(tr)
    chunk = max(1, n // 2)
    t1 = _real_time()
    while chunk >= 1 and _real_time() - t1 < budget / 2 + 5:
        i = 0
        while i < len(tr) and _real_time() - t1 < budget / 2 + 5:
            if any(tr[i:i + chunk]):
                c = tr[:i] + [0] * len(tr[i:i + chunk]) + tr[i + chunk:]
                ch = Chooser(trace=c)
                tried += 1
                if attempt(best, ch) is not None:
                    tr = list(ch.trace)
                    while tr and tr[-1] == 0:
                        tr.pop()
            i += chunk
        chunk //= 2
    while tr and tr[-1] == 0:
        tr.pop()
    ch = Chooser(trace=tr)
    v = attempt(best, ch)
    if v is None:
        tr = btrace
        v = attempt(best, Chooser(trace=tr))
    return best, tr, v, tried


def replay_file(path, quiet=False):
    """-> (violation or None, world)"""
    from .engine import Chooser
    with open(path) as f:
        d = json.load(f)
    spec = spec_of(d['property'])
    if d.get('kind') == 'hang':
        execute(d['scenario'], spec, Chooser(trace=d['trace']) if d.get('trace') else Chooser(d['run_seed']))
        return None, None
    if d.get('kind') == 'prefix':
        w = None
        for seed in d['seeds']:
            sc, ch, w = run_seed(d['property'], spec, d['base'], seed)
    else:
        w = execute(d['scenario'], spec, Chooser(trace=d['trace']))
    for v in w.violations:
        if v.oracle == d['oracle']:
            return v, w
    return None, w


# -- processes -------------------------------------------------------------------------

def spawn(args, **kw):
    env = dict(os.environ, PYTHONHASHSEED=kw.pop('hashseed', '0'), PYTHONDONTWRITEBYTECODE='1')
    env.pop('DJANGO_SETTINGS_MODULE', None)
    env.update(kw.pop('env', {}) or ENV)
    return subprocess.Popen([PY, '--jit', JIT, '-B', '-m', 'dst.main'] + [str(a) for a in args], cwd=VERIF, env=env, **kw)


ENV = {}


def scratch():
    import tempfile
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    d = tempfile.mkdtemp(prefix='dst-', dir=base)
    ENV['DST_SCRATCH'] = d
    return d


class CheckError(Exception):
    pass


def master(check, tier, base, workers=None, budget=None, maxruns=None):
    import shutil
    spec = spec_of(check)
    t0 = time.time()
    workers = workers or min(8, os.cpu_count() or 1)
    budget = budget or (float(os.environ.get('DST_BUDGET', 0)) or spec.get('budget', {}).get(tier) or
                        (60 if tier == 'quick' else 1500))
    maxruns = maxruns or spec.get('maxruns', {}).get(tier) or 10 ** 9
    d = scratch()
    try:
        return _master(check, tier, base, workers, budget, maxruns, spec, t0, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _master(check, tier, base, workers, budget, maxruns, spec, t0, d):
    print('check %s tier=%s seed=%s workers=%d budget=%ss' % (check, tier, base, workers, budget), flush=True)
    procs = []
    for i in range(workers):
        prog, out = os.path.join(d, 'p%d' % i), os.path.join(d, 'o%d' % i)
        err = open(os.path.join(d, 'e%d' % i), 'w')
        p = spawn(['worker', check, base, i, workers, budget, maxruns, prog, out], stdout=err, stderr=err)
        procs.append(dict(p=p, prog=prog, out=out, i=i, seen=None, at=time.time(), err=err.name, hang=False))
        err.close()
    hang_limit = spec.get('hang_limit', 60)
    pending = list(procs)
    stop_early = None
    while pending:
        time.sleep(0.05)
        for w in list(pending):
            if w['p'].poll() is not None:
                pending.remove(w)
                if os.path.exists(w['out']) and stop_early is None:
                    with open(w['out']) as f:
                        if json.load(f)['violation']:
                            stop_early = time.time()
                continue
            try:
                with open(w['prog']) as f:
                    s = f.read().strip()
            except IOError:
                s = ''
            now = time.time()
            if s != w['seen']:
                w['seen'], w['at'] = s, now
            elif now - w['at'] > (hang_limit if s else hang_limit + 60):
                w['p'].kill()
                w['p'].wait()
                w['hang'] = True
                pending.remove(w)
            elif stop_early and now - stop_early > 3:
                w['p'].kill()
                w['p'].wait()
                w['stopped'] = True
                pending.remove(w)
    total = dict(runs=0, sim_s=0.0, faults={}, probes={}, steps=0, switches=0, nontrivial=0, known={}, ops=0)
    sigs = set()
    samples = []
    violations = []
    for w in procs:
        if os.path.exists(w['out']):
            with open(w['out']) as f:
                r = json.load(f)
            st = r['stats']
            for k in ('runs', 'sim_s', 'steps', 'switches', 'nontrivial', 'ops'):
                total[k] += st[k]
            for k in ('faults', 'probes', 'known'):
                for n, c in st[k].items():
                    total[k][n] = total[k].get(n, 0) + c
            sigs.update(r['sigs'])
            samples += r['samples'][:1]
            if r['violation']:
                violations.append(r['violation'])
        elif w.get('hang'):
            if w['seen'] in (None, ''):
                raise CheckError('worker %d did not start: %s' % (w['i'], open(w['err']).read()[-3000:]))
            violations.append(dict(seed=int(w['seen']), hang=True))
        elif not w.get('stopped'):
            raise CheckError('worker %d failed (exit %s): %s' % (w['i'], w['p'].returncode,
                                                               open(w['err']).read()[-3000:]))
    search_wall = time.time() - t0
    known = report_known(check, d)
    result = None
    if violations:
        violations.sort(key=lambda v: (bool(v.get('hang')), len(json.dumps(v.get('scenario', ''))), v['seed']))
        for v in violations:
            result = confirm(check, spec, base, v, d, tier)
            if result:
                break
        if not result:
            raise CheckError('violation could not be reproduced: %r' % [
                (v['seed'], v.get('oracle'), v.get('message')) for v in violations])
    write_evidence(check, tier, base, spec, total, sigs, samples, time.time() - t0, search_wall, result, workers, known)
    print('runs=%d distinct=%d simulated=%.0fs faults=%s probes=%s wall=%.1fs' % (
        total['runs'], len(sigs), total['sim_s'], total['faults'], total['probes'], time.time() - t0))
    if result:
        print('%s: %s' % (result['oracle'], result['message']))
        print('VIOLATION property=%s replay=%s' % (check, result['replay']), flush=True)
        return 1
    return 0


def report_known(check, d):
    """Replays the listed findings of this property and prints them."""
    res = []
    for e in load_known():
        if e.get('property') != check or e.get('status') != 'open':
            continue
        out = os.path.join(d, 'known')
        p = spawn(['known', check, e['id'], os.path.join(VERIF, e['replay'])], stdout=open(out, 'w'),
                  stderr=subprocess.STDOUT)
        try:
            rc = p.wait(timeout=120)
        except subprocess.TimeoutExpired:
            p.kill()
            rc = -1
        if rc == 10:
            print('KNOWN-FINDING: property=%s %s: %s' % (check, e['id'], e['what']), flush=True)
            res.append(e['id'])
        else:
            print('known finding %s does not reproduce any more (exit %s)' % (e['id'], rc), flush=True)
    return res


def confirm(check, spec, base, v, d, tier):
    """Shrinks in a fresh process, verifies the replay file in another one."""
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    if v.get('hang'):
        path = os.path.join(rdir, '%s-hang-%d.json' % (check, v['seed']))
        p = spawn(['genhang', check, base, v['seed'], path])
        p.wait()
        p = spawn(['replay', path])
        try:
            p.wait(timeout=spec.get('hang_limit', 60))
            return None
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        return dict(oracle='hang', message='a call never returns (seed %d)' % v['seed'], replay=path)
    src = os.path.join(d, 'v.json')
    with open(src, 'w') as f:
        json.dump(v, f)
    name = '%s-%s.json' % (check, hashlib.sha256(json.dumps(v['scenario'], sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(rdir, name)
    limit = 60 if tier == 'quick' else 300
    p = spawn(['shrink', check, base, src, path, limit])
    try:
        p.wait(timeout=limit * 3 + 120)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    if not os.path.exists(path):
        # fall back: not shrunk
        with open(path, 'w') as f:
            json.dump(dict(property=check, base=base, seed=v['seed'], oracle=v['oracle'], message=v['message'],
                           scenario=v['scenario'], trace=v['trace']), f)
    out = os.path.join(d, 'replay.out')
    p = spawn(['replay', path], stdout=open(out, 'w'), stderr=subprocess.STDOUT)
    try:
        rc = p.wait(timeout=180)
    except subprocess.TimeoutExpired:
        p.kill()
        rc = -1
    if rc != 1:
        # state of the code under test survives runs: replay the whole prefix of the worker
        with open(path, 'w') as f:
            json.dump(dict(property=check, kind='prefix', base=base, seeds=v['prefix'], oracle=v['oracle'],
                           message=v['message']), f)
        p = spawn(['replay', path], stdout=open(out, 'w'), stderr=subprocess.STDOUT)
        try:
            rc = p.wait(timeout=240)
        except subprocess.TimeoutExpired:
            p.kill()
            rc = -1
        if rc != 1:
            return None
    with open(path) as f:
        r = json.load(f)
    return dict(oracle=r['oracle'], message=r['message'], replay=path)


def write_evidence(check, tier, base, spec, total, sigs, samples, wall, search_wall, result, workers, known):
    m = {'core': ('cache_dependencies/* and django_cache_dependencies (all of it that the cache API runs)',
                  'cache server (memcached-like, in-process), network, clocks, OS thread scheduler')}
    cov = dict(
        evaluations=total['runs'], distinct_nontrivial=len(sigs),
        rule=spec.get('rule', 'One evaluation is one simulated run of a generated scenario under a seeded schedule. '
                              'Non-trivial: at least two tasks interleaved (or one plus the final observer) and at '
                              'least one read hit. Distinct: different sequence of (task, backend operation, number of '
                              'keys).'),
        samples=samples[:3], nontrivial_runs=total['nontrivial'],
        runs_per_hour=int(total['runs'] / max(search_wall, 1e-9) * 3600),
        seeds_per_hour=int(total['runs'] / max(search_wall, 1e-9) * 3600),
        simulated_seconds=round(total['sim_s'], 1), faults_injected=total['faults'], probes=total['probes'],
        scheduler_steps=total['steps'], context_switches=total['switches'], backend_calls=total['ops'],
        workers=workers, known_findings_seen=total['known'], known_findings_replayed=known,
        components_real=spec.get('real', m['core'][0]), components_stub=spec.get('stub', m['core'][1]))
    ev = dict(property=check, tier=tier, seed=int(base), level='exploration', coverage=cov,
              assumptions=spec.get('assumptions', []), wall_s=round(wall, 2), violations=1 if result else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', check + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.rename(path + '.tmp', path)
