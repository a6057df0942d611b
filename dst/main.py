import json
import os
import sys


def leave(rc):
    filew = sys.modules.get('dst.filew')
    if filew is not None:
        filew.cleanup()
    sys.stdout.flush()
    os._exit(rc)


def main(argv):
    from . import runner
    cmd = argv[0]
    if cmd == 'worker':
        check, base, index, count, budget, maxruns, prog, out = argv[1:]
        runner.worker(check, int(base), int(index), int(count), float(budget), int(maxruns), prog, out)
        leave(0)
    if cmd == 'check':
        check = argv[1]
        tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
        base = int(os.environ.get('VERIF_SEED', '1') or 1)
        try:
            rc = runner.master(check, tier, base)
        except runner.CheckError as e:
            print('CHECK ERROR: %s' % e)
            rc = 2
        sys.stdout.flush()
        leave(rc)
    if cmd == 'replay':
        v, w = runner.replay_file(argv[1])
        if v is None:
            print('no violation')
            rc = 0
        else:
            print('%s: %s' % (v.oracle, v.message))
            if v.tb:
                print(v.tb)
            with open(argv[1]) as f:
                d = json.load(f)
            if '--log' in argv:
                for e in w.log:
                    print(e)
                for r in w.history:
                    print(r)
            print('VIOLATION property=%s replay=%s' % (d['property'], argv[1]))
            rc = 1
        sys.stdout.flush()
        leave(rc)
    if cmd == 'known':
        check, kid, path = argv[1:]
        from .engine import Chooser
        with open(path) as f:
            d = json.load(f)
        spec = runner.spec_of(check)
        rc = 0
        for k in range(400):
            ch = Chooser(trace=d['trace']) if k == 0 else Chooser(runner.derive('known', k))
            w = runner.execute(d['scenario'], spec, ch)
            if any(v.known == kid for v in w.violations):
                rc = 10
                break
        leave(rc)
    if cmd == 'genhang':
        check, base, seed, path = argv[1:]
        sc = runner.make_scenario(check, runner.spec_of(check), int(base), int(seed))
        with open(path, 'w') as f:
            json.dump(dict(property=check, kind='hang', seed=int(seed), base=int(base), scenario=sc,
                           run_seed=runner.derive(check, int(base), int(seed), 'run')), f)
        leave(0)
    if cmd == 'shrink':
        check, base, src, path, limit = argv[1:]
        with open(src) as f:
            v = json.load(f)
        spec = runner.spec_of(check)
        known = runner.known_ids(check)
        sc, tr, viol, tried = runner.shrink(spec, v['scenario'], v['trace'], v['oracle'], float(limit), known)
        if viol is None:
            leave(3)
        with open(path, 'w') as f:
            json.dump(dict(property=check, base=int(base), seed=v['seed'], oracle=viol.oracle, message=viol.message,
                           tb=viol.tb, scenario=sc, trace=tr, shrink_runs=tried), f, indent=1)
        leave(0)
    if cmd == 'selftest':
        # the simulator imports the working tree and two executions of one seed are identical
        for check in ('C01', 'C07'):
            spec = runner.spec_of(check)
            logs = []
            for i in range(2):
                sc, ch, w = runner.run_seed(check, spec, 1, 1)
                logs.append(repr((sc, ch.trace, w.log)))
            print(check, 'deterministic' if logs[0] == logs[1] else 'differs')
        leave(0)
    if cmd == 'seed':
        # prints the event log of seeds (determinism tests)
        import hashlib
        check, base, a, b = argv[1], int(argv[2]), int(argv[3]), int(argv[4])
        spec = runner.spec_of(check)
        for s in range(a, b):
            sc, ch, w = runner.run_seed(check, spec, base, s)
            h = hashlib.sha256(repr((sc, ch.trace, [repr(e) for e in w.log],
                                     [(v.oracle, v.message) for v in w.violations])).encode()).hexdigest()[:24]
            print(s, h, len(w.log), ';'.join('%s%s' % (v.oracle, '*' if v.known else '') for v in w.violations))
        sys.stdout.flush()
        leave(0)
    if cmd == 'show':
        check, base, s = argv[1], int(argv[2]), int(argv[3])
        spec = runner.spec_of(check)
        sc, ch, w = runner.run_seed(check, spec, base, s)
        print(json.dumps(sc, indent=1))
        for v in w.violations:
            print(v.oracle, v.known, v.message, v.tb or '')
        sys.stdout.flush()
        leave(0)
    raise SystemExit('unknown command %r' % cmd)


if __name__ == '__main__':
    main(sys.argv[1:])
