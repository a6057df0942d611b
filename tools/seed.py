"""Development helper for planted bugs (never used by a check).

  seed.py save ID PROP      /tmp/wt (a changed copy of /repo) -> seeded/ID/patch.diff
  seed.py verify ID...      stable tests with the patch; demo without and with it
  seed.py run ID... [-c Cxx,...]  runs the check of the property against a patched copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def copy(patch=None):
    d = tempfile.mkdtemp(prefix='wt-', dir='/tmp')
    t = os.path.join(d, 'repo')
    shutil.copytree('/repo', t)
    if patch:
        r = sh('git apply --whitespace=nowarn %s' % patch, cwd=t)
        if r.returncode:
            raise SystemExit('patch does not apply: %s\n%s' % (patch, r.stdout))
    return d, t


def patch_of(i):
    return os.path.join(HERE, 'seeded', i, 'patch.diff')


def tests(t):
    d = tempfile.mkdtemp(prefix='rep-')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH='%s:/opt/vp' % t,
               PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    sh("%s -m pytest -q -p pytest_timeout -p vp_bootstrap -p no:cacheprovider --timeout=300 "
       "--continue-on-collection-errors --rootdir=%s -o python_files='test_*.py tests/__init__.py' "
       "-o junit_family=xunit2 --junitxml=%s/junit.xml cache_dependencies/tests django_cache_dependencies/tests"
       % (PY, t, d), cwd=t, env=env)
    sh('/usr/bin/python3 /opt/vp/results.py %s/out.json junit:%s/junit.xml' % (d, d))
    with open(d + '/out.json') as f:
        passed = set(json.load(f)['passed'])
    shutil.rmtree(d)
    with open('/opt/vp/BASELINE.json') as f:
        stable = set(json.load(f)['stable'])
    return sorted(stable - passed)


def demo(i, t):
    d = tempfile.mkdtemp(prefix='demo-')
    for n in os.listdir(os.path.join(HERE, 'seeded', i)):
        if not n.endswith(('.diff', '.patch')) and n != 'meta.json':
            p = os.path.join(HERE, 'seeded', i, n)
            (shutil.copytree if os.path.isdir(p) else shutil.copy)(p, os.path.join(d, n))
    r = sh('timeout 300 bash %s/demo.sh' % d, cwd=t)
    shutil.rmtree(d)
    return r


def main():
    cmd = sys.argv[1]
    ids = [a for a in sys.argv[2:] if not a.startswith('-')]
    if cmd == 'save':
        i, prop = ids[:2]
        os.makedirs(os.path.join(HERE, 'seeded', i), exist_ok=True)
        r = subprocess.run('git diff', shell=True, stdout=subprocess.PIPE, cwd='/tmp/wt')
        with open(patch_of(i), 'wb') as f:
            f.write(r.stdout)
        sh('git checkout -- .', cwd='/tmp/wt')
        return
    checks = None
    if '-c' in sys.argv:
        checks = sys.argv[sys.argv.index('-c') + 1].split(',')
        ids = [i for i in ids if i not in (','.join(checks),)]
    if ids == ['all']:
        ids = sorted(os.listdir(os.path.join(HERE, 'seeded')))
    for i in ids:
        with open(os.path.join(HERE, 'seeded', i, 'meta.json')) as f:
            prop = json.load(f)['property']
        d, t = copy(patch_of(i))
        try:
            if cmd == 'verify':
                bad = tests(t)
                d0, t0 = copy()
                r0 = demo(i, t0)
                shutil.rmtree(d0)
                r1 = demo(i, t)
                ok = not bad and r0.returncode == 0 and r1.returncode != 0
                print('%s %s failing=%s demo(unchanged)=%s demo(patched)=%s' % (
                    i, 'OK' if ok else 'BAD', bad, r0.returncode, r1.returncode))
                if not ok:
                    print(r0.stdout[-1500:], '\n--\n', r1.stdout[-1500:])
            else:
                for c in checks or [prop]:
                    env = dict(os.environ, VERIF_REPO=t)
                    r = sh('./check %s quick' % c, cwd=HERE, env=env)
                    out = [l for l in r.stdout.splitlines() if not l.startswith('KNOWN')]
                    print('%s check %s exit %s | %s' % (i, c, r.returncode, ' | '.join(l[:260] for l in out[-2:])), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
