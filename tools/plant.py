"""
Plants bugs: makes /verif/seeded/<id>/ from a description and confirms it.

    plant.py [--checks] [--all] ID ...

Descriptions are in plants/<id>.py: PROPERTY, NEEDS, BREAKS, EDITS (list of
(file, old text, new text)) and, after a line `# --- demo`, the demonstration.
Confirms in a scratch copy of /repo that the change builds, passes the stable
tests, that the demonstration passes without and fails with it, and (with
--checks) which checks detect it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
PLANTS = os.path.join(HERE, 'plants')
DEMO_SH = '''#!/bin/bash
# cwd: the repository, built; exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python -B "$here/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, env=dict(os.environ, **(env or {})))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return None, 'timeout'


def tests(repo):
    """Last line of the test run in a copy."""
    path = ':'.join([repo] + [repo + '/' + x for x in (
        'utilities', 'topographic', 'tests', 'tests/test_topographic')])
    rc, out = sh('/opt/venv/bin/python -m pytest -q -p pytest_timeout -p '
                 'no:cacheprovider --timeout=300 '
                 '--continue-on-collection-errors tests', cwd=repo,
                 env={'PYTHONPATH': path, 'PYTHONDONTWRITEBYTECODE': '1',
                      'PYTEST_DISABLE_PLUGIN_AUTOLOAD': '1'})
    return out


def plant(name, checks=False):
    src = open(os.path.join(PLANTS, name + '.py')).read()
    head, demo = src.split('# --- demo\n')
    spec = {}
    exec(head, spec)
    top = tempfile.mkdtemp(prefix='plant')
    os.chmod(top, 0o755)
    repo = os.path.join(top, 'repo')
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        for f, old, new in spec['EDITS']:
            p = os.path.join(repo, f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                return name, 'BAD EDIT: %d times in %s: %s' % (n, f, old)
            open(p, 'w').write(t.replace(old, new))
        rc, diff = sh('git diff', cwd=repo)
        rc, blame = sh('git diff -U0 | grep "^@@" ', cwd=repo)
        warn = own_lines(repo)
        d = os.path.join(SEEDED, name)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
        shutil.copy(os.path.join(HERE, 'demo_lib.py'), d)
        json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'],
                   'what_it_breaks': spec['BREAKS']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        away = os.path.join(top, 'demo')
        os.mkdir(away)
        for f in ('demo.sh', 'demo.py', 'demo_lib.py'):
            shutil.copy(os.path.join(d, f), away)
        msg = []
        rc, out = sh('bash %s/demo.sh' % away, cwd='/repo', timeout=300)
        if rc != 0:
            msg.append('DEMO FAILS ON CLEAN TREE (%s): %s' % (rc, out[-1500:]))
        rc, out = sh('bash %s/demo.sh' % away, cwd=repo, timeout=300)
        if rc == 0 or rc is None:
            msg.append('DEMO PASSES WITH PATCH (%s): %s' % (rc, out[-1500:]))
        else:
            last = [x for x in out.split('\n') if x.strip()]
            f = [x for x in last if x.startswith('FAILED')]
            msg.append('demo: %s' % ((f or last[-1:])[0][:200]))
        out = tests(repo)
        if '1 failed, 32 passed' not in out:
            bad = [x for x in out.split('\n') if x.startswith('FAILED')]
            msg.append('TESTS: %s %s' % (bad, out[-300:]))
        if warn:
            msg.append('OWN LINES: %s' % warn)
        if checks:
            todo = [spec['PROPERTY']] if checks is True else checks
            for c in todo:
                rc, out = sh('/verif/check %s quick' % c, env={
                    'VP_REPO': repo, 'VERIF_SEED': '1',
                    'VP_EVIDENCE': top, 'VERIF_TIER': 'quick'}, cwd='/verif')
                v = [x for x in out.split('\n') if x.startswith('VIOLATION')]
                m = [x for x in out.split('\n') if x.strip()]
                msg.append('%s: %s' % (c, 'caught' if rc == 1 and v else
                                       'MISSED (rc %s) %s' % (rc, m[-1:])))
        return name, '; '.join(msg)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def own_lines(repo):
    """Removed lines that are not of the original repository."""
    import re
    bad = []
    rc, names = sh('git diff --name-only', cwd=repo)
    for f in names.split():
        rc, blame = sh('git blame --porcelain HEAD -- %s | grep -E '
                       '"^[0-9a-f]{40} "' % f, cwd=repo)
        who = {}
        for line in blame.split('\n'):
            p = line.split()
            if len(p) >= 3:
                who[int(p[2])] = p[0]
        rc, base = sh('git rev-list --max-parents=0 HEAD', cwd=repo)
        base = base.strip()
        rc, d = sh('git diff -U0 -- %s' % f, cwd=repo)
        orig = own = 0
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            for k in range(a, a + n):
                if who.get(k) == base:
                    orig += 1
                else:
                    own += 1
            if n == 0:
                orig += who.get(a) == base
                own += who.get(a) != base
        if own and not orig:
            bad.append('%s: only own lines' % f)
        elif own:
            bad.append('%s: %d own lines of %d' % (f, own, own + orig))
    return bad


def main(argv):
    from concurrent.futures import ThreadPoolExecutor
    checks = False
    jobs = 3
    names = []
    for a in argv:
        if a == '--checks':
            checks = True
        elif a.startswith('--checks='):
            checks = a.split('=')[1].split(',')
        elif a.startswith('-j'):
            jobs = int(a[2:])
        elif a == '--all':
            names = sorted(f[:-3] for f in os.listdir(PLANTS)
                           if f.endswith('.py'))
        else:
            names.append(a)
    with ThreadPoolExecutor(jobs) as ex:
        for name, msg in ex.map(lambda n: plant(n, checks), names):
            print('%-8s %s' % (name, msg))
            sys.stdout.flush()


if __name__ == '__main__':
    main(sys.argv[1:])
