"""
Runner of the checks: enumerates the cases of a property, spreads them over
worker processes, collects what they covered and found, writes the evidence.

A check is a module vp.checks.<id in lower case> with

  ID, LEVEL, TECHNIQUE, NOTE, RULE, ASSUMPTIONS   what it is (for the records)
  cases(tier)        yields the cases, JSON values, always in the same order
  run(env, case)     explores one case completely; raises Violation
  setup(env)         optional, once per worker
  TIMEOUT            optional, seconds one case may take (default 60)

Every case of the enumeration is run, nothing is drawn at random; VERIF_SEED
is only recorded.
"""
import ctypes
import fcntl
import hashlib
import importlib
import json
import os
import pwd
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('VP_REPO', '/repo'))
WORKERS = int(os.environ.get('VP_WORKERS', '8'))
BUDGET = {'quick': 420., 'thorough': 740.}
KNOWN = os.path.join(VERIF, 'known_findings.txt')
MAX_VIOLATIONS = 3      # per worker, then it stops


class Violation(Exception):
    """The property does not hold. key names the failing input or site."""

    def __init__(self, msg, key=None, case=None):
        Exception.__init__(self, msg)
        self.key = key
        self.case = case


class Hang(BaseException):
    pass


class GuardError(PermissionError):
    pass


def jhash(obj):
    s = obj if isinstance(obj, str) else json.dumps(obj, sort_keys=True,
                                                    default=str)
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=7)
                          .digest(), 'big')


# --------------------------------------------------------------------- guard

class Guard(object):
    """
    Refuses file system changes outside the scratch folder of the worker (as
    far as Python itself makes them; for the libraries the worker runs as an
    unprivileged user).
    """

    CHANGES = {'os.remove': (0, 1), 'os.rename': (0, 2), 'os.rmdir': (0, 1),
               'os.mkdir': (0, 2), 'os.link': (1, 3), 'os.symlink': (1, 2),
               'os.truncate': (0, None), 'os.chmod': (0, 2),
               'os.chown': (0, 3), 'os.utime': (0, 3),
               'shutil.rmtree': (0, 1), 'shutil.move': (0, None)}

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.hits = []
        self.active = True

    def resolve(self, path, dir_fd=None):
        if isinstance(path, int):
            return os.readlink('/proc/self/fd/%d' % path)
        path = os.fsdecode(path)
        if not os.path.isabs(path):
            if isinstance(dir_fd, int) and dir_fd >= 0:
                path = os.path.join(
                    os.readlink('/proc/self/fd/%d' % dir_fd), path)
            else:
                path = os.path.join(os.getcwd(), path)
        head, tail = os.path.split(path.rstrip('/'))
        return os.path.join(os.path.realpath(head), tail)

    def inside(self, path):
        return path == self.root or path.startswith(self.root + os.sep)

    def __call__(self, event, args):
        if not self.active:
            return
        if event == 'open':
            path, mode, flags = args
            if path is None or isinstance(path, int):
                return
            writing = (isinstance(mode, str) and
                       any(c in mode for c in 'wax+')) or \
                (isinstance(flags, int) and flags &
                 (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
            if not writing:
                return
            full = self.resolve(path)
            if full in ('/dev/null', '/dev/tty') or self.inside(full):
                return
            # opening a file for writing follows a symbolic link at the end
        elif event in self.CHANGES:
            p, d = self.CHANGES[event]
            if args[p] is None:
                return
            dir_fd = args[d] if d is not None and d < len(args) else None
            try:
                full = self.resolve(args[p], dir_fd)
            except OSError:
                return
            if self.inside(full):
                return
        elif event in ('os.kill', 'os.killpg'):
            full = 'process %r' % (args[0],)
        else:
            return
        self.hits.append('%s %s' % (event, full))
        raise GuardError('refused outside the scratch folder: %s %s'
                         % (event, full))


# --------------------------------------------------------------- environment

class Env(object):
    """What the cases of a worker share."""

    def __init__(self, tier, scratch):
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.scratch = scratch
        self.evaluations = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.keys = set()
        self.samples = []
        self.skipped = {}
        self.known_hits = {}
        self.guard = None
        self.known = set()
        self._n = 0

    def count(self, key=None, evaluations=1, nontrivial=True, states=0,
              transitions=0, traces=0):
        self.evaluations += evaluations
        self.states += states
        self.transitions += transitions
        self.traces += traces
        if key is not None and nontrivial:
            self.keys.add(jhash(key))

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def skip(self, what):
        self.skipped[what] = self.skipped.get(what, 0) + 1

    def finding(self, key, msg, case=None):
        """A violation that may be listed in the known findings."""
        if key in self.known:
            self.known_hits.setdefault(key, msg)
            return
        raise Violation(msg, key, case)

    def tmp(self):
        """A new empty folder, removed after the case."""
        self._n += 1
        path = os.path.join(self.scratch, 'c%d' % self._n)
        os.mkdir(path)
        self._dirs.append(path)
        return path

    _dirs = []

    def clean(self):
        os.chdir(self.home)
        for path in self._dirs:
            if os.path.lexists(path):
                force_rmtree(path, self.scratch)
        del self._dirs[:]

    @property
    def home(self):
        return os.path.join(self.scratch, 'home')


def force_rmtree(path, root):
    path = os.path.realpath(path)
    assert path.startswith(os.path.realpath(root) + os.sep), path
    shutil.rmtree(path, ignore_errors=True)


def check_module(pid):
    return importlib.import_module('vp.checks.' + pid.lower())


def load_known(pid):
    """{key: text} of the findings listed for a property."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' ')
                assert key.startswith('key=')
                out[key[4:]] = text
    return out


def drop_privileges():
    if os.getuid() != 0:
        return 'user %d' % os.getuid()
    try:
        pw = pwd.getpwnam('nobody')
        os.setgroups([])
        os.setgid(pw.pw_gid)
        os.setuid(pw.pw_uid)
        os.environ['USER'] = os.environ['LOGNAME'] = 'nobody'
        return 'nobody'
    except (OSError, KeyError) as e:
        return 'root (%s)' % e


def on_alarm(signum, frame):
    raise Hang()


def claimed(cases, counter, k):
    """The cases this worker takes from those shared by all workers."""
    def take():
        fcntl.lockf(counter, fcntl.LOCK_EX)
        try:
            i = int(os.pread(counter, 20, 0) or b'0')
            os.pwrite(counter, b'%d' % (i + 1), 0)
        finally:
            fcntl.lockf(counter, fcntl.LOCK_UN)
        return i

    mine = take()
    for i, case in enumerate(cases):
        if i == mine:
            yield i, case
            mine = take()


MEMORY = 4 << 30


def limits():
    """A program that takes up all memory fails by itself."""
    try:
        soft, hard = resource.getrlimit(resource.RLIMIT_AS)
        if hard == resource.RLIM_INFINITY or hard > MEMORY:
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    except (OSError, ValueError):
        pass


def follow_parent():
    try:
        # ends with the process that started it
        ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
    except (OSError, AttributeError):
        pass


def worker(pid, tier, k, n, scratch, out, replay, budget):
    t_end = time.time() + budget
    limits()
    os.environ['HOME'] = os.path.join(scratch, 'home')
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    for name in ('CPL_DEBUG', 'GDAL_PAM_ENABLED'):
        os.environ.pop(name, None)
    os.chdir(os.path.join(scratch, 'home'))
    fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    counter = os.open(os.path.join(os.path.dirname(scratch), 'next'),
                      os.O_RDWR | os.O_CREAT, 0o644)

    def say(kind, **kw):
        kw['kind'] = kind
        os.write(fd, (json.dumps(kw, default=str) + '\n').encode())

    env = Env(tier, scratch)
    env.known = set(load_known(pid))
    env.guard = Guard(scratch)
    sys.addaudithook(env.guard)
    sys.dont_write_bytecode = True
    devnull = os.open(os.devnull, os.O_WRONLY)
    err = os.open(os.path.join(scratch, 'stderr'),
                  os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(devnull, 1)
    os.dup2(err, 2)
    sys.path[:0] = [REPO]
    try:
        mod = check_module(pid)
        env.user = drop_privileges()
        follow_parent()
        env.timeout = getattr(mod, 'TIMEOUT', 60)
        if hasattr(mod, 'setup'):
            mod.setup(env)
    except (Exception, SystemExit):
        say('violation', msg='cannot load the program:\n' +
            traceback.format_exc()[-1500:], case=None, key='load')
        say('done', **summary(env))
        return

    signal.signal(signal.SIGALRM, on_alarm)
    if replay is not None:
        todo = [(0, replay)]
    else:
        todo = claimed(mod.cases(tier), counter, k)
    bad = 0
    capped = False
    done = 0
    for i, case in todo:
        if time.time() > t_end:
            capped = True
            break
        say('start', i=i, case=case)
        del env.guard.hits[:]
        try:
            signal.setitimer(signal.ITIMER_REAL, env.timeout)
            try:
                mod.run(env, case)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if env.guard.hits:
                raise Violation('touches files outside its folders: %s'
                                % env.guard.hits[:3])
        except Violation as e:
            if e.key is not None and e.key in env.known:
                env.known_hits.setdefault(e.key, str(e))
            else:
                bad += 1
                say('violation', msg=str(e),
                    case=case if e.case is None else e.case, key=e.key)
        except Hang:
            bad += 1
            say('violation', msg='does not return within %g s' % env.timeout,
                case=case, key=None)
        except (Exception, SystemExit):
            bad += 1
            say('violation', msg='unexpected exception:\n' +
                traceback.format_exc()[-1500:], case=case, key=None)
        try:
            env.clean()
        except OSError as e:
            say('note', msg=str(e))
        done += 1
        if bad >= MAX_VIOLATIONS:
            break
    say('done', cases=done, capped=capped, **summary(env))
    os._exit(0)


def summary(env):
    return dict(evaluations=env.evaluations, states=env.states,
                transitions=env.transitions, traces=env.traces,
                keys=sorted(env.keys), samples=env.samples,
                skipped=env.skipped, known=env.known_hits,
                user=getattr(env, 'user', ''))


def main(argv):
    if argv and argv[0] == '--worker':
        a = json.loads(argv[1])
        worker(**a)
        return 0
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--tier':
            tier = rest.pop(0)
        elif a == '--replay':
            replay = json.load(open(rest.pop(0)))['case']
        else:
            raise SystemExit('unknown argument ' + a)
    assert tier in BUDGET, tier
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = float(os.environ.get('VP_BUDGET', BUDGET[tier]))
    mod_info = check_module_info(pid)
    n = 1 if replay is not None else \
        min(WORKERS, mod_info.get('WORKERS', WORKERS))
    top = tempfile.mkdtemp(prefix='vp_%s_' % pid, dir='/tmp')
    os.chmod(top, 0o755)
    violations = []
    stats = dict(evaluations=0, states=0, transitions=0, traces=0)
    keys = set()
    samples = []
    skipped = {}
    known_hits = {}
    cases = 0
    capped = False
    users = set()
    try:
        procs = []
        lib = preload(top) if mod_info.get('PRELOAD') else None
        for k in range(n):
            scratch = os.path.join(top, 'w%d' % k)
            os.mkdir(scratch)
            os.mkdir(os.path.join(scratch, 'home'))
            if os.getuid() == 0:
                try:
                    pw = pwd.getpwnam('nobody')
                    for d in (scratch, os.path.join(scratch, 'home')):
                        os.chown(d, pw.pw_uid, pw.pw_gid)
                except (OSError, KeyError):
                    pass
            out = os.path.join(scratch, 'out.jsonl')
            a = dict(pid=pid, tier=tier, k=k, n=n, scratch=scratch, out=out,
                     replay=replay, budget=budget)
            p = subprocess.Popen(
                [sys.executable, '-B', os.path.join(VERIF, 'vp', 'main.py'),
                 '--worker', json.dumps(a)], stdin=subprocess.DEVNULL,
                start_new_session=True,
                env=dict(os.environ, LD_PRELOAD=lib) if lib else None)
            procs.append((p, out, scratch))
        limit = t0 + budget + mod_info.get('TIMEOUT', 60) + 30
        for p, out, scratch in procs:
            try:
                p.wait(max(1, limit - time.time()))
                late = False
            except subprocess.TimeoutExpired:
                late = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            rec = []
            if os.path.exists(out):
                for line in open(out):
                    try:
                        rec.append(json.loads(line))
                    except ValueError:
                        pass
            started = [r for r in rec if r['kind'] == 'start']
            violations += [r for r in rec if r['kind'] == 'violation']
            fin = [r for r in rec if r['kind'] == 'done']
            if not fin:
                err = ''
                try:
                    err = open(os.path.join(scratch, 'stderr'),
                               errors='replace').read()[-2000:]
                except OSError:
                    pass
                what = 'does not return' if late else \
                    'ends the process (code %s)' % p.returncode
                violations.append(dict(
                    msg=what + ' ' + err, key=None,
                    case=started[-1]['case'] if started else None))
                continue
            f = fin[-1]
            cases += f.get('cases', 0)
            capped = capped or f.get('capped', False)
            users.add(f.get('user', ''))
            for s in stats:
                stats[s] += f[s]
            keys.update(f['keys'])
            samples += f['samples']
            known_hits.update(f['known'])
            for a, b in f['skipped'].items():
                skipped[a] = skipped.get(a, 0) + b
    finally:
        shutil.rmtree(top, ignore_errors=True)

    known = load_known(pid)
    for key in sorted(known_hits):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[key]))
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for i, v in enumerate(violations):
        path = os.path.join(rdir, '%s-%d.json' % (pid, i))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, tier=tier, case=v['case'],
                           key=v.get('key'), msg=v['msg']), f, indent=1,
                      default=str)
        if i < 4:
            print(v['msg'].strip())
            print('VIOLATION property=%s replay=%s' % (pid, path))
    cov = dict(evaluations=stats['evaluations'],
               distinct_nontrivial=len(keys),
               rule=mod_info.get('RULE', ''),
               cases=cases, samples=samples[:6] or ['none'],
               exhaustive=bool(not capped and not violations and
                               replay is None and not skipped))
    if mod_info['LEVEL'] == 'model_checking':
        cov.update(states=stats['states'], transitions=stats['transitions'],
                   traces_validated_against_impl=stats['traces'])
    if skipped:
        cov['skipped'] = skipped
    if capped:
        cov['capped'] = 'stopped after %g s, %d cases done' % (budget, cases)
    cov['worker_user'] = ', '.join(sorted(users))
    ev = dict(property=pid, tier=tier, seed=seed, level=mod_info['LEVEL'],
              coverage=cov, assumptions=mod_info.get('ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    if replay is None:
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    print('%s %s: %d cases, %d evaluations, %d distinct, states %d, '
          'transitions %d%s%s, %.1f s: %s'
          % (pid, tier, cases, stats['evaluations'], len(keys),
             stats['states'], stats['transitions'],
             ', capped' if capped else '',
             ', skipped %s' % skipped if skipped else '',
             time.time() - t0,
             'VIOLATED' if violations else 'holds'))
    return 1 if violations else 0


def preload(folder):
    """Builds the library that traces file system operations."""
    out = os.path.join(folder, 'fsx.so')
    src = os.path.join(VERIF, 'vp', 'fsx.c')
    for cc in ('gcc', 'clang', 'cc'):
        try:
            subprocess.run([cc, '-O1', '-w', '-shared', '-fPIC', '-o', out,
                            src], check=True, stdin=subprocess.DEVNULL)
            os.chmod(out, 0o755)
            return out
        except (OSError, subprocess.CalledProcessError):
            continue
    raise SystemExit('no C compiler')


def check_module_info(pid):
    """The constants of a check, without importing the program under test."""
    import ast
    path = os.path.join(VERIF, 'vp', 'checks', pid.lower() + '.py')
    info = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and \
                isinstance(node.targets[0], ast.Name) and \
                node.targets[0].id.isupper():
            try:
                info[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return info
