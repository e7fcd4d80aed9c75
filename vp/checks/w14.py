"""W14: each process of a run keeps its own log where it is configured."""
import itertools
import logging
import os
import shutil
import sys

import numpy as np

from vp import mpi, par, prog, util
from vp.core import Violation

ID = 'W14'
LEVEL = 'model_checking'
TECHNIQUE = ('exploration of all schedules of the start of runs on several '
             'real processes under a controlled MPI, with dynamic '
             'partial-order reduction over every file system operation, and '
             'exhaustive enumeration of log settings of serial runs, against '
             'a model of which messages each log file has')
NOTE = ('Every process adds messages of all levels at the end of its run, '
        'tagged with its rank; each log file must hold exactly those of its '
        'process from the configured level on. Runs are of a region without '
        'elevation, so that nothing is computed; what orders the creation of '
        'folders and logs is the same as in any run. Conflicting operations '
        'of different processes that nothing orders are executed in both '
        'orders, with up to 2 reversals at a time; those about results are '
        'explored by W06.')
RULE = ('processes x state of the log folder x settings x matchings x '
        'reversed races; serial: place x level x verbose settings x terminal '
        'x older log. Distinct are the settings.')
ASSUMPTIONS = ['a shared file system that shows changes to all processes',
               'the log that is judged is the first one of its process']
TIMEOUT = 600
PRELOAD = True

LEVELS = ('NOTSET', 'DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL')
PLACES = ('new', 'there', 'deep', 'bare', 'relative', 'relative new',
          'relative deep', 'dotted', 'linked', 'blocked', 'blocked deep',
          'no extension')
MESSAGES = [(5, 'fine'), (10, 'debug'), (20, 'info'), (30, 'warning'),
            (40, 'error'), (50, 'critical')]


def cases(tier):
    deep = tier == 'thorough'
    some = ('new', 'deep', 'relative deep', 'there', 'blocked', 'linked')
    more = ('bare', 'relative new', 'blocked deep', 'dotted')
    for place in some + more if deep else some:
        for p in (2, 3, 4, 5) if deep else (2, 3):
            for old in (0, 1):
                one = dict(k='processes', p=p, place=place, old=old,
                           level=LEVELS[(p + old) % 4 + 1], bound=1)
                if old == 0 and (p == 2 and (deep or place == 'new') or
                                 p == 3 and deep and place == 'new'):
                    one['bound'] = 2
                    for i in range(4):
                        yield dict(one, part=[i, 4])
                else:
                    yield one
    # more processes than digits
    yield dict(k='processes', p=12, place='there', old=1, level='INFO',
               bound=0)
    for place in PLACES:
        for level in LEVELS:
            yield dict(k='serial', place=place, level=level)


def setup(env):
    util.stub_git()
    import all_multipliers  # noqa: F401, before the ranks are forked


def speak(rank):
    for n, m in MESSAGES:
        logging.getLogger('x' if n == 20 else None).log(
            n, 'rank%d-%s-%%s' % (rank, m), 7)


def heard(rank, level):
    return ['rank%d-%s-7' % (rank, m) for n, m in MESSAGES
            if n >= getattr(logging, level)]


def said(name):
    if not os.path.isfile(name):
        return None
    with open(name) as h:
        lines = h.read().splitlines()
    return [x.split(': ', 1)[-1] for x in lines if x.endswith('-7')]


def shown(screen):
    return [x.split(': ', 1)[-1] for x in ''.join(screen.text).splitlines()
            if x.endswith('-7')]


class Site(object):
    """A folder with the inputs and the settings of the log."""

    def __init__(self, folder, place, level, verbose=None):
        self.folder, self.place = folder, place
        inp = prog.Inputs(folder, np.zeros((2, 2), 'f4'),
                          np.ones((2, 2), 'i4'), (145., .5, 0., -16., 0., -.5))
        self.out = inp.out
        here = self.here = os.path.join(folder, 'cwd')
        os.makedirs(here)
        self.text, self.log = {
            'new': (folder + '/l/m.log',) * 2,
            'there': (folder + '/l/m.log',) * 2,
            'deep': (folder + '/l/m/m.log',) * 2,
            'bare': ('m.log', here + '/m.log'),
            'relative': ('in the way/m.log', here + '/in the way/m.log'),
            'relative new': ('l/m.log', here + '/l/m.log'),
            'relative deep': ('l/m/m.log', here + '/l/m/m.log'),
            'dotted': ('../l/./x/../m.log', folder + '/l/m.log'),
            'linked': (folder + '/link/m.log', folder + '/l/m.log'),
            'blocked': (folder + '/f/m.log', here + '/multipliers.log'),
            'blocked deep': (folder + '/f/a/b/m.log',
                             here + '/multipliers.log'),
            'no extension': (folder + '/l/log',) * 2}[place]
        with open(inp.cfg) as h:
            lines = h.read().splitlines()
        for i, x in enumerate(lines):
            key = x.partition('=')[0].strip().lower()
            if key == 'logfile':
                lines[i] = 'LogFile = ' + self.text
            elif key == 'loglevel':
                lines[i] = 'LogLevel = ' + level
            elif key == 'verbose' and verbose is not None:
                lines[i] = 'Verbose = ' + verbose
        with open(inp.cfg, 'w') as h:
            h.write('\n'.join(lines) + '\n')
        self.cfg = inp.cfg
        os.chdir(here)

    def reset(self, old=0, size=1):
        for d in (self.out, self.here, self.folder + '/l'):
            if os.path.isdir(d):
                for x in os.listdir(d):
                    x = os.path.join(d, x)
                    if os.path.isdir(x):
                        shutil.rmtree(x)
                    else:
                        os.remove(x)
                if d != self.here:
                    os.rmdir(d)
        for x in ('link', 'f'):
            if os.path.lexists(os.path.join(self.folder, x)):
                os.remove(os.path.join(self.folder, x))
        if self.place == 'there':
            os.makedirs(self.folder + '/l')
        elif self.place == 'relative':
            os.makedirs(self.here + '/in the way')
        elif self.place == 'linked':
            os.makedirs(self.folder + '/l')
            os.symlink('l', self.folder + '/link')
        elif self.place.startswith('blocked'):
            with open(self.folder + '/f', 'w') as h:
                h.write('in the way\n')
        if old:
            # the logs of an earlier run, and of one process more
            d = os.path.dirname(self.log)
            if not os.path.isdir(d):
                os.makedirs(d)
            for r in range(size + 1):
                with open(self.name(r), 'w') as h:
                    h.write('earlier-7\nrank9-error-7\n')

    def name(self, rank):
        return self.log + ('_%d' % rank if rank else '')

    def logs(self):
        """All files that are neither inputs nor results."""
        found = []
        for d, _, fs in os.walk(self.folder):
            if d.startswith((self.folder + '/in', self.out)):
                continue
            found += [os.path.join(d, f) for f in fs if f != 'f' and
                      f != 'link']
        return sorted(found)

    def judge(self, size, level, old, what, case):
        names = [self.name(r) for r in range(size)]
        more = [self.name(size)] if old else []
        if self.logs() != sorted(names + more):
            raise Violation('%s: logs are %s, expected %s'
                            % (what, self.logs(), sorted(names + more)),
                            case=case)
        for r, n in enumerate(names):
            got = said(n)
            if got != heard(r, level):
                raise Violation('%s: the log of process %d, %s, has %s, '
                                'expected %s' % (what, r, n, got,
                                                 heard(r, level)), case=case)
        for n in more:
            if said(n) != ['earlier-7', 'rank9-error-7']:
                raise Violation('%s: the log %s of no process of this run is '
                                'changed' % (what, n), case=case)
        if self.place.startswith('blocked'):
            with open(self.folder + '/f') as h:
                if h.read() != 'in the way\n':
                    raise Violation('%s: a file is changed' % what, case=case)


def program(cfg, extra=()):
    def body(rank, me):
        import all_multipliers
        mpi.install(mpi.make_module(me))
        sys.argv = ['all_multipliers.py', '-c', cfg] + list(extra)
        prog.reset_logging()
        sys.stdout = sys.stderr = screen = Screen(True)
        all_multipliers.run()
        speak(rank)
        logging.shutdown()
        return shown(screen)
    return body


def run(env, case):
    {'processes': processes, 'serial': serial}[case['k']](env, case)


def processes(env, case):
    p, level = case['p'], case['level']
    site = Site(env.tmp(), case['place'], level)
    orders = set()

    def judge(ex):
        for r, e in enumerate(ex.end):
            if e[0] != 'done':
                raise Violation('process %d of %d ends with %s' % (r, p, e),
                                case=case)
            want = heard(r, level) if case['old'] and r == 0 else []
            if list(e[1]) != want:
                raise Violation('the screen of process %d of %d shows %s, '
                                'expected %s' % (r, p, e[1], want), case=case)
        site.judge(p, level, case['old'], '%d processes' % p, case)
        orders.add(tuple(e.rank for e in ex.events if e.op == 'M'))

    n, races, events = par.all_runs(
        p, program(site.cfg, ['-v'] * case['old']), site.folder, judge,
        lambda: site.reset(case['old'], p), case['bound'],
        part=case.get('part', (0, 1)),
        about=lambda f: not f.startswith((site.out, site.folder + '/in')))
    env.count(key=case, evaluations=n, states=n, transitions=events, traces=n)
    env.sample(dict(case, executions=n, races=races,
                    orders_of_folders=len(orders)))


class Screen(object):
    def __init__(self, tty):
        self.tty, self.text = tty, []

    def isatty(self):
        return self.tty

    def write(self, text):
        self.text.append(text)

    def flush(self):
        pass


def serial(env, case):
    import all_multipliers
    from utilities.config import configparser
    level = case['level']
    for verbose in (None, 'True', 'False', 'yes', '0'):
        site = Site(env.tmp(), case['place'], level, verbose)
        for flag, tty, old in itertools.product((0, 1), repeat=3):
            site.reset(old)
            prog.reset_logging()
            screen = Screen(tty)
            keep = sys.stdout, sys.stderr, sys.argv
            sys.stdout = sys.stderr = screen
            sys.argv = ['all_multipliers.py', '-c', site.cfg] + \
                ['-v', '--verbose'][old:old + 1] * flag
            try:
                all_multipliers.run()
                speak(0)
            finally:
                sys.stdout, sys.stderr, sys.argv = keep
                prog.reset_logging()
            what = 'log %s of level %s, verbose %s%s' % (
                site.text, level, verbose, ' and asked for' * flag)
            site.judge(1, level, old, what, case)
            loud = flag or configparser.getboolean('Logging', 'Verbose')
            got = shown(screen)
            if got != (heard(0, level) if loud and tty else []):
                raise Violation('%s: the screen shows %s' % (what, got),
                                case=case)
            env.count(key=[case, verbose, flag, tty, old], states=1,
                      transitions=len(MESSAGES), traces=1)
    env.sample(case)
