"""W06: a run on many processes gives the same results as a serial run."""
import os
import shutil

import numpy as np

from vp import par, prog, util
from vp.core import Violation

ID = 'W06'
LEVEL = 'model_checking'
TECHNIQUE = ('exploration of all schedules of whole runs on several real '
             'processes under a controlled MPI: all message matchings, and '
             'dynamic partial-order reduction over every file system '
             'operation of the program and its libraries')
NOTE = ('Each execution runs the whole program in as many processes as '
        'ranks. All file system operations (traced in libc) of all processes '
        'are compared: operations of different processes that conflict and '
        'that no communication orders are executed in both orders (one '
        'reversal, thorough two). If there are none, the executions of all '
        'matchings stand for all interleavings. Results are compared with '
        'those of a serial run byte for byte (arrays, attributes, mosaics).')
RULE = ('processes x tile layouts (with and without empty tiles, log folder '
        'there or not, results of an earlier run there or not) x matchings x '
        'reversed races. Non-trivial: more than one process.')
ASSUMPTIONS = ['a shared file system that shows changes to all processes',
               'operations of a process between two communications can only '
               'be seen by others through the file system']
TIMEOUT = 800
PRELOAD = True

LAYOUTS = {'one': (2, 2, ()), 'two': (2, 4, ()), 'down': (4, 2, ()),
           'hole': (2, 6, (1,)), 'three': (2, 6, ()),
           'first': (2, 4, (0,)), 'none': (2, 4, (0, 1)),
           'four': (4, 4, ()), 'five': (2, 10, ())}


def cases(tier):
    if tier == 'thorough':
        todo = [(2, 'one'), (2, 'two'), (2, 'down'), (2, 'hole'),
                (2, 'three'), (2, 'none'), (3, 'one'), (3, 'two'),
                (3, 'three'), (3, 'hole'), (3, 'four'), (4, 'two'),
                (4, 'three'), (5, 'two'), (4, 'four'), (2, 'four'),
                (3, 'none'), (2, 'first'), (3, 'first')]
        for n, (p, lay) in enumerate(todo):
            # the largest without reversed races, or only once
            large = (p, lay) in ((3, 'four'), (4, 'three'), (4, 'four'))
            for old in (n % 2,) if large or (p, lay) == (3, 'three') else \
                    (0, 1):
                m = 1 if large else 8 if p == 3 else 4
                for i in range(m):
                    yield dict(p=p, layout=lay, old=old, log=(n + old) % 2,
                               bound=2 if p < 3 else 1 - large, part=[i, m])
    else:
        for i in range(4):
            yield dict(p=3, layout='two', old=0, log=1, bound=1, part=[i, 4])
        for i in range(2):
            yield dict(p=2, layout='one', old=0, log=0, bound=1, part=[i, 2])
        yield dict(p=3, layout='hole', old=1, log=1, bound=0)
        yield dict(p=2, layout='two', old=1, log=1, bound=1)
        yield dict(p=4, layout='one', old=1, log=1, bound=0)
        yield dict(p=2, layout='none', old=1, log=1, bound=1)
        yield dict(p=2, layout='first', old=0, log=1, bound=1)
        yield dict(p=3, layout='down', old=0, log=1, bound=0)
        yield dict(p=3, layout='four', old=0, log=1, bound=0)
        yield dict(p=2, layout='five', old=1, log=1, bound=0)
        yield dict(p=2, layout='three', old=1, log=1, bound=0)


def setup(env):
    util.stub_git()
    import all_multipliers  # noqa: F401, before the ranks are forked


def run(env, case):
    folder = env.tmp()
    rows, cols, empty = LAYOUTS[case['layout']]
    # so high that slopes and hills depend on the size of the cells, which
    # is not the same for tiles at different latitudes
    dem = util.generic(rows, cols, 1, 100, 14000).astype('float32')
    for t in empty:
        dem[:, 2 * t:2 * t + 2] = 0
    cl = util.generic_classes(rows, cols, util.TABLE, 1).astype('int32')
    inp = prog.Inputs(folder, dem, cl, (145., .5, 0., -16., 0., -.5))
    logdir = os.path.dirname(inp.log)
    # the serial run, in a process of its own
    from vp import mpi
    pr = mpi.Traced(lambda proc: prog.run(inp.cfg), folder)
    end = pr.next()
    if end[0] != 'done':
        raise Violation('serial run ends with %s' % (end,), case=case)
    want = prog.read_results(inp.out)
    if not want:
        raise Violation('serial run leaves nothing', case=case)

    old = os.path.join(folder, 'old')
    if case['old']:
        # results of an earlier run with one tile more
        shutil.copytree(inp.out, old)
        for top, dirs, files in os.walk(inp.out):
            for f in files[:1]:
                shutil.copy(os.path.join(top, f),
                            os.path.join(old, os.path.relpath(top, inp.out),
                                         f.replace('e145', 'e99')))
        open(os.path.join(old, 'e145.0s16.0_dem.img'), 'w').write('x')

    def reset():
        for d in (inp.out, logdir):
            if os.path.isdir(d):
                shutil.rmtree(d)
        for f in os.listdir(folder):
            if f.startswith('multipliers.log'):
                os.remove(os.path.join(folder, f))
        if case['log']:
            os.makedirs(logdir)
        if case['old']:
            shutil.copytree(old, inp.out)

    before = util.tree(os.path.join(folder, 'in'))

    def judge(ex):
        for r, e in enumerate(ex.end):
            if e[0] != 'done':
                raise Violation('process %d of %d ends with %s'
                                % (r, case['p'], e), case=case)
        prog.same_results(prog.read_results(inp.out), want,
                          '%d processes, matching %s' % (case['p'], ex.path),
                          case=case)
        if util.tree(os.path.join(folder, 'in')) != before:
            raise Violation('inputs changed', case=case)

    os.chdir(folder)
    n, races, events = par.all_runs(case['p'], par.program(inp.cfg), folder,
                                    judge, reset, case['bound'],
                                    brief=not env.thorough,
                                    part=case.get('part', (0, 1)))
    env.count(key=case, evaluations=n, states=n, transitions=events,
              traces=n, nontrivial=case['p'] > 1)
    env.sample(dict(case, executions=n, races=races, file_operations=events))
