"""W13: a run that cannot write its results does not report success."""
import os
import shutil

from vp import mpi, prog, util
from vp.core import Violation

ID = 'W13'
LEVEL = 'fault_enumeration'
TECHNIQUE = ('enumeration of all points of a run at which the disk becomes '
             'full, no file can be created any more, or one operation fails: '
             'every file system operation of the program and its libraries '
             '(traced in libc) in turn')
NOTE = ('A full disk: from the operation on the kernel refuses to let any '
        'file grow (limit of the size of files). No more files: creations of '
        'files and folders fail. One failure: a creation or a write to a '
        'netCDF file or mosaic fails once, or the disk is full until such a '
        'file is closed. The run must end with an error, or '
        'its results must be those of a run without the fault. Then it is '
        'run again without the fault and must give these results, too. '
        'Failed writes of GDAL within files that do not grow are left out: '
        'it does not report them.')
RULE = ('runs (tiles, results of an earlier run there or not, processes) x '
        'faults x operations. Non-trivial: all.')
ASSUMPTIONS = ['a disk that is full stays full until the run ends']
TIMEOUT = 800
PRELOAD = True

LAYOUTS = {'one': (2, 2, .5, ()), 'two': (2, 4, .5, ()),
           'hole': (2, 6, .5, (1,)), 'mid': (48, 48, .02, ()),
           'big': (70, 70, .0125, ())}
START = {'full': 'CWXTMN', 'files': 'CMN', 'create': 'CMN', 'write': 'W', 'short': 'CWXT'}


def cases(tier):
    if tier == 'thorough':
        # a capped run gets through a part of every kind
        for i in range(24):
            for layout, old in (('one', 0), ('two', 1), ('hole', 0),
                                ('one', 1), ('two', 0)):
                for how in START:
                    if old and layout == 'two' and how in ('full', 'short'):
                        continue
                    yield dict(layout=layout, old=old, how=how,
                               part=[i, 24], again=3)
            yield dict(layout='big', old=0, how='full', part=[i, 24],
                       only='.img .tif .vrt', again=9)
            for how in START:
                yield dict(layout='two', old=0, how=how, part=[i, 24], p=2,
                           again=9)
    else:
        for i in range(8):
            yield dict(layout='one', old=0, how='full', part=[i, 8],
                       only='.img .tif .vrt', again=12)
        for i in range(8):
            yield dict(layout='one', old=1, how='full', part=[i, 8], every=9,
                       again=5)
        for how in ('files', 'create'):
            for i in range(4):
                yield dict(layout='one', old=0, how=how, part=[i, 4],
                           again=9)
        for i in range(2):
            yield dict(layout='two', old=1, how='create', part=[i, 2],
                       every=2, again=9)
        for i in range(4):
            yield dict(layout='one', old=0, how='write', part=[i, 4],
                       every=4, again=9)
            yield dict(layout='one', old=0, how='short', part=[i, 4],
                       every=4, again=9)
        for i in range(4):
            yield dict(layout='two', old=0, how='create', part=[i, 4], p=2,
                       every=4, again=9)


def setup(env):
    util.stub_git()
    import all_multipliers  # noqa: F401, before the processes are forked


class Faults(object):
    """The fault, from the n-th operation of those it can begin with."""

    def __init__(self, case, folder, n):
        self.case, self.folder, self.n = case, folder, n
        self.how = case['how']
        self.count = 0
        self.hit = None
        self.only = tuple(case['only'].split()) if case.get('only') else None

    def starts(self, op, p):
        if op not in START[self.how] or p.endswith('.log'):
            return False
        if self.only and not p.endswith(self.only):
            return False
        if self.how in ('write', 'short'):
            name = os.path.basename(p)
            return '.nc' in name or '.vrt' in name
        return True

    def __call__(self, op, p, q, num):
        if not self.hit:
            if not self.starts(op, p):
                return b'g'
            self.count += 1
            if self.n is None or self.count - 1 != self.n:
                return b'g'
            self.hit = '%s %s' % (op, os.path.relpath(p, self.folder))
            self.file = p
        elif self.how == 'short':
            return b'l' if p == self.file else b'u'
        elif self.how in ('create', 'write'):
            return b'g'
        if self.how in ('full', 'short'):
            return b'f' if op == 'M' else b'l'
        if self.how == 'files':
            return b'f' if op in 'MN' or (op == 'C' and not
                                          os.path.lexists(p)) else b'g'
        return b'f'


def execute(case, inp, folder, n=None):
    """End of a run, the operation with the fault, number of operations."""
    if case.get('p'):
        return several(case, inp, folder, n)
    f = Faults(case, folder, n)
    end = mpi.Traced(lambda proc: prog.run(inp.cfg), folder, f,
                     'SRLP').next()
    return end, f.hit, f.count


def several(case, inp, folder, n):
    f = Faults(case, folder, n)

    def program(rank, me):
        mpi.install(mpi.make_module(me))
        prog.run(inp.cfg)

    ranks = mpi.ProcessRanks(case['p'], program, folder,
                             lambda r, *a: f(*a), 'SRLP')
    w = None
    try:
        w = mpi.World(ranks, 'eager')
        while not w.finished():
            sure, choices = w.transitions()
            if sure is None and not choices:
                break
            w.apply(sure or choices[0])
        ends = [e for e in w.end if e is not None]
        end = next((e for e in ends if e[0] != 'done'), ('done', None))
        if end[0] == 'done' and not w.finished():
            raise Violation('processes wait for each other', case=case)
    except mpi.Mismatch as e:
        end = ('failed', str(e))
    finally:
        (w or ranks).close()
    return end, f.hit, f.count


def old_results(folder, inp, case):
    """What an earlier run of another region and an earlier version left."""
    end = mpi.Traced(lambda proc: prog.run(inp.cfg), folder).next()
    if end[0] != 'done':
        raise Violation('run ends with %s' % (end,), case=case)
    for top, dirs, files in os.walk(inp.out):
        for f in files:
            with open(os.path.join(top, f), 'ab') as g:
                g.write(b'old')


def run(env, case):
    folder = env.tmp()
    rows, cols, cell, empty = LAYOUTS[case['layout']]
    dem = util.generic(rows, cols, 1, 1, 900).astype('float32')
    for t in empty:
        dem[:, 2 * t:2 * t + 2] = 0
    cl = util.generic_classes(rows, cols, util.TABLE, 1).astype('int32')
    inp = prog.Inputs(folder, dem, cl, (145., cell, 0., -16., 0., -cell))
    inputs = util.tree(os.path.join(folder, 'in'))
    os.chdir(folder)
    if case['old']:
        old_results(folder, inp, case)
        shutil.copytree(inp.out, os.path.join(folder, 'old'))

    def fresh():
        for d in os.listdir(folder):
            if d not in ('in', 'old') and os.path.isdir(d):
                shutil.rmtree(d)
        if case['old']:
            shutil.copytree(os.path.join(folder, 'old'), inp.out)

    fresh()
    end, _, total = execute(case, inp, folder)
    if end[0] != 'done':
        raise Violation('run ends with %s' % (end,), case=case)
    want = prog.read_results(inp.out)
    i, k = case['part']
    failed, hit = 0, None
    for j, n in enumerate(range(i, total, k * case.get('every', 1))):
        fresh()
        end, hit, _ = execute(case, inp, folder, n)
        what = {'full': 'disk full from', 'files': 'no new files from',
                'create': 'failure of', 'write': 'failure of',
                'short': 'disk full for one file from'}[case['how']]
        what = '%s operation %d (%s)' % (what, n, hit)
        if hit is None:
            env.skip('operation %d not reached' % n)
            continue
        if end[0] == 'died':
            raise Violation('%s: the process is killed (%s)'
                            % (what, end[1]), case=case)
        if end[0] == 'failed' or (end[0] == 'exit' and
                                  end[1] not in (0, None)):
            failed += 1
        else:
            results(inp, want, what + ': run without an error', case)
        if j % case['again'] == 0:
            clean = dict(case, how='full', only=None)
            end = execute(clean, inp, folder)[0]
            if end[0] != 'done':
                raise Violation('run after a run with %s ends with %s'
                                % (what, end), case=case)
            results(inp, want, 'run after a run with ' + what, case)
        if util.tree(os.path.join(folder, 'in')) != inputs:
            raise Violation('inputs changed by a run with ' + what, case=case)
        env.count(key=[case['layout'], case['old'], case['how'],
                       case.get('p'), n])
    env.sample(dict(case, operations=total, failed=failed, last=hit))


def results(inp, want, what, case):
    try:
        got = prog.read_results(inp.out)
    except Exception as e:
        raise Violation('%s, but results cannot be read: %r' % (what, e),
                        case=case)
    prog.same_results(got, want, what, case=case)
