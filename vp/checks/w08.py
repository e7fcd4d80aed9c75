"""W08: a run owns its output folder and nothing else."""
import itertools
import os
import shutil

import numpy as np

from vp import mpi, par, prog, util
from vp.core import Violation

ID = 'W08'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of earlier contents of the output '
             'folder, of path forms and working directories and of sequences '
             'of runs, with every file system operation of the program and '
             'its libraries traced')
NOTE = ('Every operation that changes the file system (traced in libc, so '
        'also those of GDAL and netCDF) must lie in the output folder or be '
        'the log file; the whole scratch area is compared before and after; '
        'the output folder is compared with the reference model. All ordered '
        'pairs of three different runs, in one process and in new ones.')
RULE = ('earlier contents x path forms x working directories; ordered pairs '
        '(triples) of runs. Non-trivial: an output folder with contents, or '
        'an unusual path.')
ASSUMPTIONS = ['the output folder does not hold inputs or the log']
TIMEOUT = 200
PRELOAD = True

OLD = ('none', 'empty', 'files', 'nested', 'links', 'results', 'readonly',
       'filelike', 'tiles')
NAMES = ('out', 'o ut', 'o[ab]c', 'o*', 'a.b_c', 'mz_n', 'x.nc', 'öü',
         'deep/er/out', "it's")


def cases(tier):
    deep = tier == 'thorough'
    for o in OLD:
        yield dict(k='old', old=o)
    for n in NAMES:
        yield dict(k='name', name=n)
        if deep:
            for form in ('relative', 'slash', 'dots'):
                yield dict(k='name', name=n, form=form)
    for form in ('relative', 'slash', 'dots', 'cwd'):
        yield dict(k='form', form=form)
    yield dict(k='form', form='absolute', linked=1)
    for seq in itertools.product(range(3), repeat=3 if deep else 2):
        yield dict(k='sequence', seq=seq)
    for p in (2, 3):
        yield dict(k='mpi', p=p)
    if deep:
        for o, n in itertools.product(OLD, NAMES):
            yield dict(k='old', old=o, name=n)


def setup(env):
    util.stub_git()
    import all_multipliers  # noqa: F401


def data(n):
    """Three different regions."""
    rows, cols = ((2, 2), (2, 4), (4, 2))[n]
    gt = ((145., .5, 0., -16., 0., -.5), (145., .5, 0., -16., 0., -.5),
          (10.5, .5, 0., 3.25, 0., -.5))[n]
    dem = util.generic(rows, cols, n, 1, 900).astype('float32')
    cl = util.generic_classes(rows, cols, util.TABLE, n).astype('int32')
    return dem, cl, gt


def fill(out, how):
    if how == 'none':
        return
    os.makedirs(out)
    if how == 'files':
        for f in ('a.txt', 'e145.0s16.0.img', 'e145.0s16.0_dem.img',
                  'multipliers.log', '.hidden'):
            open(os.path.join(out, f), 'w').write('x')
    elif how == 'nested':
        for d in ('terrain', 'shielding', 'other/deep', 'M3', 'terrain/sub'):
            os.makedirs(os.path.join(out, d), exist_ok=True)
            open(os.path.join(out, d, 'x.nc'), 'w').write('x')
    elif how == 'links':
        keep = os.path.join(os.path.dirname(out), 'keep')
        os.makedirs(os.path.join(out, 'M3'))
        os.makedirs(keep)
        open(os.path.join(keep, 'file'), 'w').write('keep')
        os.symlink(keep, os.path.join(out, 'terrain'))
        os.symlink(os.path.join(keep, 'file'), os.path.join(out, 'M3', 'l'))
        os.symlink('/nowhere', os.path.join(out, 'dead'))
    elif how in ('results', 'tiles'):
        for s, k in util.SUBS.items():
            os.makedirs(os.path.join(out, s))
            for t in ('e145.0s16.0', 'e9.0s9.0'):
                for d in util.DIRS:
                    open(os.path.join(out, s, '%s_%s_%s.nc' % (t, k, d)),
                         'w').write('old')
        for s in ('M3', 'M3_max'):
            os.makedirs(os.path.join(out, s))
            for t in ('e145.0s16.0.tif', 'e9.0s9.0.tif',
                      'wind-multipliers.vrt'):
                open(os.path.join(out, s, t), 'w').write('old')
    elif how == 'readonly':
        os.makedirs(os.path.join(out, 'M3'))
        p = os.path.join(out, 'M3', 'r.tif')
        open(p, 'w').write('x')
        os.chmod(p, 0o400)
    elif how == 'filelike':
        for s in ('terrain', 'M3', 'M3_max', 'shielding'):
            open(os.path.join(out, s), 'w').write('a file')


def decoys(*folders):
    """Files and folders of others that look like those of a run."""
    for folder in folders:
        for f in ('x.xml', 'y.aux.xml', 'e145.0s16.0_dem.img',
                  'e145.0s16.0.img', 'e145.0s16.0_ms.img', 'z_mz_n.nc',
                  'e145.0s16.0_ms_n.nc', 'e145.0s16.0.tif', 'notes.txt',
                  'wind-multipliers.vrt', 'other.log', '.keep'):
            with open(os.path.join(folder, f), 'w') as g:
                g.write('not of this run')
        for d in ('terrain', 'M3', 'M3_max/deep', 'shielding', 'out2',
                  'out_old/terrain', 'ou', 'tmp', 'temp'):
            os.makedirs(os.path.join(folder, d), exist_ok=True)
            for f in ('x.xml', 'e145.0s16.0.img', 'e145.0s16.0_ms_n.nc'):
                with open(os.path.join(folder, d, f), 'w') as g:
                    g.write('not of this run')


def outside(env, case, folder, inp, before, out, process=None):
    """What changed besides the output folder and the log."""
    after = util.tree(folder)
    skip = (os.path.relpath(out, folder), 'log')

    def other(t):
        return {k: v for k, v in t.items()
                if not any(k == s or k.startswith(s + os.sep) for s in skip)
                and not os.path.relpath(out, folder).startswith(k + os.sep)}
    a, b = other(after), other(before)
    if a != b:
        diff = [k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0)]
        raise Violation('changed outside the output folder: %s'
                        % sorted(diff)[:5], case=case)


def trace(case, inp, folder, out, cwd):
    """Runs in a process of its own; operations that change files."""
    bad = []
    ok = (os.path.realpath(out), os.path.normpath(out))
    logs = (inp.log, os.path.dirname(inp.log))

    def on_fs(op, p, q, n):
        if op not in 'CTUMDNA':
            return b'g'
        for x in (p, q):
            x = x and os.path.normpath(x)
            if x and not any(x == o or x.startswith(o + os.sep)
                             for o in ok) and x not in logs and \
                    not (op == 'M' and ok[1].startswith(x + os.sep)) and \
                    not x.startswith('/proc/') and not x.startswith('/dev/'):
                bad.append('%s %s' % (op, x))
        return b'g'

    def body(proc):
        os.chdir(cwd)
        prog.run(inp.cfg)
        if os.getcwd() != os.path.realpath(cwd):
            return os.getcwd()

    pr = mpi.Traced(body, folder, on_fs, 'WXSRL')
    end = pr.next()
    if end[0] != 'done':
        raise Violation('run ends with %s' % (end,), case=case)
    if end[1] is not None:
        raise Violation('working directory changed to ' + end[1], case=case)
    if bad:
        raise Violation('operations outside the output folder: %s' % bad[:5],
                        case=case)


def run(env, case):
    top = env.tmp()
    k = case['k']
    if k == 'sequence':
        # in one process, with one output folder for all
        work = os.path.join(top, 'w')
        os.makedirs(work)
        out = os.path.join(work, 'out')
        for i, n in enumerate(case['seq']):
            dem, cl, gt = data(n)
            folder = os.path.join(work, 'r%d' % i)
            inp = prog.Inputs(folder, dem, cl, gt, output=out)
            if not i:
                decoys(work, folder, os.path.join(folder, 'in'))
            before = util.tree(work)
            cwd = os.getcwd()
            prog.run(inp.cfg)
            if os.getcwd() != cwd:
                raise Violation('working directory changed', case=case)
            after = util.tree(work)
            for t in (before, after):
                for x in list(t):
                    if x.split(os.sep)[0] == 'out' or \
                            x.startswith('r%d/log' % i):
                        del t[x]
            if before != after:
                raise Violation('changed outside the output folder',
                                case=case)
            prog.judge_run(out, prog.ref_run(dem, cl, gt, .01), case=case)
            env.count(key=[case, i])
        return
    dem, cl, gt = data(1 if k == 'mpi' else 0)
    name = case.get('name', 'out')
    out = os.path.join(top, name)
    form = case.get('form', 'absolute')
    cwd = top
    shown = out
    if form == 'relative':
        cwd = os.path.join(top, 'cwd')
        shown = os.path.join('..', name)
    elif form == 'slash':
        shown = out + '/'
    elif form == 'dots':
        shown = os.path.join(top, '.', 'in', '..', name)
    elif form == 'cwd':
        shown = name
    os.makedirs(cwd, exist_ok=True)
    inp = prog.Inputs(top, dem, cl, gt, output=shown)
    if form in ('relative', 'cwd'):
        rel = os.path.relpath(top, cwd)
        inp.log = os.path.join(top, 'log', 'm.log')
        util.write_config(
            inp.cfg, rel, os.path.join(rel, 'in', 'dem.tif'),
            os.path.join(rel, 'in', 'lc.tif'),
            os.path.join(rel, 'in', 'table.csv'), shown,
            log=os.path.join(rel, 'log', 'm.log'))
        inp.cfg = os.path.join(rel, 'in', 'run.cfg')
    if k == 'old':
        fill(out, case['old'])
    elif k != 'mpi':
        fill(out, 'results')
    for d in {top, os.path.join(top, 'in'), cwd}:
        if d != out:
            decoys(d)
    if form != 'absolute':
        # the folder of the log is there already
        os.makedirs(os.path.join(top, 'log'))
        with open(os.path.join(top, 'log', 'm.log'), 'w') as g:
            g.write('old')
    if case.get('linked'):
        linked(case, inp, top, out, cwd)
        env.count(key=case)
        return
    before = util.tree(top)
    if k == 'mpi':
        fill(out, 'results')
        os.chdir(cwd)
        # no process may change anything elsewhere either, and a log for each
        ex = par.execute(case['p'], par.program(inp.cfg), top)
        for e in ex.end:
            if e[0] != 'done':
                raise Violation('a process ends with %s' % (e,), case=case)
    else:
        if form in ('relative', 'cwd'):
            inp.log = os.path.join(cwd, rel, 'log', 'm.log')
        trace(case, rebased(inp, cwd, top), top, out, cwd)
    outside(env, case, top, inp, before, out)
    keep = os.path.join(top, 'keep', 'file')
    if case.get('old') == 'links' and open(keep).read() != 'keep':
        raise Violation('followed a link out of the output folder', case=case)
    logs = os.listdir(os.path.join(top, 'log'))
    want = {'m.log'} | ({'m.log_%d' % r for r in range(1, case['p'])}
                        if k == 'mpi' else set())
    if not set(logs) <= want:
        raise Violation('log folder holds %s' % logs, case=case)
    prog.judge_run(out, prog.ref_run(dem, cl, gt, .01), case=case)
    env.count(key=case, evaluations=1)
    env.sample(case)


def linked(case, inp, top, out, cwd):
    """The output folder is a symbolic link: an error or results in it."""
    real = os.path.join(top, 'elsewhere')
    shutil.rmtree(out)
    fill(real, 'nested')
    os.symlink(real, out)
    before = util.tree(top)

    def body(proc):
        os.chdir(cwd)
        prog.run(inp.cfg)

    end = mpi.Traced(body, top).next()
    if end[0] == 'done':
        dem, cl, gt = data(0)
        prog.judge_run(out, prog.ref_run(dem, cl, gt, .01), case=case)
        return
    after = {k: v for k, v in util.tree(top).items()
             if k.split(os.sep)[0] != 'log'}
    if after != {k: v for k, v in before.items()
                 if k.split(os.sep)[0] != 'log'}:
        raise Violation('run with a symbolic link as output folder ends with '
                        '%s and changes %s' % (end, sorted(
                            k for k in set(after) | set(before)
                            if k.split(os.sep)[0] != 'log' and
                            after.get(k, 0) != before.get(k, 0))[:5]),
                        case=case)


def rebased(inp, cwd, top):
    """The log as absolute path for the trace."""
    inp.log = os.path.normpath(inp.log)
    return inp
