"""W05: every computed tile is converted once and part of the mosaics."""
import itertools
import os
import shutil
import sys

import numpy as np

from vp import conv, mpi, par, prog, util
from vp.core import Violation

ID = 'W05'
LEVEL = 'model_checking'
TECHNIQUE = ('exploration of all schedules of the conversion on several real '
             'processes under a controlled MPI, with dynamic partial-order '
             'reduction over all file system operations, for all small '
             'numbers of processes and tiles and orders of the folder')
NOTE = ('Every number of processes and tiles within the bounds, the listing '
        'of the folder in several orders; all files traced: each raster must '
        'be created once, by one process. Communication of the conversion '
        'has a single matching; conflicting file operations that no '
        'communication orders are executed in both orders. Mosaics are read '
        'back and compared with the positions of all tiles. Known finding: '
        'tiles one cell wide or high are not in the mosaics.')
RULE = ('processes 1-5 (8) x tiles 0-6 (9) x folder orders x start (function, '
        'script), also over the rasters of an earlier conversion. '
        'Non-trivial: at least one tile.')
ASSUMPTIONS = ['a shared file system that shows changes to all processes']
TIMEOUT = 300
PRELOAD = True

NAMES = ['e145.0s16.0', 'e146.0s16.0', 'e145.0s17.0', 'e-70.5s-3.25',
         'e0.0s-0.0', 'e112.0001s9.9998', 'e10.0s1.0', 'e1.0s10.0',
         'e100.0s1.0'] + ['e%d.25s%d.5' % (i % 170, i % 7 + 10 * (i // 170))
                         for i in range(1060)]


def cases(tier):
    deep = tier == 'thorough'
    for p in range(1, 9 if deep else 6):
        for t in range(10 if deep else 7):
            for order in ('sorted', 'reverse', 'rotate') if deep else \
                    (('sorted', 'reverse', 'rotate')[(p + t) % 3],):
                for how in ('call', 'script') if deep else \
                        (('call', 'script')[(p * t + t) % 2],):
                    yield dict(p=p, t=t, order=order, how=how)
    for p in (1, 2, 3):
        yield dict(p=p, t=2, order='sorted', how='call', narrow=True)
    # many more processes than tiles
    for p, t in ((9, 1), (9, 8), (17, 2), (33, 1)) + \
            (((9, 3), (12, 1), (65, 1), (24, 23)) if deep else ()):
        yield dict(p=p, t=t, order='sorted', how='call')
    for p, t in ((1, 29), (2, 29), (3, 29), (8, 29)) + \
            (((5, 29), (8, 70), (11, 40)) if deep else ()):
        yield dict(p=p, t=t, order='rotate', how='call')
    # once more, over the folders and rasters of an earlier conversion
    # more tiles than there are names above
    for p, t in ((8, 1040), (3, 530)) if deep else ((8, 140),):
        yield dict(p=p, t=t, order='sorted', how='call')
    for p in range(1, 6 if deep else 4):
        for t in range(5 if deep else 3):
            for old in ('empty', 'full'):
                yield dict(p=p, t=t, order='sorted', how='script', old=old)


def setup(env):
    import utilities.mpi_runner  # noqa: F401, before the ranks are forked


def body_of(path, case):
    def body(rank, me):
        module = mpi.make_module(me)
        mpi.install(module)
        real = os.listdir

        def listdir(*a):
            names = sorted(real(*a))
            if case['order'] == 'reverse':
                return names[::-1]
            if case['order'] == 'rotate':
                k = len(names) // 3
                return names[k:] + names[:k]
            return names

        os.listdir = listdir
        if case['how'] == 'call':
            from utilities import mpi_runner
            mpi_runner.parallelise_convert_on_tiles(path, module.COMM_WORLD)
        else:
            import runpy
            import utilities.mpi_runner as m
            sys.argv = ['mpi_runner.py', '-p', path]
            runpy.run_path(m.__file__, run_name='__main__')
    return body


def run(env, case):
    p, t = case['p'], case['t']
    folder = env.tmp()
    path = os.path.join(folder, 'results')
    conv.folders(path)
    made = {}
    for i in range(t):
        shape = ((2, 3), (3, 2), (2, 2))[i % 3]
        if case.get('narrow') and i == 1:
            shape = (3, 1)
        name = NAMES[i]
        lon, _, lat = name[1:].partition('s')
        vals = conv.values_for(shape, i)
        conv.write_tile(path, name, vals, float(lon), -float(lat), .25)
        made[name] = (vals, float(lon), -float(lat))
    if case['how'] == 'script':
        for s in ('M3', 'M3_max'):
            os.rmdir(os.path.join(path, s))

    with open(util.write_raster(
            os.path.join(folder, 'earlier.tif'), np.full((5, 7), .25, 'f4'),
            (100., .25, 0., -10., 0., -.25)), 'rb') as h:
        earlier = h.read()

    def reset():
        for s in ('M3', 'M3_max'):
            d = os.path.join(path, s)
            if os.path.isdir(d):
                shutil.rmtree(d)
            if case['how'] == 'call' or case.get('old'):
                os.mkdir(d)
            if case.get('old') == 'full':
                # what an interrupted or an earlier conversion left
                for i, n in enumerate(made):
                    with open(os.path.join(d, n + '.tif'), 'wb') as h:
                        h.write(b'' if i % 2 else earlier)
                if made:
                    with open(os.path.join(d, 'wind-multipliers.vrt'),
                              'w') as h:
                        h.write('<VRTDataset></VRTDataset>')

    before = util.tree(path)

    def judge(ex):
        for r, e in enumerate(ex.end):
            if e[0] != 'done':
                raise Violation('process %d of %d ends with %s' % (r, p, e),
                                case=case)
        after = util.tree(path)
        want = {'M3', 'M3_max'}
        for s in ('M3', 'M3_max'):
            want.update('%s/%s.tif' % (s, n) for n in made)
            if made:
                want.add(s + '/wind-multipliers.vrt')
        got = {f for f in after if f.startswith('M3')}
        if got != want:
            raise Violation('%d processes, %d tiles: missing %s, not expected '
                            '%s' % (p, t, sorted(want - got),
                                    sorted(got - want)), case=case)
        for f in before:
            if not f.startswith('M3') and after.get(f) != before[f]:
                raise Violation('conversion changes ' + f, case=case)
        for n, (vals, lon, lat) in made.items():
            if not (case.get('narrow') and n == NAMES[1]):
                conv.judge_tile(path, n, vals, lon, lat, .25, case=case)
            for s in ('M3', 'M3_max'):
                f = os.path.join(path, s, n + '.tif')
                made_by = {e.rank for e in ex.events
                           if (e.op == 'C' and e.path == f) or
                           (e.op == 'N' and e.path2 == f)}
                if len(made_by) != 1:
                    raise Violation('%s/%s.tif written by processes %s'
                                    % (s, n, sorted(made_by)), case=case)
                unlinks = [e for e in ex.events
                           if (e.op == 'C' and e.path == f) or
                           (e.op == 'N' and e.path2 == f)]
                counts.setdefault(len(unlinks), []).append(s + '/' + n)
        if len(counts) > 1:
            raise Violation('rasters written several times: %s' % counts,
                            case=case)
        if not made:
            return
        for s in ('M3', 'M3_max'):
            mosaic = os.path.join(path, s, 'wind-multipliers.vrt')
            tifs = [os.path.join(path, s, n + '.tif') for n in made]
            prog.judge_mosaic(mosaic, tifs, case)
            if case.get('narrow'):
                bands, gt, data, shape = prog.read_vrt(mosaic)
                names = {os.path.basename(x) for x in bands[0]}
                if names != {n + '.tif' for n in made}:
                    env.finding('narrow-tile', 'the mosaic of %s lacks the '
                                'tile one cell wide' % s, case)

    counts = {}
    n, races, events = par.all_runs(p, body_of(path, case), folder, judge,
                                    reset, 1 if env.thorough or p < 4 else 0,
                                    brief=not env.thorough)
    env.count(key=case, evaluations=n, states=n, transitions=events,
              traces=n, nontrivial=t > 0)
    env.sample(dict(case, executions=n, races=races))
