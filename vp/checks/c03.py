"""C03: a missing multiplier file counts as ones in the product."""
import itertools
import os

import numpy as np

from vp import conv, prog, util
from vp.core import Violation

ID = 'C03'
LEVEL = 'fault_enumeration'
TECHNIQUE = ('exhaustive enumeration of missing and damaged multiplier files: '
             'every file, every pair, every subset per direction, every '
             'truncation of the header, in several tiles, against the product '
             'with ones')
NOTE = ('All 23 single files (the shielding file for north is the one that '
        'gives the size), all pairs, all subsets of the files of a '
        'direction, all subsets of the three kinds, each with the files '
        'absent, empty, with other content, with each header prefix, a '
        'folder, or without permission. A file cut in the data after its '
        'complete header is read by the netCDF library as zeros and is not '
        'counted as unreadable.')
RULE = ('fault kinds x files (singles, pairs, per-direction and per-kind '
        'subsets) x tiles. Non-trivial: at least one file affected.')
ASSUMPTIONS = ['the shielding file for north is readable']
TIMEOUT = 200

FILES = [(s, d) for s in sorted(util.SUBS) for d in util.DIRS]
BASE = ('shielding', 'n')
KINDS = ('absent', 'empty', 'text', 'folder', 'denied', 'dangling')
HEADER = 720


def cases(tier):
    deep = tier == 'thorough'
    for f in FILES:
        if f != BASE:
            yield dict(k='sets', sets=[[f]], kinds=KINDS)
    for d in util.DIRS:
        some = [(s, d) for s in sorted(util.SUBS) if (s, d) != BASE]
        sets = [list(c) for r in range(2, 4)
                for c in itertools.combinations(some, r)]
        yield dict(k='sets', sets=sets, kinds=KINDS[:3])
    for r in (1, 2, 3):
        for subs in itertools.combinations(sorted(util.SUBS), r):
            yield dict(k='sets', sets=[[f for f in FILES if f[0] in subs and
                                        f != BASE]], kinds=KINDS[:1])
    pairs = list(itertools.combinations([f for f in FILES if f != BASE], 2))
    for i in range(0, len(pairs), 23):
        yield dict(k='sets', sets=[list(p) for p in pairs[i:i + 23]],
                   kinds=KINDS[:1 + deep])
    if deep:
        trip = list(itertools.combinations([f for f in FILES if f != BASE],
                                           3))
        for i in range(0, len(trip), 35):
            yield dict(k='sets', sets=[list(p) for p in trip[i:i + 35]],
                       kinds=['absent'])
    step = 1 if deep else 4
    for i in range(0, HEADER, 40 * step):
        yield dict(k='header', sizes=list(range(i, min(i + 40 * step, HEADER),
                                                step)))
    for at in itertools.product((0, 1, 2), repeat=2):
        yield dict(k='tiles', at=at)
    for f in FILES[::5] if not deep else FILES:
        if f != BASE:
            yield dict(k='run', f=f)


def setup(env):
    util.stub_git()


def damage(path, kind):
    os.remove(path)
    if kind == 'empty':
        open(path, 'w').close()
    elif kind == 'text':
        open(path, 'w').write('no such data\n' * 20)
    elif kind == 'folder':
        os.mkdir(path)
    elif kind == 'denied':
        open(path, 'w').write('x')
        os.chmod(path, 0)
    elif kind == 'dangling':
        os.symlink(path + '.gone', path)


def run(env, case):
    Converter = conv.converter()
    folder = env.tmp()
    lon, lat, res = 145.25, -16.5, .125
    k = case['k']
    if k == 'sets':
        for n, (sets, kind) in enumerate(
                itertools.product(case['sets'], case['kinds'])):
            sets = [tuple(f) for f in sets]
            if kind == 'denied' and os.getuid() == 0:
                continue
            out = os.path.join(folder, 'o%d' % n)
            shape = ((2, 3), (3, 2))[n % 2]
            vals = conv.values_for(shape, n)
            vals['topographic', 's'][0, 1] = np.nan
            conv.write_tile(out, 't', vals, lon, lat, res)
            for f in sets:
                damage(conv.file_of(out, 't', *f), kind)
            Converter(['t'], out).run()
            conv.judge_tile(out, 't', vals, lon, lat, res, missing=sets,
                            case=dict(case, sets=[sets], kinds=[kind]))
            env.count(key=[sets, kind], evaluations=8)
    elif k == 'header':
        vals = conv.values_for((2, 3), 1)
        conv.write_tile(folder, 't', vals, lon, lat, res)
        for i, n in enumerate(case['sizes']):
            f = [x for x in FILES if x != BASE][i % 23]
            path = conv.file_of(folder, 't', *f)
            raw = open(path, 'rb').read()
            with open(path, 'wb') as h:
                h.write(raw[:n])
            Converter(['t'], folder).run()
            conv.judge_tile(folder, 't', vals, lon, lat, res, missing=[f],
                            case=dict(case, sizes=[n]))
            with open(path, 'wb') as h:
                h.write(raw)
            env.count(key=[n, f], evaluations=8)
    elif k == 'tiles':
        # one file missing in each of two of the three tiles
        for f, g in ((('terrain', 'e'), ('terrain', 'e')),
                     (('topographic', 'w'), ('shielding', 'e')),
                     (('terrain', 'n'), ('topographic', 'n'))):
            out = env.tmp()
            gone = [[], [], []]
            gone[case['at'][0]].append(f)
            gone[case['at'][1]].append(g)
            made = []
            for t in range(3):
                vals = conv.values_for(((2, 3), (3, 2), (2, 3))[t], t)
                conv.write_tile(out, 't%d' % t, vals, lon + t, lat, res,
                                leave_out=gone[t])
                made.append(vals)
            Converter(['t0', 't1', 't2'], out).run()
            for t in range(3):
                conv.judge_tile(out, 't%d' % t, made[t], lon + t, lat, res,
                                missing=gone[t], case=case)
            env.count(key=[case, f, g], evaluations=24)
    else:
        # through the conversion of all tiles, as after a run
        from utilities import mpi_runner
        from utilities.parallel import DummyCommWorld
        vals = [conv.values_for((2, 3), i) for i in range(2)]
        f = tuple(case['f'])
        for i in range(2):
            conv.write_tile(folder, 'e%d.0s2.0' % i, vals[i], i, -2, .25,
                            leave_out=[f] if i else [])
        mpi_runner.parallelise_convert_on_tiles(folder, DummyCommWorld())
        for i in range(2):
            conv.judge_tile(folder, 'e%d.0s2.0' % i, vals[i], i, -2, .25,
                            missing=[f] if i else [], case=case)
        for s in ('M3', 'M3_max'):
            prog.judge_mosaic(
                os.path.join(folder, s, 'wind-multipliers.vrt'),
                [os.path.join(folder, s, 'e%d.0s2.0.tif' % i)
                 for i in range(2)], case)
        env.count(key=case, evaluations=16)
    env.sample(case)
