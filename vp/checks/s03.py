"""S03: slopes facing the wind and conservatism."""
import math

import numpy as np

from vp import ref, util
from vp.core import Violation

ID = 'S03'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of shielding x slope x aspect x '
             'direction on the real combination, and of slopes, facings, cell '
             'sizes and land covers through shield(), against a reference')
NOTE = ('All combinations of the value classes of shielding, slope and aspect '
        'around every threshold for each direction; tiles sloping to each of '
        '8 sides (and bumpy ones) at cell sizes below and above 100 m, with '
        'all directions of one run compared, so that directions that '
        'influence each other show.')
RULE = ('shielding values x slopes x sectors x directions in combine(), in '
        'several array layouts and orders of directions; steepness x facing x '
        'cell size x land cover in shield(). Non-trivial: a cell faces the '
        'wind with a slope over 3.27 degrees.')
ASSUMPTIONS = ['aspects within 0.01 degree of the border of two sectors are '
               'left out', 'results are 32 bit floats']
TIMEOUT = 120

MS = [0.0, 0.5, 0.72, 0.85, 0.8999, 0.9, 0.9001, 0.95, 1.0, 1.2, ref.NAN]
SLOPES = [0., 1., 3.269, 3.27, 3.2701, 3.5, 6., 7.785, 9.9, 12.2999, 12.3,
          12.3001, 20., 45., 89., ref.NAN]


def cases(tier):
    deep = tier == 'thorough'
    for d in util.DIRS:
        for dtype in ('float32', 'float64'):
            yield dict(k='grid', d=d, dtype=dtype)
    for first in util.DIRS:
        for second in util.DIRS:
            yield dict(k='pair', dirs=[first, second])
    facings = [0, 45, 90, 135, 180, 225, 270, 315]
    if deep:
        facings += [20, 25, 65, 70, 110, 115, 155, 160, 200, 205, 245, 250,
                    290, 295, 335, 340, 359]
    n = 0
    for face in facings:
        for steep in (2., 5., 8., 12., 14., 35.) if deep else (6., 14.):
            for gw in (150., 70., 42., 25.):
                for cover in range(3 if deep else 1):
                    n += 1
                    yield dict(k='plane', face=face, steep=steep, gw=gw,
                               cover=cover + n % 3, lat=(-16.5, -38.)[n % 2])
    for seed in range(60 if deep else 12):
        yield dict(k='bumpy', seed=seed, gw=(150., 70., 250., 42.)[seed % 4],
                   shape=[(5, 6), (1, 7), (7, 1), (8, 8), (2, 2)][seed % 5])


def setup(env):
    util.stub_git()
    util.catch_results()


def combine(env, ms, slope, faces, dirs, case):
    from shielding import shield_mult
    func = getattr(shield_mult, 'combine', None)
    if func is None:
        env.skip('combine is gone: tiles only')
        return
    s0, f0 = slope.copy(), faces.copy()
    for d in dirs:
        got = func(ms.copy(), slope, faces, d)
        want = [[ref.shield_cell(float(m), float(s), int(f), d)
                 for m, s, f in zip(*lines)] for lines in zip(ms, s0, f0)]
        util.same(got, want, 2e-6, 'shielding on slopes, direction ' + d,
                  case)
        env.count(key=[d, str(ms.dtype), ms.shape, float(ms[0, 0]), case],
                  evaluations=ms.size)
        if not (np.array_equal(slope, s0, equal_nan=True) and
                np.array_equal(faces, f0)):
            raise Violation('slope or aspect are changed by direction ' + d,
                            case=case)


def tile(env, case, dem, classes, gt):
    from shielding import shield_mult
    folder = env.tmp()
    util.caught.clear()
    util.catching[0] = classes.shape[0] % 2 == 0
    rows, cols = classes.shape
    demfile, path = util.make_tile(folder, 'e1s2', dem, classes, gt)
    util.use_table(folder)
    shield_mult.shield(path, demfile, util.extent(gt, (rows, cols)))
    gw = ref.gridwidth(rows, cols, gt)
    slope, aspect = ref.slope_aspect(dem.astype(float).tolist(), gt)
    faces = [[9 if a is None else ref.sector(a) for a in line]
             for line in aspect]
    want = ref.shielding(ref.shielding_init(classes.tolist(), util.TABLE),
                         slope, faces, gw)
    hits = 0
    for d in util.DIRS:
        got = util.read_multiplier(folder, 'shielding', 'e1s2', d)[0]
        if got.shape != (rows, cols):
            raise Violation('shape %s of direction %s' % (got.shape, d))
        got = np.array(got, float)
        for i in range(rows):
            for j in range(cols):
                a = aspect[i][j]
                if a is not None and slope[i][j] > 3.26:
                    hits += faces[i][j] == util.DIRS.index(d) + 1
                    if abs((a + 22.5) % 45) < .01 or \
                            abs((a + 22.5) % 45) > 44.99:
                        got[i, j] = want[d][i][j]
        util.same(got, want[d], 1e-4, 'shielding multiplier, direction '
                  + d, case)
    env.count(key=case, evaluations=8, nontrivial=hits > 0)
    env.sample(case)


def run(env, case):
    if case['k'] == 'grid':
        d = case['d']
        n = 0
        for f in range(1, 10):
            ms, slope = np.meshgrid(np.array(MS, case['dtype']),
                                    np.array(SLOPES))
            for a, b in ((ms, slope), (ms.T.copy(), slope.T.copy()),
                         (ms[::-1].copy(), slope[::-1].copy())):
                combine(env, a, b, np.full(a.shape, f, int), [d],
                        dict(case, f=f, n=n))
                n += 1
        # all aspects in one array
        ms, slope, faces = [x.reshape(len(MS), -1) for x in np.meshgrid(
            np.array(MS, case['dtype']), np.array(SLOPES), np.arange(1, 10),
            indexing='ij')]
        combine(env, ms.copy(), slope.copy(), faces.copy(), [d], case)
    elif case['k'] == 'pair':
        ms, slope, faces = [x.reshape(len(MS), -1) for x in np.meshgrid(
            np.array(MS, 'float32'), np.array(SLOPES), np.arange(1, 10),
            indexing='ij')]
        combine(env, ms.copy(), slope.copy(), faces.copy(), case['dirs'],
                case)
    else:
        gw = case['gw']
        if case['k'] == 'plane':
            rows, cols = 6, 7
            lat = case['lat']
            res = util.resolution(gw, lat, rows)
            gt = (145., res, 0., lat, 0., -res)
            mx, my = ref.metres(lat - res * rows / 2, res, res)
            f = math.radians(case['face'])
            t = math.tan(math.radians(case['steep']))
            ii, jj = np.mgrid[0:rows, 0:cols]
            # falls towards the facing side
            dem = 1000. - t * (math.sin(f) * jj * mx - math.cos(f) * ii * my)
            dem = dem.astype('float32')
            if case['cover'] % 3 == 0:
                classes = np.full((rows, cols), 5)
            else:
                classes = util.generic_classes(rows, cols, util.TABLE,
                                               case['cover'])
        else:
            rows, cols = case['shape']
            lat = -20. - case['seed'] % 20
            res = util.resolution(gw, lat, rows)
            gt = (145., res, 0., lat, 0., -res)
            dem = util.generic(rows, cols, case['seed'], 0., gw * .8)
            dem = dem.astype(('float32', 'int32')[case['seed'] % 2])
            classes = util.generic_classes(rows, cols, list(util.TABLE) + [9],
                                           case['seed'])
        tile(env, case, dem, classes.astype('int32'), gt)
