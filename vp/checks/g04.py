"""G04: reduction, Tasmania, smoothing."""
import itertools

import numpy as np

from vp import ref, util
from vp.core import Violation
from vp.checks import g01

ID = 'G04'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of small elevation tiles, positions in '
             'and around Tasmania, data types and no-data cells through '
             'topomult(), and of multiplier grids through the reductions, '
             'against a reference')
NOTE = ('All tiles of the bounded shapes over an alphabet of elevations (with '
        'and without no data), each compared for the 8 directions of one run; '
        'tile positions around 143 E and 40 S; elevations around 500 m; '
        'multipliers in fine steps around 1 and 1.4.')
RULE = ('words over {elevations, no data} as tiles x positions x types; '
        'non-trivial: the tile is not flat.')
ASSUMPTIONS = ['only tiles wholly inside or outside the Tasmanian box',
               'results are 32 bit floats (3e-6)']
TIMEOUT = 300


def cases(tier):
    deep = tier == 'thorough'
    shapes = [[1, 4], [4, 1], [2, 2], [2, 3], [3, 2]] if not deep else \
        [[1, 6], [6, 1], [2, 3], [3, 2], [3, 3], [2, 4]]
    for shape in shapes:
        for first in range(3):
            yield dict(k='words', shape=shape, lat=-21., lon=133.,
                       dtype='float32', first=first)
    for lat, lon in ((-42.1, 147.3), (-39.9, 147.3), (-42.1, 140.),
                     (-54.6, 158.9), (-49.5, 69.5), (-45.9, 170.4)):
        for way in range(4):
            yield dict(k='high', lat=lat, lon=lon, way=way)
    n = 0
    for lat in (-39.9, -40.001, -41.2, -43.5):
        for lon in (142.9, 143.001, 146.3):
            for dtype in ('float32', 'int32', 'int16'):
                n += 1
                yield dict(k='tas', lat=lat, lon=lon, dtype=dtype, seed=n)
    for shape in ([1, 1], [1, 9], [9, 1], [2, 2], [3, 3], [12, 17], [40, 50]):
        for z in (0., 1., -3., 450., 900.):
            yield dict(k='flat', shape=shape, z=z)
    for shape in ([61, 57], [52, 130]) if not deep else \
            ([61, 57], [52, 130], [130, 3], [200, 210]):
        yield dict(k='large', shape=shape)
    for seed in range(24 if not deep else 150):
        yield dict(k='nodata', seed=seed)
    yield dict(k='reduce')


def setup(env):
    util.stub_git()
    util.catch_results()


ALPHA = (4., 44., 74.)


def run(env, case):
    if case['k'] == 'reduce':
        return reduce_grid(env, case)
    folder = env.tmp()
    util.catching[0] = case['k'] == 'words'
    if case['k'] == 'words':
        rows, cols = case['shape']
        res = util.resolution(60., case['lat'], rows)
        gt = (case['lon'], res, 0., case['lat'], 0., -res)
        for rest in itertools.product(ALPHA, repeat=rows * cols - 1):
            dem = np.array((ALPHA[case['first']],) + rest, case['dtype'])
            dem = dem.reshape(rows, cols)
            g01.compare(g01.compute(folder, dem, gt), dem, gt,
                        dict(case, k='one', dem=dem.tolist()))
            env.count(key=dem.tolist(), evaluations=8,
                      nontrivial=len(set(dem.flat)) > 1)
        env.sample(dict(case, dem=dem.tolist()))
    elif case['k'] == 'one':
        rows, cols = case['shape']
        res = util.resolution(60., case['lat'], rows)
        gt = (case['lon'], res, 0., case['lat'], 0., -res)
        dem = np.array(case['dem'], case['dtype'])
        g01.compare(g01.compute(folder, dem, gt), dem, gt, case)
    elif case['k'] == 'tas':
        rows, cols = [(5, 6), (7, 3), (3, 9)][case['seed'] % 3]
        res = util.resolution((80., 200., 35.)[case['seed'] % 3],
                              case['lat'], rows)
        gt = (case['lon'], res, 0., case['lat'], 0., -res)
        tas = case['lon'] > 143 and case['lat'] < -40
        if not tas and case['lon'] < 143 and case['lon'] + cols * res > 143:
            raise Violation('bad case %s' % case)
        z = util.generic(rows, cols, case['seed'], 380., 680.)
        z[0, 0], z[1, 1], z[2, 2] = 500., 501., 1600.
        dem = z.astype(case['dtype'])
        g01.compare(g01.compute(folder, dem, gt), dem, gt, case, tas)
        env.count(key=case, evaluations=8)
    elif case['k'] == 'high':
        # steep and high: beyond 1.71
        res = util.resolution(70., case['lat'], 9)
        gt = (case['lon'], res, 0., case['lat'], 0., -res)
        v = [300., 320., 700., 1450., 1610., 1600., 1500., 400., 900., 1490.,
             90.]
        dem = np.rot90(np.array([v] * 9, 'float32'), case['way']).copy()
        tas = case['lon'] > 143 and case['lat'] < -40
        got = g01.compute(folder, dem, gt)
        g01.compare(got, dem, gt, case, tas)
        env.count(key=case, evaluations=8,
                  nontrivial=max(np.nanmax(got[d]) for d in util.DIRS) > 1.71)
    elif case['k'] == 'large':
        rows, cols = case['shape']
        res = util.resolution(60., -30., rows)
        gt = (133., res, 0., -30., 0., -res)
        z = util.generic(rows, cols, 2, 0., 90.)
        # hills of several cells, also at the edge
        z = z + 60 * np.sin(np.arange(rows))[:, None] + \
            80 * np.cos(.8 * np.arange(cols))
        dem = z.astype('float32')
        g01.compare(g01.compute(folder, dem, gt), dem, gt, case)
        env.count(key=case, evaluations=8)
    elif case['k'] == 'flat':
        rows, cols = case['shape']
        res = util.resolution(60., -30., rows)
        gt = (133., res, 0., -30., 0., -res)
        dem = np.full((rows, cols), case['z'], 'float32')
        got = g01.compute(folder, dem, gt)
        for d in util.DIRS:
            if got[d].shape != dem.shape or \
                    not (np.array(got[d], 'float32') == 1).all():
                raise Violation('flat land, direction %s: %s'
                                % (d, got[d].tolist()[:3]), case=case)
        env.count(key=case, evaluations=8)
    elif case['k'] == 'nodata':
        s = case['seed']
        rows, cols = [(4, 5), (1, 7), (7, 1), (6, 6)][s % 4]
        tas = s % 3 == 0
        lat = -42. if tas else -27.
        res = util.resolution(70., lat, rows)
        gt = (145., res, 0., lat, 0., -res)
        nodata = (-9999, 0, -1)[s // 4 % 3]
        dem = util.generic(rows, cols, s, 430. if tas else 5., 700. if tas
                           else 95.)
        dem = dem.astype(('float32', 'int32')[s // 2 % 2])
        holes = util.generic(rows, cols, s + 3) < (.1, .4, .8)[s % 3]
        dem[holes] = nodata
        z = dem.astype(float)
        z[holes] = np.nan
        got = g01.compute(folder, dem, gt, nodata=nodata)
        g01.compare(got, z, gt, case, tas)
        env.count(key=case, evaluations=8, nontrivial=bool(holes.any()))


def reduce_grid(env, case):
    from topographic import topo_mult
    func = getattr(topo_mult, 'remove_conservatism', None)
    m = np.concatenate([np.linspace(1, 1.71, 72),
                        [1.0000001, 1.3999999, 1.4, 1.4000001]])
    if func is None:
        env.skip('remove_conservatism is gone')
    else:
        for shape in ((1, -1), (-1, 1), (4, 19)):
            a = m.reshape(shape)
            want = [[ref.topo_reduce(float(x)) for x in line] for line in a]
            util.same(func(a.copy()), want, 1e-12, 'reduction', case)
            env.count(key=[a.shape], evaluations=a.size)
    func = getattr(topo_mult, 'tasmania', None)
    if func is None:
        env.skip('tasmania is gone')
        return
    z = np.array([0., 499.9, 500., 500.1, 501., 1600., -3., np.nan])
    mm, zz = np.meshgrid(m, z)
    want = np.where(zz > 500, mm * (1 + .00015 * zz), mm)
    util.same(func(mm.copy(), zz.copy()), want, 1e-12, 'Tasmania', case)
    env.count(key='tas', evaluations=mm.size)
