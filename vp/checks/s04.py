"""S04: slope and aspect of the elevations."""
import itertools

import numpy as np

from vp import ref, util
from vp.core import Violation

ID = 'S04'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of small elevation rasters (all value '
             'patterns of 3x3, lines and thin tiles), cell sizes, latitudes '
             'and types on the real code, against a reference')
NOTE = ('All two- and three-valued patterns of the bounded shapes, planes of '
        'all facings in 5 degree steps, several latitudes of both '
        'hemispheres, unequal cell width and height, and no-data cells at '
        'every position; tiles one degree tall or wide. Aspect is compared away from sector borders.')
RULE = ('patterns x shapes x cell sizes x latitudes x types (x constant '
        'added, x position of a cell without data); non-trivial: not flat.')
ASSUMPTIONS = ['cells next to one without elevation are left out (the '
               'gradient is unknown there)',
               'cell sizes are interpolated within 0.05 percent (U01)']
TIMEOUT = 300

LATS = (-16.9, -42.7, 12.4, 0.3)


def cases(tier):
    deep = tier == 'thorough'
    for n, h in enumerate((3., 40., 300.)):
        for part in range(4):
            yield dict(k='two', h=h, shape=[3, 3], lat=LATS[(n + part) % 4],
                       dtype=('float32', 'int32', 'int16', 'float64')[part],
                       part=[part, 4])
    parts = 27 if deep else 9
    for part in range(parts):
        yield dict(k='three', h=[0, 7, 31], shape=[3, 3] if deep else [2, 3],
                   lat=LATS[part % 4], dtype='int16', part=[part, parts])
    for shape in ([1, 5], [5, 1], [2, 2], [1, 1], [1, 2], [2, 1], [2, 3]):
        yield dict(k='two', h=25., shape=shape, lat=-33.3, dtype='float32',
                   part=[0, 1])
    for face in range(0, 360, 1 if deep else 5):
        yield dict(k='plane', face=face + .5, lat=LATS[face % 4],
                   ratio=(1., .7, 1.4)[face % 3])
    for seed in range(60 if deep else 12):
        yield dict(k='bumpy', seed=seed)
    for seed in range(20 if deep else 4):
        yield dict(k='nodata', seed=seed)
    yield dict(k='sectors')
    # as tall and as wide as the tiles of a run
    for lat in (-43., -28.5, -11., 33.) if deep else (-43., 33.):
        for n in (5, 12, 24) if deep else (5, 12):
            for m in (3, 9) if deep else (3,):
                yield dict(k='tall', lat=lat, n=n, m=m)
                yield dict(k='tall', lat=lat, n=m, m=n)


def compute(dem, gt, nodata=None, path=None):
    from shielding import shield_mult
    func = getattr(shield_mult, 'get_slope_aspect', None)
    if func is None:
        return None
    if path:
        return func(util.write_raster(path, dem, gt, nodata=nodata,
                                      driver='HFA'))
    return func(util.mem_raster(dem, gt, nodata=nodata))


def compare(env, dem, gt, case, holes=(), nodata=None, path=None):
    got = compute(dem, gt, nodata, path)
    if got is None:
        env.skip('get_slope_aspect is gone')
        return
    slope, faces = np.array(got[0], float), np.array(got[1])
    rows, cols = dem.shape
    if slope.shape != dem.shape or faces.shape != dem.shape:
        raise Violation('shape %s, %s instead of %s'
                        % (slope.shape, faces.shape, dem.shape), case=case)
    want_s, want_a = ref.slope_aspect(dem.astype(float).tolist(), gt)
    for i in range(rows):
        for j in range(cols):
            if (i, j) in holes:
                if slope[i, j] == slope[i, j]:
                    raise Violation('slope %r of cell %s without elevation'
                                    % (slope[i, j], (i, j)), case=case)
                continue
            if any(abs(i - a) < 2 and abs(j - b) < 2 for a, b in holes):
                continue
            s, a = want_s[i][j], want_a[i][j]
            # cell sizes to .05 %: slope to about .015 degrees
            if not abs(slope[i, j] - s) <= 1e-6 + .0006 * min(s, 90 - s):
                raise Violation('slope %r instead of %r at %s'
                                % (slope[i, j], s, (i, j)), case=case)
            if a is None or s < 1e-3 or not .03 < (a + 22.5) % 45 < 44.97:
                continue
            if faces[i, j] != ref.sector(a):
                raise Violation('sector %r instead of %r (aspect %r) at %s'
                                % (faces[i, j], ref.sector(a), a, (i, j)),
                                case=case)
    env.count(key=[dem.tolist(), gt, str(dem.dtype), list(holes)],
              nontrivial=len(set(dem.flat)) > 1)


def run(env, case):
    folder = env.tmp()
    if case['k'] in ('two', 'three'):
        rows, cols = case['shape']
        res = util.resolution(60., case['lat'], rows, 1.2)
        gt = (140., res * 1.2, 0., case['lat'], 0., -res)
        vals = (0., case['h']) if case['k'] == 'two' else case['h']
        part, parts = case['part']
        for n, v in enumerate(itertools.product(vals, repeat=rows * cols)):
            if n % parts != part:
                continue
            dem = np.array(v).reshape(rows, cols).astype(case['dtype'])
            compare(env, dem, gt, dict(case, k='one', dem=dem.tolist(),
                                       gt=gt))
            if n % 7 == 0 and case['dtype'][0] == 'f':
                # a constant does not matter
                compare(env, dem + np.array(512, case['dtype']), gt,
                        dict(case, k='one', dem=(dem + 512).tolist(), gt=gt))
        env.sample(dict(case, last=list(v)))
    elif case['k'] == 'one':
        compare(env, np.array(case['dem'], case['dtype']), tuple(case['gt']),
                case)
    elif case['k'] == 'sectors':
        from shielding import shield_mult
        func = getattr(shield_mult, 'reclassify_aspect', None)
        if func is None:
            env.skip('reclassify_aspect is gone: elevations only')
            return
        a = np.arange(0, 360.01, .25)
        a = np.unique(np.clip(np.concatenate(
            [a, np.nextafter(a, -1), np.nextafter(a, 400)]), 0, 360))
        got = np.array(func(a.reshape(1, -1).copy())).ravel()
        for x, s in zip(a.tolist(), got.tolist()):
            # at a border one of the sectors on both sides
            if s not in {int((x + d + 22.5) % 360 // 45) + 1
                         for d in (-1e-6, 1e-6)}:
                raise Violation('aspect %r is in sector %r' % (x, s),
                                case=case)
            env.count(key=[case, x])
    elif case['k'] == 'plane':
        rows, cols = 5, 6
        lat, ratio = case['lat'], case['ratio']
        res = util.resolution(90., lat, rows, ratio)
        gt = (140., res * ratio, 0., lat, 0., -res)
        mx, my = ref.metres(lat - res * rows / 2, res * ratio, res)
        f = np.radians(case['face'])
        ii, jj = np.mgrid[0:rows, 0:cols]
        for steep in (.5, 5., 25., 60.):
            dem = -np.tan(np.radians(steep)) * (np.sin(f) * jj * mx -
                                                np.cos(f) * ii * my)
            for base in (0., 2000.):
                compare(env, (dem + base).astype('float64'), gt,
                        dict(case, steep=steep, base=base))
    elif case['k'] == 'bumpy':
        s = case['seed']
        rows, cols = [(7, 9), (12, 5), (1, 11), (11, 1), (20, 20),
                      (70, 130)][s % 6]
        lat = LATS[s % 4]
        res = util.resolution((25., 90., 400.)[s % 3], lat, rows)
        gt = (100. + 3 * s, res, 0., lat, 0., -res)
        dem = util.generic(rows, cols, s, -50., (60., 400., 2500.)[s % 3])
        compare(env, dem.astype(('float32', 'int32')[s % 2]), gt, case,
                path=folder + '/d.img')
    elif case['k'] == 'tall':
        rows, cols = case['n'], case['m']
        res = 1.04 / max(rows, cols)
        gt = (140., res, 0., case['lat'], 0., -res)
        for seed in range(4):
            top = (2000., 9000., 30000., 90000.)[seed]
            dem = util.generic(rows, cols, seed, 0., top).astype('float64')
            compare(env, dem, gt, dict(case, seed=seed))
            ii, jj = np.mgrid[0:rows, 0:cols]
            compare(env, (ii * (seed - 1.5) + jj) * top / 9, gt,
                    dict(case, seed=seed, plane=1))
    elif case['k'] == 'nodata':
        s = case['seed']
        rows, cols = 4, 5
        res = util.resolution(60., -20., rows)
        gt = (140., res, 0., -20., 0., -res)
        base = util.generic(rows, cols, s, 1., 90.)
        for nodata in (-9999, 0, -32768):
            for i in range(rows):
                for j in range(cols):
                    dem = base.astype(('float32', 'int16')[s % 2])
                    dem[dem == nodata] = 55
                    dem[i, j] = nodata
                    compare(env, dem, gt, dict(case, at=[i, j], nd=nodata),
                            holes=[(i, j)], nodata=nodata)
