"""U01: cell sizes in metres."""
import numpy as np

from vp import ref, util
from vp.core import Violation

ID = 'U01'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of all raster shapes up to a bound, '
             'latitudes, longitudes and cell sizes and ratios, and of '
             'tile-size rasters, comparing every cell with the radii of '
             'curvature of the ellipsoid')
NOTE = ('All shapes up to 7 x 7 (14 x 14) and thin shapes, each compared cell '
        'by cell with a closed formula within 0.05 percent (a millionth for small '
        'extents); equality at '
        'different longitudes; also the size of single cells.')
RULE = ('shapes x latitudes x longitudes x cell sizes. Non-trivial: more '
        'than one row.')
ASSUMPTIONS = ['geographic rasters in WGS84']
TIMEOUT = 300

LATS = (-59., -37.25, -16.5, .003, 0.55, 42., 60.)


def cases(tier):
    deep = tier == 'thorough'
    top = 14 if deep else 7
    for lat in LATS:
        for res, ratio in ((.1, 1.), (.01, 1.6), (.0002, .5)) if deep else \
                ((.1, 1.6), (.0002, .5)):
            for part in range(4 if deep else 1):
                yield dict(k='shapes', lat=lat, res=res, ratio=ratio,
                           top=top, part=[part, 4 if deep else 1])
    for shape in ([1, 40], [40, 1], [2, 33], [33, 2], [123, 57], [600, 11],
                  [11, 600]) + (([3610, 60], [60, 3610], [1000, 1000],
                                 [3661, 3661]) if deep else ()):
        for lat in LATS if deep else (-37.25, .55, 60.):
            yield dict(k='big', shape=shape, lat=lat)
    yield dict(k='cell')
    yield dict(k='after')


def dataset(rows, cols, gt):
    return util.mem_raster(np.zeros((rows, cols), 'float32'), gt)


def judge(env, rows, cols, gt, case):
    from utilities import get_pixel_size_grid as mod
    x, y = mod.get_pixel_size_grids(dataset(rows, cols, gt))
    for name, a in (('width', x), ('height', y)):
        a = np.asarray(a)
        if a.shape != (rows, cols):
            raise Violation('grid of cell %s has shape %s' % (name, a.shape),
                            case=case)
    for i in range(rows):
        wx, wy = ref.metres(gt[3] + (i + .5) * gt[5], gt[1], -gt[5])
        for name, a, want in (('width', x, wx), ('height', y, wy)):
            # the grid is interpolated between the ends of larger ones
            tol = 1e-6 if max(rows, cols) <= 3 or \
                max(rows, cols) * max(gt[1], -gt[5]) < .01 else 5e-4
            bad = ~(abs(a[i] - want) <= tol * want)
            if bad.any():
                j = int(np.argmax(bad))
                raise Violation(
                    'cell %s at row %d, column %d of %d x %d is %r m instead '
                    'of %.4f (top left %s, cell size %s)'
                    % (name, i, j, rows, cols, float(a[i, j]), want,
                       (gt[0], gt[3]), (gt[1], gt[5])), case=case)


def run(env, case):
    k = case['k']
    if k == 'shapes':
        res, ratio = case['res'], case['ratio']
        p, n = case['part']
        for rows in range(1, case['top'] + 1):
            for cols in range(1, case['top'] + 1):
                if (rows + cols) % n != p:
                    continue
                lon = (-179.7, 0., 145.2)[(rows + 2 * cols) % 3]
                judge(env, rows, cols, (lon, res * ratio, 0., case['lat'], 0.,
                                        -res), case)
                env.count(key=[case['lat'], res, ratio, rows, cols],
                          nontrivial=rows > 1)
    elif k == 'big':
        rows, cols = case['shape']
        res = 1.02 / max(rows, cols)
        judge(env, rows, cols, (145.2, res, 0., case['lat'], 0., -res), case)
        env.count(key=case, nontrivial=rows > 1)
    elif k == 'after':
        # one raster after another that differs from it in one number only
        base = (145., .01, 0., -37., 0., -.01)
        others = [(145., .01, 0., -37., 0., -.02),
                  (145., .02, 0., -37., 0., -.01),
                  (145., .01, 0., -12., 0., -.01),
                  (145., .01, 0., 37., 0., -.01),
                  (-70., .01, 0., -37., 0., -.01)]
        for one in [base] + others:
            for two in [base] + others:
                for rows, cols in ((2, 3), (3, 2), (6, 1)):
                    judge(env, rows, cols, one, case)
                    judge(env, rows, cols, two, case)
                    judge(env, cols, rows, one, case)
                    env.count(key=[one, two, rows, cols])
    else:
        from utilities import get_pixel_size_grid as mod
        func = getattr(mod, 'get_pixel_size', None)
        if func is None:
            env.skip('get_pixel_size is gone: grids only')
            return
        for lat in LATS:
            for lon in (-179.9, 0., 133.):
                for res in (.1, .001):
                    gt = (lon, res * 1.3, 0., lat, 0., -res)
                    ds = dataset(5, 4, gt)
                    for i in range(5):
                        for j in range(4):
                            got = func(ds, (j, i))
                            want = ref.metres(lat - (i + .5) * res,
                                              1.3 * res, res)
                            for name, g, w in zip(('width', 'height'), got,
                                                  want):
                                if not abs(g - w) <= 1e-6 * w:
                                    raise Violation(
                                        'cell %s at x %d, y %d is %r m '
                                        'instead of %.4f at %s'
                                        % (name, j, i, g, w, gt), case=case)
                            env.count(key=[lat, lon, res, i, j])
    env.sample(case)
