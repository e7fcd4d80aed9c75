"""N01: result cells keep their value and position."""
import itertools
import os

import numpy as np

from vp import prog, ref, util
from vp.core import Violation

ID = 'N01'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of buffers on the four sides, tile '
             'sizes, cell sizes and origins, with a value of its own in every '
             'cell, through the tile computations, the files and whole runs')
NOTE = ('All combinations of 0-2 (3) buffer cells on each side with all small '
        'tile sizes, several inconvenient cell sizes and origins on both '
        'hemispheres. Extents are computed with the rounding errors of the '
        'tile grid. Files are read back with netCDF4 and GDAL.')
RULE = ('buffers^4 x tile shapes x cell sizes x origins in clip_array and '
        'get_lat_lon; buffers x shapes through terrain(), shield() and '
        'topomult(); whole runs of several tiles. Non-trivial: at least one '
        'buffer cell.')
ASSUMPTIONS = ['tiles of one row or column have no position for GDAL '
               '(finding 1), for them only netCDF4 is used']
TIMEOUT = 200

RES = [0.25, 0.1, 1 / 3., 0.0008333333333, 1 / 3600., 0.00025]
ORIGINS = [(146., -16.9), (112.00013888, -10.00013888), (-70.5, 3.25),
           (0., 0.), (143.3, -41.7)]
# tiles that begin a few cells from the equator or the zero meridian
ACROSS = [(-1, 2), (-2, 1), (-3, -1), (-5, -2), (-1, -1.5)]


def cases(tier):
    deep = tier == 'thorough'
    top = 3 if deep else 2
    for rows in range(1, 5 if deep else 4):
        for cols in range(1, 5 if deep else 4):
            for r in range(len(RES)):
                yield dict(k='clip', shape=[rows, cols], res=r, top=top)
            yield dict(k='clip', shape=[rows, cols], res=-1, top=top)
    for shape in ([70, 130], [130, 70]):
        yield dict(k='clip', shape=shape, res=len(RES) - 1, bufs=(0, 1, 67))
    n = 0
    for shape in ([1, 1], [2, 3], [1, 4], [4, 1], [3, 3]):
        for cut in itertools.product((0, 2) if not deep else (0, 1, 3),
                                     repeat=4):
            n += 1
            yield dict(k='tile', shape=shape, cut=cut, origin=n % 5)
    for n in range(6 if not deep else 40):
        yield dict(k='run', n=n)


def setup(env):
    util.stub_git()


def clip(env, case):
    from utilities import nctools
    rows, cols = case['shape']
    res = high = RES[case['res']]
    if case['res'] < 0:
        # cells that are not square
        res, high = 1 / 7., 1 / 3.
    for (lon0, lat0), buf in itertools.product(
            ORIGINS + [(a * res, b * res) for a, b in ACROSS],
            itertools.product(case.get('bufs') or range(case['top'] + 1),
                              repeat=4)):
        n, e, s, w = buf
        # as the tile grid computes them, for a tile at cell 37, 53
        for i0, j0 in ((0, 0), (37, 53), (3600, 7201)):
            ul = -lat0
            big_x = lon0 + (j0 - w) * res
            big_y = -(ul + (i0 - n) * high)
            ext = (lon0 + j0 * res, -(ul + i0 * high),
                   lon0 + (j0 + cols) * res, -(ul + (i0 + rows) * high))
            data = np.arange((rows + n + s) * (cols + w + e), dtype=float)
            data = data.reshape(rows + n + s, cols + w + e)
            got = nctools.clip_array(data, big_x, -big_y, res, high, ext)
            want = data[n:n + rows, w:w + cols]
            if got.shape != want.shape or not np.array_equal(got, want):
                raise Violation('clipped %s instead of %s (buffers %s, cell '
                                'size %r, origin %s)'
                                % (np.asarray(got).tolist(), want.tolist(),
                                   buf, res, (lon0, lat0)), case=case)
            lon, lat = nctools.get_lat_lon(ext, res, high)
            util.same(lon, [ext[0] + (k + .5) * res for k in range(cols)],
                      res * 1e-6, 'longitudes', case)
            util.same(lat, [ext[1] - (k + .5) * high for k in range(rows)],
                      high * 1e-6, 'latitudes', case)
            env.count(key=[rows, cols, res, lon0, buf, i0],
                      nontrivial=any(buf))
    env.sample(case)


def tile(env, case):
    """Cells of over 1 km: every cell keeps the value of its own class."""
    from terrain import terrain_mult
    from shielding import shield_mult
    from topographic import topo_mult
    folder = env.tmp()
    n, e, s, w = case['cut']
    r, c = case['shape']
    rows, cols = r + n + s, c + e + w
    lon0, lat0 = ORIGINS[case['origin']]
    res = 0.0133333333 if case['origin'] % 2 else 1 / 60.
    high = res * (1, 1, 1.5, .6, 1)[case['origin']]
    gt = (lon0, res, 0., lat0, 0., -high)
    classes = np.arange(1, rows * cols + 1, dtype='int32').reshape(rows, cols)
    table = {int(k): (0.002 * 1.03 ** int(k), 60 + .2 * int(k))
             for k in classes.flat}
    # flat, but for some ridges with the lower cells west of them
    dem = util.generic(rows, cols, 3, 0., 900.).astype('float32')
    d, t = util.make_tile(folder, 'e1.00s-2.0', dem, classes, gt)
    util.use_table(folder, table)
    ext = util.extent(gt, (rows, cols), case['cut'])
    terrain_mult.terrain(t, ext)
    shield_mult.shield(t, d, ext)
    topo_mult.topomult(d, ext)
    cut = (slice(n, n + r), slice(w, w + c))
    gw = ref.gridwidth(rows, cols, gt)
    slope, asp = ref.slope_aspect(dem.tolist(), gt)
    faces = [[9 if a is None else ref.sector(a) for a in line] for line in asp]
    want = {'terrain': ref.terrain(classes.tolist(), table, gw),
            'shielding': ref.shielding(
                ref.shielding_init(classes.tolist(), table), slope, faces,
                gw),
            'topographic': ref.topographic(dem.tolist(), gw,
                                           tas=lon0 > 143 and lat0 < -40)}
    for sub in util.SUBS:
        for x in util.DIRS:
            v, lon, lat = util.read_multiplier(folder, sub, 'e1.00s-2.0', x)
            util.same(v, np.array(want[sub][x])[cut], 1e-4,
                      '%s, direction %s' % (sub, x), case)
            util.same(lon, [ext[0] + (k + .5) * res for k in range(c)], 1e-9,
                      'longitudes', case)
            util.same(lat, [ext[1] - (k + .5) * high for k in range(r)], 1e-9,
                      'latitudes', case)
            if min(r, c) > 1:
                # as GDAL sees it
                p = os.path.join(folder, sub, 'e1.00s-2.0_%s_%s.nc'
                                 % (util.SUBS[sub], x))
                q = util.Raster(p)
                util.same(q.gt, (ext[0], res, 0, ext[1], 0, -high), 1e-9,
                          'position for GDAL', case)
                util.same(prog.masked(q.bands[0]),
                          np.array(want[sub][x])[cut], 1e-4,
                          'values for GDAL', case)
    env.count(key=case, evaluations=24, nontrivial=any(case['cut']))
    env.sample(case)


def run(env, case):
    if case['k'] == 'clip':
        clip(env, case)
    elif case['k'] == 'tile':
        tile(env, case)
    else:
        n = case['n']
        folder = env.tmp()
        res = (.25, .2, .5, .125)[n % 4]
        shape = [(6, 10), (7, 8), (4, 5), (10, 12), (3, 7), (14, 5)][n % 6]
        if n > 5:
            shape = (shape[0] + n % 3, shape[1] + n % 2)
        x, y = ORIGINS[n % 5]
        gt = (x, res, 0., y, 0., -res)
        step = int(round(1 / res))
        shape = tuple(s + (s % step == 1) for s in shape)
        dem = util.generic(shape[0], shape[1], n, -20, 900).astype('float32')
        cl = util.generic_classes(shape[0], shape[1], util.TABLE, n)
        up = (0.6, 0.3, 0.01)[n % 3]
        inp = prog.Inputs(folder, dem, cl.astype('int32'), gt, upwind=up)
        prog.run(inp.cfg)
        tiles = prog.ref_run(dem, cl, gt, up)
        prog.judge_run(inp.out, tiles, case=case)
        env.count(key=case, evaluations=24 * len(tiles))
