"""W03: working tiles hold exactly the source cells of their extent."""
import itertools
import math
import os

import numpy as np
from osgeo import gdal, osr

from vp import util
from vp.core import Violation

ID = 'W03'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of all sub-extents of small elevation '
             'rasters (types, no-data cells, origins, cell sizes) and of '
             'resolutions, shifts, sizes and projections of the land cover, '
             'cell by cell')
NOTE = ('Every rectangle of cells of rasters of up to 4 x 5 (6 x 6) cells, '
        'computed with the rounding of the tile grid at offsets up to 7200 '
        'cells, for 16 and 32 bit integers and floats. Land cover 0.3 to 4 '
        'times the cell size in each direction, at 5 x 5 shifts, smaller and '
        'larger than the tile, in geographic and two projected systems.')
RULE = ('sub-extents x shapes x types x origins with a different value in '
        'each cell; land-cover resolution x ratio x shift x size x '
        'projection. Non-trivial: a true part of the raster, or a land cover '
        'on another grid.')
ASSUMPTIONS = ['cells whose centre lies on the border between two land-cover '
               'cells (within 0.02 cells) may have either class']
TIMEOUT = 200

POS = [(145.00013888, -9.99986111, 1 / 3600.), (-70.5, 3.25, .25),
       (0., 0., 1 / 3.), (112.123456789, -43.987654321, .0008333333)]
TYPES = ('int16', 'int32', 'float32', 'float64', 'uint8', 'uint16',
         'uint32', 'int8')


def cases(tier):
    deep = tier == 'thorough'
    for t in TYPES:
        for n in range(4):
            for off in (0, 1) if not deep else (0, 1, 2):
                yield dict(k='dem', t=t, pos=n, off=off,
                           shape=[4, 5] if not deep else [6, 6])
    for t in TYPES:
        yield dict(k='large', t=t)
        yield dict(k='nodata', t=t)
    ratios = (.3, .5, 1., 1.7, 4.) if not deep else \
        (.21, .3, .5, .9, 1., 1.1, 1.7, 2., 3., 4., 7.3)
    for rx, ry in itertools.product(ratios, repeat=2):
        yield dict(k='lc', rx=rx, ry=ry, pos=int(10 * (rx + ry)) % 4)
    for epsg in (28355, 3577, 4283):
        for r in (.4, 1., 2.3):
            yield dict(k='proj', epsg=epsg, r=r)
    for t in ('uint8', 'int16', 'int32', 'float32', 'uint16', 'uint32', 'int8',
              'float64'):
        yield dict(k='types', t=t)


def raster_value(t, rows, cols):
    a = util.generic(rows, cols, 1, -60., 2000.)
    if 'int' in t:
        a = np.round(a) + np.arange(rows * cols).reshape(rows, cols) % 2
        # and the largest and smallest values of the type (that float32 has)
        low, high = np.iinfo(t).min, np.iinfo(t).max
        a = np.clip(a, max(low, -2 ** 24), min(high, 2 ** 24))
        a[0, 0], a[-1, -1] = max(low, -2 ** 24), min(high, 2 ** 24)
    return a.astype(t)


def cut(dem, info, folder, lc='none.tif'):
    import all_multipliers as am
    am.output_folder = folder
    m = am.Multipliers(lc, dem)
    m.open_dem()
    out = []
    for i in info:
        out.append(m.cut_dem(i))
    m.dem_ds = None
    return out


def run(env, case):
    folder = env.tmp()
    k = case['k']
    if k in ('dem', 'large'):
        x, y, res = POS[case.get('pos', 3)]
        rows, cols = case.get('shape', (300, 410))
        # the raster may begin anywhere on its grid
        i0 = (0, 37, 7201)[case.get('off', 0)]
        gt = (x + i0 * res, res, 0., y - i0 * res, 0., -res)
        if case.get('off') == 1:
            gt = (gt[0], res, 0., gt[3], 0., -res * .75)
        a = raster_value(case['t'], rows, cols)
        dem = util.write_raster(os.path.join(folder, 'dem.tif'), a, gt)
        boxes = [(x1, x2, y1, y2)
                 for x1, x2 in itertools.combinations(
                     range(cols + 1) if k == 'dem' else (0, 63, 130, 410), 2)
                 for y1, y2 in itertools.combinations(
                     range(rows + 1) if k == 'dem' else (0, 1, 129, 300), 2)]
        info = []
        for n, (x1, x2, y1, y2) in enumerate(boxes):
            # as the tile grid computes it
            yu, ph = -gt[3], -gt[5]
            ext = (gt[0] + x1 * gt[1], -(yu + y1 * ph),
                   gt[0] + x2 * gt[1], -(yu + y2 * ph))
            info.append(['t%d' % n, ext, ext])
        before = open(dem, 'rb').read()
        for (x1, x2, y1, y2), i, path in zip(boxes, info,
                                             cut(dem, info, folder)):
            if os.path.realpath(path) != os.path.realpath(
                    os.path.join(folder, i[0] + '_dem.img')):
                raise Violation('tile is %s' % path, case=case)
            r = util.Raster(path)
            want = np.array(a[y1:y2, x1:x2], 'float32' if case['t'] != 'int32'
                            else 'int32')
            util.same(r.bands[0], want, 0, 'elevations of cells %s'
                      % ((x1, x2, y1, y2),), case)
            wgt = (i[1][0], gt[1], 0, i[1][1], 0, gt[5])
            if max(abs(p - q) for p, q in zip(r.gt, wgt)) > 1e-9:
                raise Violation('tile at %s instead of %s' % (r.gt, wgt),
                                case=case)
            if 'WGS 84' not in r.projection:
                raise Violation('projection %r' % r.projection, case=case)
            env.count(key=[case, x1, x2, y1, y2],
                      nontrivial=want.shape != a.shape)
        if open(dem, 'rb').read() != before:
            raise Violation('elevation raster changed', case=case)
    elif k == 'nodata':
        x, y, res = POS[1]
        gt = (x, res, 0., y, 0., -res)
        for nodata in {'uint8': (255, 0), 'uint16': (65535, 0),
                       'uint32': (9999, 0), 'int8': (-128, 99),
                       'int16': (-9999, -32768), 'int32': (-9999, -32768)
                       }.get(case['t'], (-9999, -32768, -3.4e38)):
            for mask in range(0, 64, 1):
                a = raster_value(case['t'], 2, 3)
                m = np.array([mask >> b & 1 for b in range(6)],
                             bool).reshape(2, 3)
                a[m] = nodata
                dem = util.write_raster(os.path.join(folder, 'dem.tif'), a,
                                        gt, nodata=nodata)
                ext = util.extent(gt, (2, 3))
                p, = cut(dem, [['t', ext, ext]], folder)
                util.same(util.Raster(p).bands[0],
                          np.where(a == a.dtype.type(nodata), 0,
                                   a).astype('float32'), 0,
                          'elevations with no-data value %r' % nodata, case)
                env.count(key=[case, nodata, mask], nontrivial=mask > 0)
    elif k == 'lc':
        x, y, res = POS[case['pos']]
        lx, ly = res * case['rx'], res * case['ry']
        match = mem(x, y, res, res, 3, 4)
        for sx, sy in itertools.product((-2.37, -.61, 0., .13, 1.42),
                                        repeat=2):
            for rows, cols in ((3, 4), (9, 11), (1, 1)) if sx <= 0 else \
                    ((14, 5),):
                gx, gy = x + sx * lx, y - sy * ly
                judge_lc(env, case, folder, match, gx, gy, lx, ly, rows, cols,
                         4326, (x, y, res, 3, 4))
                env.count(key=[case, sx, sy, rows],
                          nontrivial=not (sx == sy == 0 and lx == ly == res))
    elif k == 'proj':
        x, y, res = 146.3, -16.9, .003
        match = mem(x, y, res, res, 5, 6)
        tr = transformer(4326, case['epsg'])
        px, py, _ = tr.TransformPoint(x + 3 * res, y - 2.5 * res)
        size = case['r'] * (res if case['epsg'] == 4283 else res * 1.08e5)
        for sx, sy in ((0., 0.), (2.3, -1.7), (-5.1, 4.2)):
            for rows, cols in ((30, 30), (4, 3)):
                judge_lc(env, case, folder, match,
                         px - (cols / 2. + sx) * size,
                         py + (rows / 2. + sy) * size, size, size, rows,
                         cols, case['epsg'], (x, y, res, 5, 6))
                env.count(key=[case, sx, sy, rows])
    else:
        x, y, res = POS[3]
        match = mem(x, y, res, res, 3, 4)
        for nodata in (None, 7):
            judge_lc(env, case, folder, match, x, y, res, res, 3, 4, 4326,
                     (x, y, res, 3, 4), t=case['t'], nodata=nodata)
            env.count(key=[case, nodata])
        # every class there can be in a byte, and fractions
        cl = np.arange(16 * 17).reshape(16, 17)
        cl = cl % 256 - 128 * (case['t'] == 'int8')
        if 'float' in case['t']:
            cl = cl + cl % 4 / 4.
        match = mem(x, y, res, res, 16, 17)
        for nodata in (None, 3):
            judge_lc(env, case, folder, match, x, y, res, res, 16, 17, 4326,
                     (x, y, res, 16, 17), t=case['t'], nodata=nodata,
                     cl=cl.astype(case['t']))
            env.count(key=[case, nodata, 'all'])
    env.sample(case)


def mem(x, y, rx, ry, rows, cols):
    return util.mem_raster(np.zeros((rows, cols), 'float32'),
                           (x, rx, 0., y, 0., -ry))


def transformer(a, b):
    s, t = osr.SpatialReference(), osr.SpatialReference()
    for o, e in ((s, a), (t, b)):
        o.ImportFromEPSG(e)
        o.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    return osr.CoordinateTransformation(s, t)


def judge_lc(env, case, folder, match, gx, gy, lx, ly, rows, cols, epsg,
             tile, t='int32', nodata=None, cl=None):
    import all_multipliers as am
    x, y, res, trows, tcols = tile
    if cl is None:
        cl = np.arange(rows * cols).reshape(rows, cols) % 250 + 1
        cl = (cl - 125 * (t == 'int8')).astype(t)
    lc = util.write_raster(os.path.join(folder, 'lc.tif'), cl,
                           (gx, lx, 0., gy, 0., -ly), epsg, nodata)
    dst = os.path.join(folder, 't.img')
    before = open(lc, 'rb').read()
    am.reproject_dataset(lc, match, dst)
    if open(lc, 'rb').read() != before:
        raise Violation('land cover changed', case=case)
    r = util.Raster(dst)
    wgt = (x, res, 0, y, 0, -res)
    if r.shape != (trows, tcols) or \
            max(abs(p - q) for p, q in zip(r.gt, wgt)) > 1e-9:
        raise Violation('land-cover tile %s at %s instead of %s'
                        % (r.shape, r.gt, wgt), case=case)
    tr = None if epsg == 4326 else transformer(4326, epsg)
    for i in range(trows):
        for j in range(tcols):
            cx, cy = x + (j + .5) * res, y - (i + .5) * res
            if tr is not None:
                cx, cy, _ = tr.TransformPoint(cx, cy)
            u, v = (cx - gx) / lx, (gy - cy) / ly
            ok = set()
            for a in (u - .02, u + .02):
                for b in (v - .02, v + .02):
                    c, d = math.floor(a), math.floor(b)
                    val = cl[d, c].item() if 0 <= c < cols and 0 <= d < rows \
                        else 0
                    ok.add(0 if val == nodata else val)
            if r.bands[0][i, j] not in ok:
                raise Violation(
                    'class %s instead of %s at cell %d, %d (land cover '
                    'cells %.3f, %.3f of %d x %d, cell size %r of %r)'
                    % (r.bands[0][i, j], sorted(ok), i, j, v, u, rows, cols,
                       lx, res), case=case)
