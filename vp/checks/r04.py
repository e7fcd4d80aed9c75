"""R04: rasterising puts the category of an area in the cells it covers."""
import contextlib
import io
import itertools
import logging
import os
import subprocess
import sys

import numpy as np
from osgeo import gdal
from shapely.geometry import MultiPolygon, Polygon, box

from vp import core, shapes, util
from vp.core import Violation

ID = 'R04'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of placements of shapes on a lattice '
             'finer than the raster, of raster shapes, cell sizes, '
             'projections and categories, against a point-in-polygon count')
NOTE = ('No edge runs through a cell centre, so the category of each cell is '
        'determined. The raster is also written over older ones.')
RULE = ('rasters x placements x categories. Distinct are those combinations.')
ASSUMPTIONS = ['areas do not overlap', 'the layer has the projection of the '
               'elevation raster']
TIMEOUT = 600

# edges of shapes, in cells: not at centres
EDGES = (-.75, .25, .75, 1., 1.75, 2.25, 3.75)
CATS = (1, 2, 7, 10, 99, 100, 111, 201, 255, 256, 258, 307, 409, 511, 999,
        4095, 32767, 32768, 40000, 65534, 65535)
GRIDS = [((149., .01, 0., -35., 0., -.01), 4326),
         ((-10., .0125, 0., 10., 0., -.007), 4326),
         ((149., .0003, 0., -35., 0., -.0002), 4283),
         ((149.000138889, 1 / 3600., 0., -35.00013888, 0., -1 / 3600.), 4326),
         ((680000., 30., 0., 6090000., 0., -25.), 28355)]


def cases(tier):
    deep = tier == 'thorough'
    for x in itertools.combinations(range(len(EDGES)), 2):
        yield dict(k='one', x=list(x), deep=deep)
    for part in range(8):
        yield dict(k='two', part=part, step=1 if deep else 4)
    for rows in range(1, 7 if deep else 5):
        yield dict(k='grids', rows=rows, upto=6 if deep else 4)
    yield dict(k='categories')
    yield dict(k='slanted')
    yield dict(k='holes')
    yield dict(k='large')
    yield dict(k='older')
    for attribute in (None, 'CAT', 'OTHER'):
        for crop in (False, True):
            yield dict(k='script', attribute=attribute, crop=crop)


def setup(env):
    os.chdir(env.tmp())
    import pre_process
    for h in list(pre_process.logger.handlers):
        pre_process.logger.removeHandler(h)
        h.close()
    pre_process.logger.propagate = False
    pre_process.logger.setLevel(logging.CRITICAL)


def run(env, case):
    {'one': one, 'two': two, 'grids': grids, 'categories': categories,
     'slanted': slanted, 'holes': holes, 'large': large, 'older': older,
     'script': script}[case['k']](env, case)


def to_map(gt, ring):
    """From cells (column, row) to coordinates."""
    return [(gt[0] + x * gt[1], gt[3] + y * gt[5]) for x, y in ring]


def poly(gt, rings):
    return Polygon(to_map(gt, rings[0]), [to_map(gt, r) for r in rings[1:]])


def ring(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


def expected(shape, areas):
    """areas: [(parts, category)] with parts lists of rings, in cells"""
    out = np.zeros(shape, int)
    for parts, cat in areas:
        for i in range(shape[0]):
            for j in range(shape[1]):
                for rings in parts:
                    if sum(shapes.inside((j + .5, i + .5), r)
                           for r in rings) % 2:
                        out[i, j] = cat
    return out


SCHEMA = {'CAT': 'int:9', 'OTHER': 'int:9', 'NAME': 'str:10'}


def files(env, shape, grid, areas, dtype='float32', nodata=None, base=None):
    base = base or env.tmp()
    gt, epsg = grid
    shp = os.path.join(base, 'cat.shp')
    feats = []
    for n, (parts, cat) in enumerate(areas):
        geom = [poly(gt, rings) for rings in parts]
        feats.append((geom[0] if len(geom) == 1 else MultiPolygon(geom),
                      {'CAT': cat, 'OTHER': n + 300, 'NAME': 'n'}))
    shapes.write_layer(shp, SCHEMA, feats, 'EPSG:%d' % epsg)
    dem = util.write_raster(os.path.join(base, 'dem.tif'),
                            np.full(shape, 7, dtype), gt, epsg, nodata)
    return base, shp, dem


def rasterise(shp, out, dem):
    import pre_process
    with contextlib.redirect_stdout(io.StringIO()):
        pre_process.rasterize(shp, out, dem, None)


def judge(path, dem, shape, grid, areas, case, what=''):
    got, first = util.Raster(path), util.Raster(dem)
    if got.shape != shape or got.gt != first.gt or \
            got.projection != first.projection or got.n != 1:
        raise Violation('%s: the raster is %s at %s with %d bands, not %s '
                        'at %s' % (what, got.shape, got.gt, got.n, shape,
                                   first.gt), case=case)
    if got.nodata[0] != 0:
        raise Violation('%s: no data is %s' % (what, got.nodata[0]),
                        case=case)
    want = expected(shape, areas)
    values = got.bands[0]
    if values.astype(int).tolist() != want.tolist():
        raise Violation('%s areas %s: raster %s, expected %s' % (
            what, areas[:3], values.tolist(), want.tolist()), case=case)


def check(env, case, shape, grid, areas, key, base=None, **kw):
    base, shp, dem = files(env, shape, grid, areas, base=base, **kw)
    with open(dem, 'rb') as h:
        before = h.read(), shapes.contents(shp)
    out = os.path.join(base, 'out.tif')
    try:
        rasterise(shp, out, dem)
    except Exception as e:
        raise Violation('rasterising %s: %r' % (areas[:3], e), case=case)
    judge(out, dem, shape, grid, areas, case)
    with open(dem, 'rb') as h:
        if (h.read(), shapes.contents(shp)) != before:
            raise Violation('the inputs are changed', case=case)
    env.count(key=key, states=1, transitions=1, traces=1,
              nontrivial=bool(expected(shape, areas).any()))


def one(env, case):
    """One rectangle, anywhere."""
    x0, x1 = [EDGES[i] for i in case['x']]
    base = env.tmp()
    for y0, y1 in itertools.combinations(EDGES, 2):
        for n, shape in enumerate(((3, 3), (1, 3), (2, 4))[
                :3 if case['deep'] else 2]):
            grid = GRIDS[(n + case['x'][0] + case['x'][1]) % 5]
            cat = CATS[(int(y0 * 4) + int(x1 * 4) + n) % len(CATS)]
            check(env, case, shape, grid, [([[ring(x0, y0, x1, y1)]], cat)],
                  [x0, x1, y0, y1, shape, cat], base)
    env.sample(case)


def two(env, case):
    """Two rectangles side by side, in both orders."""
    base = env.tmp()
    r = [(a, b) for a, b in itertools.combinations(EDGES, 2)]
    every = [(x, y) for x in r for y in r]
    n = 0
    for i, (x, y) in enumerate(every):
        for j, (u, v) in enumerate(every):
            apart = x[1] <= u[0] or u[1] <= x[0] or y[1] <= v[0] or \
                v[1] <= y[0]
            if not apart:
                continue
            n += 1
            if n % (8 * case['step'] * 29) != case['part']:
                continue
            cats = CATS[i % len(CATS)], CATS[(i + j + 1) % len(CATS)]
            check(env, case, (3, 4), GRIDS[(i + j) % 5],
                  [([[ring(x[0], y[0], x[1], y[1])]], cats[0]),
                   ([[ring(u[0], v[0], u[1], v[1])]], cats[1])],
                  [x, y, u, v, cats], base)
    env.sample(case)


def grids(env, case):
    """All shapes of rasters and kinds of elevation."""
    base = env.tmp()
    rows = case['rows']
    for cols in range(1, case['upto'] + 1):
        for grid in GRIDS:
            for dtype, nodata in (('float32', None), ('int16', -9999),
                                  ('uint8', 0), ('float64', -9999.)):
                areas = [([[ring(-1, -1, cols / 2 + .25, rows + 1)]], 305),
                         ([[ring(cols / 2 + .25, -1, cols + 1,
                                 rows / 2 + .25)]], 111)]
                check(env, case, (rows, cols), grid, areas,
                      [rows, cols, grid, dtype], base, dtype=dtype,
                      nodata=nodata)
                check(env, case, (rows, cols), grid, [],
                      [rows, cols, grid, dtype, 0], base, dtype=dtype,
                      nodata=nodata)
    env.sample(case)


def categories(env, case):
    """Each category, alone and many at once."""
    base = env.tmp()
    cats = list(range(0, 65536, 4096)) + list(CATS) + [
        100 * s + u for s in range(6) for u in range(12)]
    cats = [c for c in cats if c]
    for start in range(0, len(cats), 12):
        chosen = cats[start:start + 12]
        areas = [([[ring(i % 4, i // 4, i % 4 + 1, i // 4 + 1)]], c)
                 for i, c in enumerate(chosen)]
        for order in (areas, areas[::-1]):
            check(env, case, (3, 4), GRIDS[0], order,
                  [[c for _, c in order]], base)
    # in one step, all of them
    n = 256
    areas = [([[ring(i % n, i // n, i % n + 1, i // n + 1)]], i)
             for i in range(1, n * n, 13)]
    base, shp, dem = files(env, (n, n), GRIDS[0], areas)
    out = os.path.join(base, 'o.tif')
    rasterise(shp, out, dem)
    want = np.zeros(n * n, int)
    want[1::13] = np.arange(1, n * n, 13)
    got = util.Raster(out).bands[0].ravel()
    if got.tolist() != want.tolist():
        bad = int(np.nonzero(got != want)[0][0])
        raise Violation('category %d becomes %d' % (want[bad], got[bad]),
                        case=case)
    env.count(key='all', evaluations=len(areas))
    env.sample(case)


def slanted(env, case):
    """Triangles on a lattice that avoids the centres."""
    base = env.tmp()
    points = [(x + .13, y + .29) for x in (-1, 0, 2, 3) for y in (-1, 1, 3)]
    for n, t in enumerate(itertools.combinations(points, 3)):
        if abs(shapes.signed(list(t))) < .2:
            continue
        if any(abs((b[0] - a[0]) * (i + .5 - a[1]) -
                   (b[1] - a[1]) * (j + .5 - a[0])) < 1e-3
               for a, b in zip(t, t[1:] + t[:1])
               for i in range(3) for j in range(3)):
            continue
        for order in (t, t[::-1]):
            check(env, case, (3, 3), GRIDS[n % 5],
                  [([[list(order)]], CATS[n % len(CATS)])],
                  [order, n % 4], base)
    env.sample(case)


def holes(env, case):
    """Areas with holes, and of several parts."""
    base = env.tmp()
    for hole in itertools.combinations(EDGES[1:-1], 2):
        for tall in itertools.combinations(EDGES[1:-1], 2):
            inner = ring(hole[0], tall[0], hole[1], tall[1])[::-1]
            outer = ring(0, 0, 3, 3)
            for cats in ((205, None), (205, 65535)):
                areas = [([[outer, inner]], cats[0])]
                if cats[1]:
                    areas.insert(0, ([[inner[::-1]]], cats[1]))
                check(env, case, (3, 4), GRIDS[1], areas,
                      [hole, tall, cats], base)
    every = list(itertools.product(range(3), repeat=2))
    for m in range(1, 2 ** 9):
        cells = [c for i, c in enumerate(every) if m >> i & 1]
        if any(abs(a[0] - b[0]) + abs(a[1] - b[1]) < 2 for a, b in
               itertools.combinations(cells, 2)):
            continue
        # parts that at most meet in a corner
        areas = [([[ring(x, y, x + 1, y + 1)] for x, y in cells], 411)]
        check(env, case, (3, 3), GRIDS[2], areas, [cells], base)
    env.sample(case)


def large(env, case):
    """A raster of many blocks."""
    areas = [([[ring(3.25, 5.75, 290.25, 8.25)]], 101),
             ([[ring(-4, 20.25, 700.75, 21.75)]], 65535),
             ([[ring(500.25, 30.25, 512.75, 600.25)]], 307)]
    base, shp, dem = files(env, (301, 613), GRIDS[0], areas)
    out = os.path.join(base, 'o.tif')
    rasterise(shp, out, dem)
    want = np.zeros((301, 613), int)
    want[6:8, 3:290] = 101
    want[20:22, :] = 65535
    want[30:, 500:513] = 307
    got = util.Raster(out)
    if got.shape != want.shape or (got.bands[0] != want).any():
        raise Violation('large raster: %d cells differ' % (
            got.shape == want.shape and (got.bands[0] != want).sum()),
            case=case)
    env.count(key='large', evaluations=want.size)
    env.sample(case)


def older(env, case):
    """Over the rasters of earlier runs."""
    layouts = [((3, 3), GRIDS[0], [([[ring(0, 0, 2.25, 3)]], 205)]),
               ((1, 4), GRIDS[1], [([[ring(1, 0, 2.25, 3)]], 65535)]),
               ((3, 3), GRIDS[0], []),
               ((5, 2), GRIDS[3], [([[ring(0, 2, 2.25, 3)]], 1)])]
    for order in itertools.product(range(4), repeat=3):
        base = env.tmp()
        for n in order:
            shape, grid, areas = layouts[n]
            check(env, dict(case, order=order), shape, grid, areas,
                  [order], base)
    env.sample(case)


def script(env, case):
    """rasterize.py itself."""
    grid = GRIDS[0]
    areas = [([[ring(0, 0, 2.25, 2)]], 205), ([[ring(3, 1, 5, 4)]], 65535)]
    base, shp, dem = files(env, (4, 6), grid, areas)
    args = ['-i', shp, '-t', dem]
    if case['attribute']:
        args += ['-a', case['attribute']]
    window = (4, 6)
    if case['crop']:
        mask = os.path.join(base, 'mask.shp')
        shapes.write_layer(mask, {'q': 'int:4'}, [
            (box(grid[0][0] + grid[0][1], grid[0][3] + 3 * grid[0][5],
                 grid[0][0] + 5 * grid[0][1], grid[0][3] + grid[0][5]),
             {'q': 1})], 'EPSG:4326')
        args += ['-c', mask]
        window = None
    with open(dem, 'rb') as h:
        before = h.read()
    cwd = env.tmp()
    p = subprocess.run([sys.executable,
                        os.path.join(core.REPO, 'rasterize.py')] + args,
                       cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=300)
    if p.returncode:
        raise Violation('rasterize.py ends with %d: %s' % (
            p.returncode, p.stdout.decode(errors='replace')[-600:]),
            case=case)
    named = areas
    if case['attribute'] == 'OTHER':
        named = [(parts, 300 + n) for n, (parts, _) in enumerate(areas)]
    want = expected((4, 6), named)
    with open(dem, 'rb') as h:
        if h.read() != before:
            raise Violation('the elevation raster is changed', case=case)
    got = util.Raster(os.path.join(cwd, 'test.tiff'))
    if window is not None:
        if got.bands[0].tolist() != want.tolist() or \
                got.gt != util.Raster(dem).gt:
            raise Violation('raster %s, expected %s' % (
                got.bands[0].tolist(), want.tolist()), case=case)
    else:
        for name in ('test.tiff', 'test_crop.tiff'):
            got = util.Raster(os.path.join(cwd, name))
            part = want[1:3, 1:5]
            if got.bands[0].tolist() != part.tolist():
                raise Violation('cropped raster %s: %s, expected %s' % (
                    name, got.bands[0].tolist(), part.tolist()), case=case)
    rasters = sorted(f for f in os.listdir(cwd) if '.tif' in f)
    if window is not None and rasters != ['test.tiff']:
        raise Violation('rasters %s without a crop' % rasters, case=case)
    env.count(key=case)
    env.sample(case)


gdal.UseExceptions()
