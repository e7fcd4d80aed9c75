"""Tile grids of rasters of any size, as the program makes them."""
import itertools
import math
import os

from . import util
from .core import Violation

VRT = '''<VRTDataset rasterXSize="%d" rasterYSize="%d">
<SRS>%s</SRS><GeoTransform>%r, %r, 0, %r, 0, %r</GeoTransform>
<VRTRasterBand dataType="Float32" band="1"></VRTRasterBand></VRTDataset>
'''

# cell sizes (width) and ratios of height and width of small grids
RES = [1., .5, 1 / 3., .25, 2.]
ORIGINS = [(145.00013888, -9.99986111), (-3.25, 2.5), (0., 0.)]
# real grids: cell width, height, columns, rows, x, y
REAL = [(1 / 3600., 1 / 3600., 3601, 3601, 144.99986111, -15.99986111),
        (1 / 3600., 1 / 3600., 7200, 10801, 113., -10.),
        (0.000277777777778, 0.000277777777778, 14401, 7202, 110.00013888,
         -9.99986111),
        (0.0008333333333, 0.0008333333333, 2500, 1300, 112.5, -20.25),
        (0.00083333333, 0.00083333333, 1201, 1201, 179.5, -40.),
        (0.0025, 0.0025, 1000, 801, -70.2, 3.3),
        (0.003, 0.002, 999, 1501, 0., .5),
        (0.01, 0.01, 4100, 3400, 112., -10.),
        (1 / 3600., 1 / 3600., 151201, 126001, 112.99986111, -9.00013889),
        (0.1, 0.07, 41, 55, 147.123456789, -43.9876543)]


def small(top, res, origin):
    """All small grids of cell sizes res: (gt, rows, cols)"""
    x, y = ORIGINS[origin]
    for rows in range(1, top + 1):
        for cols in range(1, top + 1):
            yield (x, res[0], 0., y, 0., -res[1]), rows, cols


def buffers(pw, ph):
    """Buffer distances around and between whole cells, and large ones."""
    s = {0., .01}
    for p in (pw, ph):
        for k in (.4, 1, 1.6, 2, 3.3, 7.5, 30.2):
            s.add(k * p)
    return sorted(s)


def cells(distance, size):
    """The numbers of whole cells in a distance (two if it is not clear)."""
    q = distance / size
    k = math.floor(q)
    out = {k}
    if abs(q - round(q)) < 1e-9 * max(1, q):
        out = {int(round(q)), int(round(q)) - 1}
    return {max(0, x) for x in out}


def steps(size):
    q = 1. / size
    out = {math.ceil(q)}
    if abs(q - round(q)) < 1e-9 * max(1, q):
        out = {int(round(q)), int(round(q)) + 1}
    return out


def tiles(folder, gt, rows, cols, upwind):
    """[(name, buffered limits, limits)] with limits x1, x2, y1, y2 in cells"""
    import all_multipliers as am
    path = os.path.join(folder, 'grid.vrt')
    with open(path, 'w') as f:
        f.write(VRT % (cols, rows, util.wkt().replace('"', '&quot;'), gt[0],
                       gt[1], gt[3], gt[5]))
    tg = am.TileGrid(upwind, path)
    out = []
    for info in am.get_tiles(tg):
        name, big, ext = info
        lim = []
        for e in (big, ext):
            v = [(e[0] - gt[0]) / gt[1], (e[2] - gt[0]) / gt[1],
                 (e[1] - gt[3]) / gt[5], (e[3] - gt[3]) / gt[5]]
            w = [int(round(a)) for a in v]
            if max(abs(a - b) for a, b in zip(v, w)) > 1e-3:
                raise Violation('extent %s of tile %s is not on cell borders '
                                '(%s)' % (e, name, v))
            lim.append(tuple(w))
        out.append((name, lim[0], lim[1]))
    if not isinstance(tg.num_tiles, int) or tg.num_tiles != len(out):
        raise Violation('%r tiles listed of %r' % (len(out), tg.num_tiles))
    return tg, out


def grids(case):
    """(gt, rows, cols) of a case"""
    if 'real' in case:
        pw, ph, cols, rows, x, y = REAL[case['real']]
        yield (x, pw, 0., y, 0., -ph), rows, cols
    elif 'one' in case:
        yield tuple(case['one'][0]), case['one'][1], case['one'][2]
    else:
        for g in small(case['top'], case['res'], case['origin']):
            yield g


def cases(tier):
    deep = tier == 'thorough'
    for n, (a, b) in enumerate(itertools.product(RES, repeat=2)):
        for o in range(3) if deep else [n % 3]:
            yield dict(res=[a, b], top=13 if deep else 9, origin=o)
    for n in range(len(REAL)):
        yield dict(real=n)
