"""W11: cutting a region into tiles does not change the multipliers."""
import itertools
import os

import numpy as np

from vp import prog, ref, util
from vp.core import Violation

ID = 'W11'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of all cuts of small regions into up to '
             '2 x 2 tiles (and strips into 3), of buffer sizes and cell '
             'sizes, comparing the joined tiles with the region computed as '
             'one tile')
NOTE = ('The tiles go through the calculation of a run (cutting the '
        'elevation, resampling the land cover, multipliers, clipping). Cell '
        'sizes of 28 to 480 m give upwind distances of 1 to 25 cells. Some '
        'whole runs of several tiles of the real size as well.')
RULE = ('cell sizes x region shapes x cuts x buffers beyond the reach. '
        'Non-trivial: more than one tile.')
ASSUMPTIONS = ['the average cell size gives the same number of upwind cells '
               'for all tiles']
TIMEOUT = 300


def cases(tier):
    deep = tier == 'thorough'
    # target cell size in metres, rows, columns, also 2 x 2 tiles, parts
    sizes = [(90., 3, 14, 0, 2), (90., 14, 3, 0, 2), (210., 5, 6, 1, 4),
             (480., 3, 4, 1, 1), (45., 2, 19, 0, 2), (45., 19, 2, 0, 2)]
    if deep:
        sizes = [(90., 8, 10, 1, 8), (210., 7, 9, 1, 8), (480., 6, 6, 1, 4),
                 (45., 5, 22, 0, 8), (45., 22, 5, 0, 8), (28., 9, 40, 0, 8),
                 (28., 40, 9, 0, 8), (120., 12, 12, 1, 8),
                 (90., 14, 14, 1, 16), (65., 11, 16, 1, 16),
                 (45., 20, 20, 0, 8)] + sizes
    for gw, rows, cols, both, parts in sizes:
        for lat in (-16.3, 12.7) if deep else (-16.3,):
            for extra in (0, 1, 3) if deep else (0,) if gw > 100 else (1,):
                for i in range(parts):
                    yield dict(k='cuts', gw=gw, shape=[rows, cols], lat=lat,
                               extra=extra, part=[i, parts], both=both)
    for n in range(len(RUNS)) if deep else (0, 1, 6):
        yield dict(k='run', n=n)


RUNS = [(.0078125, 130, 20), (.0078125, 20, 130), (.0042, 245, 30),
        (.0042, 30, 245), (.00305, 335, 30), (.00305, 30, 335),
        (.05, 44, 45), (.0156, 70, 131)]


def setup(env):
    util.stub_git()
    util.catch_results()
    import all_multipliers as am
    from utilities import parallel
    am.MPI = parallel.attempt_parallel()
    am.comm = am.MPI.COMM_WORLD


def calculate(folder, m, gt, tiles):
    """
    {(sub, direction): values} of a region from its tiles
    [(name, unbuffered, buffered)] with limits (x1, x2, y1, y2).
    """
    import all_multipliers as am
    am.output_folder = folder
    out = {}
    for name, t, b in tiles:
        util.forget_results(folder)
        am.output_folder = folder
        info = [name] + [
            (gt[0] + x1 * gt[1], gt[3] + y1 * gt[5],
             gt[0] + x2 * gt[1], gt[3] + y2 * gt[5])
            for x1, x2, y1, y2 in (b, t)]
        dem = m.cut_dem(info)
        m.multipliers_calculate(dem, info)
        for sub in ('terrain', 'shielding'):
            for d in util.DIRS:
                v, lon, lat = util.read_multiplier(folder, sub, name, d)
                if v.shape != (t[3] - t[2], t[1] - t[0]):
                    raise Violation(
                        '%s of %d x %d cells for a tile of %d x %d (limits '
                        '%s, buffered %s)' % ((sub,) + v.shape + (
                            t[3] - t[2], t[1] - t[0], t, b)))
                out.setdefault((sub, d), []).append((t, v))
    return out


def joined(parts, shape):
    a = np.full(shape, np.nan)
    n = np.zeros(shape, int)
    for (x1, x2, y1, y2), v in parts:
        a[y1:y2, x1:x2] = v
        n[y1:y2, x1:x2] += 1
    if (n != 1).any():
        raise RuntimeError('cuts do not cover the region')
    return a


def reach(gw):
    return max([sum(ref.terrain_widths(gw, d)) for d in util.DIRS] +
               [int(100. / gw) + 1, 1])


def grids(shape, both):
    rows, cols = shape
    for i in range(1, cols):
        yield (0, i, cols), (0, rows)
    for j in range(1, rows):
        yield (0, cols), (0, j, rows)
    if both:
        for i, j in itertools.product(range(1, cols), range(1, rows)):
            yield (0, i, cols), (0, j, rows)
    # a strip in the middle
    for i in range(1, cols - 1):
        yield (0, i, i + 1, cols), (0, rows)
    for j in range(1, rows - 1):
        yield (0, cols), (0, j, j + 1, rows)


def run(env, case):
    folder = env.tmp()
    if case['k'] == 'run':
        return whole(env, case, folder)
    import all_multipliers as am
    rows, cols = case['shape']
    res = util.resolution(case['gw'], case['lat'], rows)
    gt = (145.2, res, 0., case['lat'], 0., -res)
    gw = ref.gridwidth(rows, cols, gt)
    dem = util.generic(rows, cols, 3, 1, 100 + 1.2 * case['gw'])
    dem = dem.astype('float32')
    cl = util.generic_classes(rows, cols, util.TABLE, 2).astype('int32')
    inp = prog.Inputs(folder, dem, cl, gt)
    util.set_config(inp.cfg)
    for sub in util.SUBS:
        os.makedirs(os.path.join(folder, sub), exist_ok=True)
    m = am.Multipliers(inp.lc, inp.dem)
    m.open_dem()
    all_ = (0, cols, 0, rows)
    ref_ = calculate(folder, m, gt, [('whole', all_, all_)])
    buf = reach(gw) + case['extra']
    i0, n = case['part']
    for k, (xs, ys) in enumerate(grids(case['shape'], case['both'])):
        if k % n != i0:
            continue
        tiles = []
        for x1, x2 in zip(xs, xs[1:]):
            for y1, y2 in zip(ys, ys[1:]):
                tiles.append((
                    't%d_%d' % (x1, y1), (x1, x2, y1, y2),
                    (max(0, x1 - buf), min(cols, x2 + buf),
                     max(0, y1 - buf), min(rows, y2 + buf))))
        got = calculate(folder, m, gt, tiles)
        for key in ref_:
            util.same(joined(got[key], (rows, cols)),
                      joined(ref_[key], (rows, cols)),
                      2e-6 if key[0] == 'terrain' else 1e-3,
                      '%s, direction %s, of tiles cut at columns %s and rows '
                      '%s with a buffer of %d cells, cells of %g m'
                      % (key + (xs, ys, buf, gw)), case)
        env.count(key=[case['gw'], case['shape'], case['lat'], buf, xs, ys])
    m.dem_ds = None
    env.sample(dict(case, buffer=buf))


def whole(env, case, folder):
    """A run on tiles of one degree; the region as one tile beside it."""
    import all_multipliers as am
    res, rows, cols = RUNS[case['n']]
    gt = (145.2, res, 0., -16.3, 0., -res)
    dem = util.generic(rows, cols, 3, 1, 100 + 1e5 * res).astype('float32')
    cl = util.generic_classes(rows, cols, util.TABLE, 2).astype('int32')
    upwind = max(.0101, res * 1.01)
    inp = prog.Inputs(folder, dem, cl, gt, upwind=upwind)
    am.comm = am.MPI.COMM_WORLD
    util.catching[0] = False
    try:
        prog.run(inp.cfg)
        parts = {}
        for name, t, _ in prog.ref_tiles((rows, cols), gt, upwind):
            for sub in ('terrain', 'shielding'):
                for d in util.DIRS:
                    v, lon, lat = util.read_multiplier(inp.out, sub, name, d)
                    if v.shape != (t[3] - t[2], t[1] - t[0]):
                        raise Violation('%s of tile %s has %d x %d cells'
                                        % ((sub, name) + v.shape), case=case)
                    parts.setdefault((sub, d), []).append((t, v))
    finally:
        util.catching[0] = True
    util.set_config(inp.cfg)
    for sub in util.SUBS:
        os.makedirs(os.path.join(folder, 'one', sub), exist_ok=True)
    m = am.Multipliers(inp.lc, inp.dem)
    m.open_dem()
    all_ = (0, cols, 0, rows)
    one = calculate(os.path.join(folder, 'one'), m, gt,
                    [('one', all_, all_)])
    m.dem_ds = None
    for key in one:
        util.same(joined(parts[key], (rows, cols)),
                  joined(one[key], (rows, cols)),
                  2e-6 if key[0] == 'terrain' else 1e-3,
                  '%s, direction %s, of a run on tiles' % key, case)
    env.count(key=case)
