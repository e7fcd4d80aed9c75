"""T02: upwind averages of the terrain multiplier."""
import itertools

import numpy as np

from vp import ref, util
from vp.core import Violation

ID = 'T02'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of tile shapes, cell sizes, widths and '
             'directions (and of all two-valued small tiles) on the real '
             'averaging and tile code, against a cell-by-cell reference')
NOTE = ('All shapes up to the bound with all eight directions and widths; '
        'tiles where every cell has its own value, so that a wrong set of '
        'averaged cells shows; and every two-valued tile of small shapes.')
RULE = ('shapes x cell sizes (30 m to 1.3 km) x 8 directions through '
        'terrain() with a different roughness in every cell; shapes x '
        'averaging widths x lags x directions through convo(); all two-valued '
        'tiles of small shapes. Non-trivial: some cell has an upwind cell to '
        'average.')
ASSUMPTIONS = ['cell sizes are chosen away from the borders of rounding '
               'metres to cells', 'results are 32 bit floats (2e-6)']
TIMEOUT = 200

GW = [30., 52., 72., 100., 130., 180., 240., 300., 460., 900., 1300.]


def cases(tier):
    deep = tier == 'thorough'
    top = 9 if deep else 5
    n = 0
    for r in range(1, top + 1):
        for c in range(1, top + 1):
            for gw in GW:
                n += 1
                if not deep and (n + r) % 2 and min(r, c) > 1:
                    continue
                yield dict(k='tile', shape=[r, c], gw=gw, lat=LATS[n % 4],
                           ratio=(1., 1., .8, 1.25)[(n // 4) % 4])
    for shape in ([30, 30], [1, 60], [60, 1], [40, 12], [12, 40], [3, 50]):
        for gw in (30., 52.) if not deep else (22., 30., 52., 72., 100.):
            yield dict(k='tile', shape=shape, gw=gw, lat=-31., ratio=1.)
    # small cells: distances of up to 60 cells
    for shape in ([1, 110], [110, 1], [62, 60]):
        for gw in (9.6,) if not deep else (8.1, 9.6, 13.):
            yield dict(k='tile', shape=shape, gw=gw, lat=-31., ratio=1.)
    # tall tiles, where the mean cell size is not that of any corner, at the
    # cell sizes from which one cell less or more is averaged
    for lat in (-44.1, 43.):
        for gw in (400., 1000 / 3.) if not deep else (400., 1000 / 3., 235.7,
                                                      200., 141.4):
            for off in (.998, 1.002):
                yield dict(k='tile', shape=[400, 1], gw=gw * off, lat=lat,
                           ratio=1.)
    top = 8 if deep else 6
    for r in range(1, top + 1):
        for c in range(1, top + 1):
            yield dict(k='convo', shape=[r, c], avg=top, lag=top - 1)
    for shape in ([20, 33], [33, 20], [41, 41]):
        yield dict(k='convo1', shape=shape,
                   widths=[[17, 7], [5, 2], [11, 4], [60, 3], [1, 40]])
    # averages of hundreds of cells
    for shape in ([1, 320], [320, 1]) + (([290, 290],) if deep else ()):
        yield dict(k='convo1', shape=shape, widths=[[250, 40], [201, 100],
                                                    [129, 3]])
    lines = ([[1, 10], [10, 1], [3, 3], [2, 5], [5, 2]] if not deep else
             [[1, 14], [14, 1], [3, 4], [4, 3], [2, 6], [6, 2]])
    for shape in lines:
        for avg, lag in ((2, 0), (2, 1), (3, 2), (5, 2)):
            yield dict(k='bits', shape=shape, avg=avg, lag=lag)


LATS = (-12.3, -27.1, -42.9, 11.7)


def setup(env):
    util.stub_git()
    util.catch_results()


def tile(env, case):
    from terrain import terrain_mult
    folder = env.tmp()
    util.caught.clear()
    util.catching[0] = case['shape'][0] != case['shape'][1]
    rows, cols = case['shape']
    res = util.resolution(case['gw'], case['lat'], rows, case['ratio'])
    gt = (138.5, res * case['ratio'], 0., case['lat'], 0., -res)
    # a class of its own for every cell
    z = util.generic(rows, cols, rows + 3 * cols, 0.002, 2.0)
    classes = (np.arange(rows * cols).reshape(rows, cols) * 7) % 10007 + 1
    table = {int(c): (float(v), 100) for c, v in zip(classes.flat, z.flat)}
    _, path = util.make_tile(folder, 'e1s2', None, classes.astype('int32'),
                             gt)
    util.use_table(folder, table)
    terrain_mult.terrain(path, util.extent(gt, (rows, cols)))
    gw = ref.gridwidth(rows, cols, gt)
    init = [[ref.mz_initial(table[int(c)][0]) for c in line]
            for line in classes]
    for d in util.DIRS:
        avg, lag = ref.terrain_widths(gw, d)
        want = ref.upwind_average(init, d, avg, lag)
        got = util.read_multiplier(folder, 'terrain', 'e1s2', d)[0]
        util.same(got, want, 4e-6, 'terrain multiplier, direction %s, '
                  '%g m cells, average %d, lag %d' % (d, gw, avg, lag))
        env.count(key=[case, d], nontrivial=avg > 0 and
                  max(rows, cols) > lag + 1)
    env.sample(case)


def averages(env, data, d, avg, lag, case):
    from terrain import terrain_mult
    convo = getattr(terrain_mult, 'convo', None)
    if convo is None:
        env.skip('terrain_mult.convo is gone: tiles only')
        return
    keep = data.copy()
    got = convo(d, data, avg, lag)
    if not np.array_equal(data, keep):
        raise Violation('convo changes its input', case=case)
    util.same(got, ref.upwind_average(keep.tolist(), d, avg, lag), 4e-6,
              'average, direction %s, average %d, lag %d, shape %s'
              % (d, avg, lag, data.shape), case)
    env.count(key=[d, avg, lag, keep.tolist()],
              nontrivial=avg > 0 and max(data.shape) > lag + 1)


def run(env, case):
    if case['k'] == 'tile':
        tile(env, case)
    elif case['k'] == 'convo':
        rows, cols = case['shape']
        data = util.generic(rows, cols, 5, 0.6, 1.1).astype('float32')
        for d in util.DIRS:
            for avg in range(case['avg'] + 1):
                for lag in range(case['lag'] + 1):
                    averages(env, data, d, avg, lag, case)
    elif case['k'] == 'convo1':
        rows, cols = case['shape']
        data = util.generic(rows, cols, 5, 0.6, 1.1).astype('float32')
        for d in util.DIRS:
            for avg, lag in case['widths']:
                averages(env, data, d, avg, lag, case)
    elif case['k'] == 'bits':
        rows, cols = case['shape']
        for bits in itertools.product((0.7, 1.0), repeat=rows * cols):
            data = np.array(bits, 'float32').reshape(rows, cols)
            for d in util.DIRS:
                averages(env, data, d, case['avg'], case['lag'],
                         dict(case, k='one', bits=bits))
    elif case['k'] == 'one':
        data = np.array(case['bits'], 'float32').reshape(case['shape'])
        for d in util.DIRS:
            averages(env, data, d, case['avg'], case['lag'], case)
