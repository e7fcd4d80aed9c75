"""S02: the upwind sector of the shielding average."""
import itertools

import numpy as np

from vp import ref, util
from vp.core import Violation

ID = 'S02'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of tile shapes, kernel sizes, directions '
             'and two-valued tiles on the real shielding code, against a '
             'cell-by-cell reference')
NOTE = ('All shapes and kernel sizes up to the bound with a value of its own '
        'in every cell (a wrong set of cells gives another mean), each single '
        'shielded cell, and all two-valued tiles of small shapes. Elevation '
        'is flat, so that only the average and the conservatism act.')
RULE = ('shapes x cell sizes (n = 0 to 9 cells within 100 m) x 8 directions '
        'through shield(); all two-valued tiles of small shapes x n x '
        'directions through the kernels. Non-trivial: the tile has a '
        'shielded cell in reach.')
ASSUMPTIONS = ['cell sizes are chosen away from the borders of rounding',
               'results are 32 bit floats (2e-6)']
TIMEOUT = 200

GW = [130., 101.5, 70., 48., 42., 28., 22., 18.]
LATS = (-12.3, -27.1, -42.9, 11.7)


def cases(tier):
    deep = tier == 'thorough'
    top = 7 if deep else 4
    n = 0
    for r in range(1, top + 1):
        for c in range(1, top + 1):
            for gw in GW:
                n += 1
                yield dict(k='tile', shape=[r, c], gw=gw, lat=LATS[n % 4],
                           ratio=(1., 1., .8, 1.25)[(n // 4) % 4])
    for shape in ([17, 17], [1, 25], [25, 1], [23, 9], [9, 23]):
        for gw in (10.5, 28., 70.):
            yield dict(k='tile', shape=shape, gw=gw, lat=-31., ratio=1.)
    for shape in ([3, 3], [1, 8], [8, 1], [2, 5], [5, 2]) if not deep else (
            [3, 4], [4, 3], [1, 12], [12, 1], [2, 6], [6, 2]):
        for n in (1, 2, 3, 4):
            yield dict(k='bits', shape=shape, n=n)
    # tall tiles, where the mean cell size is not that of any corner, at the
    # cell sizes from which one cell less or more is averaged
    for lat in (-44.1, 43.):
        for gw in (100.,) if not deep else (100., 50.):
            for off in (.998, 1.002):
                yield dict(k='tile', shape=[1300, 1], gw=gw * off, lat=lat,
                           ratio=1.)
    # small cells: 30 of them within 100 m
    for shape in ([1, 70], [70, 1], [22, 24]):
        for gw in (3.3,) if not deep else (3.3, 4.6, 7.2):
            yield dict(k='tile', shape=shape, gw=gw, lat=-31., ratio=1.)
    for n in list(range(1, 13)) + [20] + ([35, 64] if deep else []):
        yield dict(k='impulse', shape=[2 * n + 3, 2 * n + 3], n=n)
        yield dict(k='impulse', shape=[n + 1, 2 * n + 2], n=n)


def setup(env):
    util.stub_git()
    util.catch_results()


def tile(env, case):
    from shielding import shield_mult
    folder = env.tmp()
    util.caught.clear()
    util.catching[0] = case['shape'][0] != case['shape'][1]
    rows, cols = case['shape']
    res = util.resolution(case['gw'], case['lat'], rows, case['ratio'])
    gt = (138.5, res * case['ratio'], 0., case['lat'], 0., -res)
    values = util.generic(rows, cols, rows + 3 * cols, 60., 100.)
    classes = (np.arange(rows * cols).reshape(rows, cols) * 7) % 10007 + 1
    table = {int(c): (.1, float(v))
             for c, v in zip(classes.flat, values.flat)}
    dem, path = util.make_tile(folder, 'e1s2',
                               np.full((rows, cols), 12, 'int32'),
                               classes.astype('int32'), gt)
    util.use_table(folder, table)
    shield_mult.shield(path, dem, util.extent(gt, (rows, cols)))
    gw = ref.gridwidth(rows, cols, gt)
    init = (values / 100.).tolist()
    want = ref.shielding(init, [[0.] * cols] * rows, [[9] * cols] * rows, gw)
    for d in util.DIRS:
        got = util.read_multiplier(folder, 'shielding', 'e1s2', d)[0]
        util.same(got, want[d], 3e-6, 'shielding multiplier, direction %s, '
                  '%g m cells' % (d, gw), case)
        env.count(key=[case, d], nontrivial=int(100 / gw) > 0)
    env.sample(case)


def average(env, data, d, n, case):
    from shielding import shield_mult
    kern = getattr(shield_mult, 'kern_' + d, None)
    blur = getattr(shield_mult, 'blur_image', None)
    if kern is None or blur is None:
        env.skip('kernels of shield_mult are gone: tiles only')
        return
    keep = data.copy()
    got = blur(data, kern(n))
    util.same(got, ref.shielding_average(keep.tolist(), d, n), 3e-6,
              'shielding average, direction %s, n = %d' % (d, n), case)
    if not np.array_equal(keep, data):
        raise Violation('averaging changes its input', case=case)
    env.count(key=[d, n, keep.tolist()], nontrivial=bool((keep != 1).any()))


def run(env, case):
    if case['k'] == 'tile':
        tile(env, case)
    elif case['k'] == 'bits':
        rows, cols = case['shape']
        for bits in itertools.product((0.85, 1.0), repeat=rows * cols):
            data = np.array(bits, 'float32').reshape(rows, cols)
            for d in util.DIRS:
                average(env, data, d, case['n'], dict(case, k='one',
                                                      bits=bits))
    elif case['k'] == 'impulse':
        rows, cols = case['shape']
        n = case['n']
        for i, j in ((rows // 2, cols // 2), (0, 0), (rows - 1, cols - 1),
                     (0, cols - 1), (rows - 1, 0)):
            data = np.ones((rows, cols), 'float32')
            data[i, j] = 0.
            for d in util.DIRS:
                average(env, data, d, n, dict(case, at=[i, j]))
    elif case['k'] == 'one':
        data = np.array(case['bits'], 'float32').reshape(case['shape'])
        for d in util.DIRS:
            average(env, data, d, case['n'], case)
