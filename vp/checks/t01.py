"""T01: initial terrain multipliers by class."""
import itertools
import os

import numpy as np

from vp import ref, util
from vp.core import Violation

ID = 'T01'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of small land covers, tables and class '
             'numberings run through terrain(), against a cell-by-cell '
             'reference model')
NOTE = ('Every land cover of the bounded shapes over the classes of a table '
        'and an unknown one, for all orders and several numberings of the '
        'table and data types, through the real tile computation and files. '
        'Larger tiles and tables are sampled systematically only.')
RULE = ('All land covers of a shape over {classes of the table} + {unknown '
        'classes} x row orders of the table x numberings x data types x '
        'cell sizes; non-trivial: at least two different values in the tile.')
ASSUMPTIONS = ['multiplier files hold 32 bit floats (tolerance 2e-6)',
               'netCDF4 and GDAL read and write rasters correctly']
TIMEOUT = 120

Z = [2.0, 1.0, 0.8, 0.4, 0.2, 0.1, 0.02, 0.006, 0.0004]


def numberings():
    return [[1, 2, 3], [3, 1, 2], [7, 205, 12], [100, 10, 1], [0, 9, 4],
            [250, 249, 11]]


def cases(tier):
    deep = tier == 'thorough'
    # own value of every cell (cells over 1 km: nothing upwind is averaged)
    types = ('uint8', 'int32', 'float32', 'int16')
    for n, nums in enumerate(numberings()):
        for t, dtype in enumerate(types):
            orders = list(itertools.permutations(range(3)))
            if not deep:
                orders = [orders[(n + t) % 6], orders[(n + 3 - t) % 6]][:1 + (
                    n + t) % 2]
            for o, order in enumerate(orders):
                shapes = [(1, 3), (3, 1), (2, 2)]
                for shape in shapes if deep else [shapes[(n + o) % 2]]:
                    yield dict(k='all', nums=nums, dtype=dtype, order=order,
                               shape=shape)
    # class numbers that are the same but for their upper bytes
    for dtype in ('int32', 'float32'):
        yield dict(k='all', nums=[65836, 44, 300], dtype=dtype,
                   order=(1, 2, 0), shape=(2, 2), unknown=556)
    yield dict(k='all', nums=[260, 4, 516], dtype='int16', order=(1, 2, 0),
               shape=(1, 3), unknown=772)
    # every roughness length, tables of 1 to 9 classes
    for n in range(1, 10):
        for shift in range(1 if not deep else 9):
            yield dict(k='table', n=n, shift=shift)
    # classes that share a value, or are the same in everything but number
    for same in (1, 2, 3):
        for n in (2, 4, 7):
            yield dict(k='table', n=n, shift=n, same=same)
    # unknown classes count as 1 for the cells downwind
    for first in (4, 205, 9, 5):
        yield dict(k='all', nums=[4, 205, 9], dtype='uint8', order=(1, 2, 0),
                   shape=(2, 2), first=first)
    for lat in (-17.2, -41.3):
        for gw in (100., 250.) if deep else (250.,):
            yield dict(k='unknown', lat=lat, gw=gw, shape=[1, 8 if deep else 5])
            yield dict(k='unknown', lat=lat, gw=gw, shape=[8 if deep else 5, 1])
            if deep or lat == -17.2:
                yield dict(k='unknown', lat=lat, gw=gw, shape=[3, 3])
    for s in range(4 if not deep else 40):
        yield dict(k='big', seed=s)
    # a few known cells among unknown ones, and the other way round
    for shape in ((20, 30), (70, 130)):
        for few in (77, 3):
            for at in ([[0, 0]], [[7, 9], [15, 21]], [[-1, -1]]):
                yield dict(k='few', shape=shape, few=few, at=at)
    # as many classes as there are categories
    for dtype in ('int32', 'float32', 'int16'):
        yield dict(k='many', dtype=dtype)
    yield dict(k='none')


def setup(env):
    util.stub_git()
    util.catch_results()


def compute(env, folder, classes, table, gt, order=None, cut=(0, 0, 0, 0)):
    """{direction: array} of terrain(), or None if it wrote nothing."""
    from terrain import terrain_mult
    name = 'e1s2'
    util.forget_results(folder)
    _, tile = util.make_tile(folder, name, None, classes, gt)
    util.use_table(folder, table, order)
    terrain_mult.terrain(tile, util.extent(gt, classes.shape, cut))
    files = util.result_files(folder, 'terrain')
    env.count(evaluations=1)
    if not files:
        return None
    out = {}
    for d in util.DIRS:
        out[d], _, _ = util.read_multiplier(folder, 'terrain', name, d)
    if len(files) != 8:
        raise Violation('files %s' % files)
    return out


def compare(env, folder, classes, table, gt, order=None):
    rows, cols = classes.shape
    gw = ref.gridwidth(rows, cols, gt)
    want = ref.terrain(classes.tolist(), table, gw)
    got = compute(env, folder, classes, table, gt, order)
    case = dict(k='one', classes=classes.tolist(), dtype=str(classes.dtype),
                table=[[c, table[c][0], table[c][1]] for c in table], gt=gt,
                order=order)
    env.count(key=case, evaluations=0,
              nontrivial=len(set(classes.flat)) > 1)
    if want is None or got is None:
        if (want is None) != (got is None):
            raise Violation('files are %s although %s class is known'
                            % ('missing' if got is None else 'written',
                               'no' if want is None else 'a'), case=case)
        return
    for d in util.DIRS:
        util.same(got[d], want[d], 2e-6, 'terrain multiplier, direction ' + d,
                  case)


def run(env, case):
    folder = env.tmp()
    util.catching[0] = case['k'] in ('all', 'unknown')
    if case['k'] == 'one':
        table = {c: (z, s) for c, z, s in case['table']}
        compare(env, folder, np.array(case['classes'], case['dtype']), table,
                tuple(case['gt']), case['order'])
    elif case['k'] == 'all':
        nums = case['nums']
        table = dict(zip(nums, [(2.0, 85), (0.02, 90), (0.4, 100)]))
        order = [nums[i] for i in case['order']]
        rows, cols = case['shape']
        res = util.resolution(1500., -20., rows)
        gt = (146., res, 0., -20., 0., -res)
        unknown = case.get('unknown') or \
            [u for u in (5, 255) if u not in nums][0]
        for vals in itertools.product(nums + [unknown], repeat=rows * cols):
            if case.get('first', vals[0]) != vals[0]:
                continue
            c = np.array(vals, case['dtype']).reshape(rows, cols)
            compare(env, folder, c, table, gt, order)
        env.sample(dict(case, last=list(vals)))
    elif case['k'] == 'table':
        n, shift = case['n'], case['shift']
        table = {}
        for i in range(n):
            table[(i * 7 + shift * 11) % 23 + 1] = (Z[(i + shift) % 9], 80 + i)
        if case.get('same'):
            table = {c: (table[min(table)][0] if (c + i) % case['same'] == 0
                         else v[0], 85 if i % 2 else v[1])
                     for i, (c, v) in enumerate(sorted(table.items()))}
        res = util.resolution(1500., -30., 2)
        gt = (130., res, 0., -30., 0., -res)
        classes = sorted(table) + [0, 24, 100]
        c = np.array((classes * 4)[:2 * len(classes)], 'int32').reshape(2, -1)
        for order in (sorted(table), sorted(table)[::-1],
                      sorted(table)[1:] + sorted(table)[:1]):
            compare(env, folder, c, table, gt, order)
    elif case['k'] == 'unknown':
        rows, cols = case['shape']
        res = util.resolution(case['gw'], case['lat'], rows)
        gt = (146., res, 0., case['lat'], 0., -res)
        for bits in itertools.product((0, 1), repeat=rows * cols):
            if rows * cols > 8 and not env.thorough and sum(bits) % 3 != 1:
                continue
            c = np.where(np.array(bits).reshape(rows, cols), 77, 3)
            c[0, 0] = 6 if c[0, 0] == 3 else 77
            compare(env, folder, c.astype('uint8'), util.TABLE, gt)
    elif case['k'] == 'few':
        rows, cols = case['shape']
        res = util.resolution(1500., -12., rows)
        c = np.full((rows, cols), 80 - case['few'], 'uint8')
        for i, j in case['at']:
            c[i, j] = case['few']
        compare(env, folder, c, util.TABLE, (146., res, 0., -12., 0., -res))
    elif case['k'] == 'many':
        nums = [100 * a + b for a in range(6) for b in range(12)]
        table = {c: (Z[n * 5 % 9] * (1 + n / 200.), 70 + n % 31)
                 for n, c in enumerate(nums)}
        c = np.array(nums + [12, 412, 600, 1111], case['dtype'])
        res = util.resolution(1500., -30., 4)
        for order in (nums, nums[::-1], nums[40:] + nums[:40]):
            compare(env, folder, c.reshape(4, -1), table,
                    (130., res, 0., -30., 0., -res), order)
    elif case['k'] == 'big':
        s = case['seed']
        rows, cols = 9 + s % 4, 13 - s % 5
        res = util.resolution((100., 60., 250., 180.)[s % 4], -15. - s % 25,
                              rows)
        gt = (140. + s, res, 0., -15. - s % 25, 0., -res)
        c = util.generic_classes(rows, cols, list(util.TABLE) + [7, 99], s)
        compare(env, folder, c.astype(('uint8', 'int32', 'float32')[s % 3]),
                util.TABLE, gt)
    else:
        res = util.resolution(250., -20., 3)
        for v in (0, 7, 99, 255):
            for shape in ((1, 1), (3, 4), (6, 2)):
                compare(env, folder, np.full(shape, v, 'uint8'), util.TABLE,
                        (146., res, 0., -20., 0., -res))
