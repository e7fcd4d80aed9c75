"""S01: initial shielding by class."""
import itertools
import os

import numpy as np

from vp import ref, util
from vp.core import Violation

ID = 'S01'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of small land covers, tables and class '
             'numberings run through the real reclassification and shield(), '
             'against a cell-by-cell reference model')
NOTE = ('Every land cover of the bounded shapes over the classes of a table, '
        'an unknown class and no data, for all orders and several numberings '
        'of the table and data types. Checked on the initial shielding raster '
        'and, with cells over 100 m, on the shielding files.')
RULE = ('All land covers of a shape over {classes} + {unknown, no data} x row '
        'orders x numberings x data types; non-trivial: at least two '
        'different values in the tile.')
ASSUMPTIONS = ['-99 is not a class (the code uses it for no data)',
               'no-data cells only in signed and floating land covers, as '
               'the tiles of a run are']
TIMEOUT = 120


def cases(tier):
    deep = tier == 'thorough'
    numberings = [[1, 2, 3], [3, 1, 2], [7, 205, 12], [0, 9, 4],
                  [250, 249, 11], [100, 10, 1]]
    types = ('int32', 'float32', 'uint8', 'int16')
    for n, nums in enumerate(numberings):
        for t, dtype in enumerate(types):
            orders = list(itertools.permutations(range(3)))
            if not deep:
                if n > 3 and t != n % 4:
                    continue
                orders = [orders[(n + 2 * t) % 6]]
            for o, order in enumerate(orders):
                for shape in ([(1, 3), (3, 1), (2, 2)] if deep else
                              [[(1, 3), (3, 1)][(n + t) % 2]]):
                    yield dict(k='all', nums=nums, dtype=dtype, order=order,
                               shape=shape)
    for first in (2, 200, 9, 5, -7):
        for second in (2, 200, 9, 5, -7) if deep else (9, -7):
            yield dict(k='all', nums=[2, 200, 9], dtype='int32',
                       order=(2, 0, 1), shape=(2, 2), first=[first, second])
    # class numbers that are the same but for their upper bytes
    for dtype in ('int32', 'float32'):
        yield dict(k='all', nums=[65836, 44, 300], dtype=dtype,
                   order=(1, 2, 0), shape=(1, 3), unknown=556)
    yield dict(k='all', nums=[260, 4, 516], dtype='int16', order=(1, 2, 0),
               shape=(3, 1), unknown=772)
    for n in range(1, 10):
        for shift in range(1 if not deep else 12):
            yield dict(k='table', n=n, shift=shift)
    # classes that share a value, or are the same in everything but number
    for same in (1, 2, 3):
        for n in (2, 4, 7):
            yield dict(k='table', n=n, shift=n, same=same)
    yield dict(k='all', nums=[2, 200, 9], dtype='int32', order=(2, 0, 1),
               shape=(1, 3), unknown=-150)
    yield dict(k='all', nums=[-200, 1, -3], dtype='float32', order=(1, 0, 2),
               shape=(3, 1), unknown=-150)
    # as many classes as there are categories
    for dtype in ('int32', 'float32', 'int16'):
        yield dict(k='many', dtype=dtype)
    for s in range(4 if not deep else 40):
        yield dict(k='big', seed=s)


def setup(env):
    util.stub_git()
    util.catch_results()


def compare(env, folder, classes, table, gt, order=None, nodata=None):
    from shielding import shield_mult
    util.forget_results(folder)
    case = dict(k='one', classes=classes.tolist(), dtype=str(classes.dtype),
                table=[[c, table[c][0], table[c][1]] for c in table], gt=gt,
                order=order, nodata=nodata)
    rows, cols = classes.shape
    dem = np.full(classes.shape, 5, 'int32')
    demfile, tile = util.make_tile(folder, 'e1s2', dem, classes, gt,
                                   nodata=None)
    if nodata is not None:
        # of the land cover only
        util.write_raster(tile, classes, gt, nodata=nodata, driver='HFA')
    util.use_table(folder, table, order)
    init = [[ref.NAN if c == nodata else v for c, v in zip(a, b)]
            for a, b in zip(classes.tolist(),
                            ref.shielding_init(classes.tolist(), table))]
    env.count(key=case, nontrivial=len(set(classes.flat)) > 1)
    func = getattr(shield_mult, 'terrain_class2ms_orig', None)
    if func is None:
        env.skip('terrain_class2ms_orig is gone: shield() only')
    else:
        out = func(tile)
        r = util.Raster(out)
        util.same(r.bands[0], init, 1e-6, 'initial shielding', case)
        if r.shape != classes.shape or max(
                abs(a - b) for a, b in zip(r.gt, gt)) > 1e-9:
            raise Violation('initial shielding is at %s %s instead of %s %s'
                            % (r.gt, r.shape, gt, classes.shape), case=case)
        os.remove(out)
    shield_mult.shield(tile, demfile, util.extent(gt, classes.shape))
    zero = [[0.] * cols] * rows
    want = ref.shielding(init, zero, [[9] * cols] * rows, 1e9)
    for d in util.DIRS:
        got = util.read_multiplier(folder, 'shielding', 'e1s2', d)[0]
        util.same(got, want[d], 2e-6, 'shielding of cells over 100 m, '
                  'direction ' + d, case)


def run(env, case):
    folder = env.tmp()
    util.catching[0] = case['k'] == 'all'
    if case['k'] == 'one':
        table = {c: (z, s) for c, z, s in case['table']}
        compare(env, folder, np.array(case['classes'], case['dtype']), table,
                tuple(case['gt']), case['order'], case['nodata'])
    elif case['k'] == 'all':
        nums = case['nums']
        table = dict(zip(nums, [(2.0, 85), (0.02, 95), (0.4, 72)]))
        order = [nums[i] for i in case['order']]
        rows, cols = case['shape']
        res = util.resolution(250., -20., rows)
        gt = (146., res, 0., -20., 0., -res)
        extra = [case.get('unknown', 5)]
        nodata = None
        if case['dtype'] != 'uint8':
            nodata = -7
            extra.append(-7)
        for vals in itertools.product(nums + extra, repeat=rows * cols):
            if case.get('first') and list(vals[:2]) != case['first']:
                continue
            if set(vals) == {nodata}:
                continue    # a tile with no land cover at all, see DESIGN.md
            c = np.array(vals, case['dtype']).reshape(rows, cols)
            compare(env, folder, c, table, gt, order, nodata)
        env.sample(dict(case, last=list(vals)))
    elif case['k'] == 'table':
        n, shift = case['n'], case['shift']
        table = {}
        for i in range(n):
            table[(i * 7 + shift * 11) % 23 + 1] = (
                .1, [85, 100, 88, 0, 70.5, 99, 120, 95,
                     1e-3][(i + shift) % 9])
        if case.get('same'):
            table = {c: (v[0], table[min(table)][1]
                         if (c + i) % case['same'] == 0 else v[1])
                     for i, (c, v) in enumerate(sorted(table.items()))}
        res = util.resolution(250., -30., 2)
        gt = (130., res, 0., -30., 0., -res)
        classes = sorted(table) + [0, 24, 100]
        c = np.array((classes * 4)[:2 * len(classes)], 'int32').reshape(2, -1)
        for order in (sorted(table), sorted(table)[::-1],
                      sorted(table)[1:] + sorted(table)[:1]):
            compare(env, folder, c, table, gt, order)
    elif case['k'] == 'many':
        nums = [100 * a + b for a in range(6) for b in range(12)]
        table = {c: (.1, 60 + n * 7 % 41 + n / 128.)
                 for n, c in enumerate(nums)}
        c = np.array(nums + [12, 412, 600, 1111], case['dtype'])
        res = util.resolution(250., -30., 4)
        for order in (nums, nums[::-1], nums[40:] + nums[:40]):
            compare(env, folder, c.reshape(4, -1), table,
                    (130., res, 0., -30., 0., -res), order)
    elif case['k'] == 'big':
        s = case['seed']
        rows, cols = 9 + s % 4, 13 - s % 5
        res = util.resolution(400., -15. - s % 25, rows)
        gt = (140. + s, res, 0., -15. - s % 25, 0., -res)
        c = util.generic_classes(rows, cols, list(util.TABLE) + [7, 99], s)
        compare(env, folder, c.astype(('uint8', 'int32', 'float32')[s % 3]),
                util.TABLE, gt, nodata=99 if s % 2 and s % 3 else None)
