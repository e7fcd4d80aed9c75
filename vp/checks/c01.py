"""C01: M3 is the product of the three multipliers per direction."""
import itertools
import os

import numpy as np

from vp import conv, prog, util
from vp.core import Violation

ID = 'C01'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of patterns of missing cells over the '
             'multipliers and directions, tile shapes and positions, and '
             'orders of several tiles in one converter, against the product '
             'computed from the files')
NOTE = ('Multiplier files are written by the check with a different value in '
        'every cell of every file, so that any mix-up of files, bands, rows '
        'or columns shows. All 2^3 patterns of missing cells at once in the '
        'cells of each tile and direction, all shapes up to 5 x 5 (8 x 8), '
        'all orders of three tiles. Known finding: tiles one cell wide or '
        'high.')
RULE = ('shapes x positions; the 8 patterns of missing multipliers placed in '
        'the 8 cells of a tile in several rotations per direction; orders and '
        'subsets of tiles in one converter; whole runs. Non-trivial: all but '
        'uniform tiles.')
ASSUMPTIONS = ['values whose product fits 32 bit floats']
TIMEOUT = 120

POS = [(145.25, -16.5, .125), (0., 0., .0008333333), (-70.5, 10.25, 1 / 3.),
       (112.00013888, -9.99986111, 1 / 3600.)]


def cases(tier):
    deep = tier == 'thorough'
    top = 8 if deep else 5
    for rows in range(2, top + 1):
        for cols in range(2, top + 1):
            yield dict(k='shape', shape=[rows, cols])
    yield dict(k='shape', shape=[2, 300])
    yield dict(k='shape', shape=[300, 2])
    yield dict(k='shape', shape=[530, 270])
    yield dict(k='shape', shape=[70, 130])
    yield dict(k='values')
    for rot in range(8 if not deep else 8 * 8):
        yield dict(k='missing', rot=rot)
    for n, order in enumerate(itertools.permutations(range(3))):
        for sub in ((0, 1, 2), (0, 1), (2,)):
            yield dict(k='tiles', order=[order[i] for i in sub])
    for n in range(3 if not deep else 12):
        yield dict(k='run', n=n)
    for shape in ([1, 3], [3, 1], [1, 1]):
        yield dict(k='narrow', shape=shape)


def setup(env):
    util.stub_git()


def run(env, case):
    Converter = conv.converter()
    folder = env.tmp()
    k = case['k']
    if k in ('shape', 'narrow'):
        shape = case['shape']
        for n, (lon, lat, res) in enumerate(POS):
            tile = 'e%ss%s' % (str(lon)[:8], str(-lat)[:7])
            vals = conv.values_for(shape, n)
            out = os.path.join(folder, 'out%d' % n)
            conv.write_tile(out, tile, vals, lon, lat, res)
            before = util.tree(out)
            Converter([tile], out).run()
            if k == 'narrow':
                # GDAL reads these files upside down and without position
                try:
                    conv.judge_tile(out, tile, vals, lon, lat, res,
                                    case=case, what=('M3',))
                except Violation as e:
                    env.finding('narrow-tile', str(e), case)
                # rather than nothing else
                r = util.Raster(os.path.join(out, 'M3', tile + '.tif'))
                for b, d in zip(r.bands, util.M3_ORDER):
                    util.same(np.sort(b, axis=None),
                              np.sort(conv.product(vals, d), axis=None), 1e-5,
                              'values of a narrow tile, direction ' + d, case)
            else:
                conv.judge_tile(out, tile, vals, lon, lat, res, case=case,
                                what=('M3',))
            after = util.tree(out)
            extra = set(after) - set(before)
            if extra != {'M3/%s.tif' % tile, 'M3_max/%s.tif' % tile}:
                raise Violation('conversion leaves %s' % sorted(extra),
                                case=case)
            if any(after[f] != before[f] for f in before):
                raise Violation('conversion changes multiplier files',
                                case=case)
            env.count(key=[case, n], evaluations=8)
    elif k == 'values':
        # extreme multipliers, in all combinations
        some = (0., 1e-4, .5, 1., 3.25, 60., -.75)
        n = len(some)
        lon, lat, res = POS[0]
        vals = {}
        for j, d in enumerate(util.DIRS):
            for i, s in enumerate(sorted(util.SUBS)):
                a = np.arange(n ** 3).reshape(n * n, n)
                a = np.array(some)[a // n ** ((i + j) % 3) % n]
                vals[s, d] = a.astype('float32')
        conv.write_tile(folder, 'e1.0s2.0', vals, lon, lat, res)
        Converter(['e1.0s2.0'], folder).run()
        conv.judge_tile(folder, 'e1.0s2.0', vals, lon, lat, res, case=case)
        env.count(key=case, evaluations=8 * n ** 3)
    elif k == 'missing':
        rot = case['rot']
        lon, lat, res = POS[rot % 4]
        tile = 'e1.0s2.0'
        shape = (2, 4) if rot % 2 else (4, 2)
        vals = conv.values_for(shape, rot)
        pats = list(itertools.product((0, 1), repeat=3))
        for j, d in enumerate(util.DIRS):
            turn = (rot * (1 + rot // 8) + j * (rot // 8 % 3)) % 8
            for c in range(8):
                pat = pats[(c + turn) % 8]
                for sub, gone in zip(sorted(util.SUBS), pat):
                    if gone:
                        vals[sub, d].flat[c] = np.nan
        conv.write_tile(folder, tile, vals, lon, lat, res)
        Converter([tile], folder).run()
        conv.judge_tile(folder, tile, vals, lon, lat, res, case=case)
        env.count(key=case, evaluations=64)
    elif k == 'tiles':
        # tiles of different shapes, one with all data missing in some files
        made = []
        for n in range(3):
            lon, lat, res = POS[0]
            shape = [(2, 3), (3, 2), (2, 3)][n]
            lon += n
            tile = 'e%ss%s' % (str(lon)[:8], str(-lat)[:7])
            vals = conv.values_for(shape, n)
            if n == 1:
                for d in ('s', 'nw'):
                    vals['terrain', d][:] = np.nan
            if n == 0:
                vals['shielding', 'e'][0, 0] = np.nan
            conv.write_tile(folder, tile, vals, lon, lat, res)
            made.append((tile, vals, lon, lat, res))
        names = [made[i][0] for i in case['order']]
        r = Converter(list(names), folder).run()
        for top, ret in (('M3', 0), ('M3_max', 1)):
            files = sorted(os.listdir(os.path.join(folder, top)))
            if files != sorted(t + '.tif' for t in names):
                raise Violation('%s holds %s' % (top, files), case=case)
        for i in case['order']:
            tile, vals, lon, lat, res = made[i]
            conv.judge_tile(folder, tile, vals, lon, lat, res, case=case)
        env.count(key=case, evaluations=8 * len(names))
    else:
        n = case['n']
        rows, cols = [(8, 6), (7, 10), (4, 4)][n % 3]
        gt = (145. + n, .25, 0., -16. - n, 0., -.25)
        dem = util.generic(rows, cols, n, -20, 900).astype('float32')
        cl = util.generic_classes(rows, cols, util.TABLE, n).astype('int32')
        cl[:, -1] = 77      # not in the table
        cl[n % rows, :] = 0
        inp = prog.Inputs(folder, dem, cl, gt)
        prog.run(inp.cfg)
        tiles = prog.ref_run(dem, cl, gt, .01)
        prog.judge_run(inp.out, tiles, case=case)
        env.count(key=case, evaluations=8 * len(tiles))
    env.sample(case)
