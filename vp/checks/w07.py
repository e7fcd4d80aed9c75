"""W07: tiles are skipped if and only if they have no elevation data."""
import itertools
import os

import numpy as np

from vp import prog, util
from vp.core import Violation

ID = 'W07'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of elevation tiles over small values, '
             'types and no-data values, and of all subsets of empty tiles in '
             'whole runs, against the definition')
NOTE = ('All tiles of up to 2 x 3 cells over values that cancel, vanish in '
        'sums and check sums or are close to zero, every position of a '
        'single cell with data in tiles up to 40 x 40, then all subsets of '
        'empty tiles of whole runs with and without buffers. The bulk looks '
        'at the decision (the three computations replaced by recorders), the '
        'whole runs at all files.')
RULE = ('values^cells x types; single cells x positions x values; 2^tiles '
        'subsets of empty tiles x buffers x no-data. Non-trivial: some cell '
        'not zero.')
ASSUMPTIONS = ['elevations within 32 bit floats']
TIMEOUT = 300


def cases(tier):
    deep = tier == 'thorough'
    for n in range(2 ** 3):
        for up in (.01, .6):
            yield dict(k='run', empty=[n >> b & 1 for b in range(3)], up=up,
                       nodata=(n + (up > .1)) % 2)
    for t in ('int16', 'int32', 'float32', 'float64'):
        for shape in ((1, 1), (1, 2), (2, 2), (1, 3)) + \
                (((2, 3),) if deep else ()):
            yield dict(k='values', t=t, shape=shape)
        yield dict(k='single', t=t, size=40 if deep else 12)
        yield dict(k='large', t=t)
    yield dict(k='nodata')


def setup(env):
    util.stub_git()


VALUES = {'int16': (0, 1, -1, 256, -32768), 'int32': (0, 1, -1, 65536),
          'float32': (0, 1e-30, -1, 1, 0.25), 'float64': (0, 1e-20, -3, 3)}


class Stubs(object):
    """The three computations as recorders."""

    def __init__(self, am):
        self.calls = []
        self.saved = []
        for mod, name in ((am.terrain.terrain_mult, 'terrain'),
                          (am.shielding.shield_mult, 'shield'),
                          (am.topographic.topo_mult, 'topomult')):
            self.saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, self.record(name))

    def record(self, name):
        def f(*args):
            self.calls.append((name, args))
            for a in args:
                if isinstance(a, str) and not os.path.exists(a):
                    raise Violation('%s without its tile' % name)
        return f

    def undo(self):
        for mod, name, f in self.saved:
            setattr(mod, name, f)


def one(env, case, folder, dem, t, gt, nodata=None):
    """Whether the tile is computed."""
    import all_multipliers as am
    am.output_folder = folder
    src = util.write_raster(os.path.join(folder, 'dem.tif'), dem, gt,
                            nodata=nodata)
    m = am.Multipliers(os.path.join(folder, 'lc.tif'), src)
    m.open_dem()
    ext = util.extent(gt, dem.shape)
    tile = ['t', ext, ext]
    s = Stubs(am)
    try:
        p = m.cut_dem(tile)
        m.multipliers_calculate(p, tile)
    finally:
        s.undo()
        m.dem_ds = None
    left = set(os.listdir(folder)) - {'dem.tif', 'lc.tif'}
    if left:
        raise Violation('left behind: %s' % sorted(left), case=case)
    names = [c[0] for c in s.calls]
    if names not in ([], ['terrain', 'shield', 'topomult']) and \
            sorted(names) != ['shield', 'terrain', 'topomult']:
        raise Violation('computed: %s' % names, case=case)
    return bool(names)


def run(env, case):
    import all_multipliers as am
    folder = env.tmp()
    gt = (145., .25, 0., -16., 0., -.25)
    k = case['k']
    if k != 'run':
        try:
            Stubs(am).undo()
        except AttributeError:
            env.skip('the three computations')
            return
        util.write_raster(os.path.join(folder, 'lc.tif'),
                          np.ones((2, 2), 'int32'), gt)
    if k == 'values':
        rows, cols = case['shape']
        for vals in itertools.product(VALUES[case['t']], repeat=rows * cols):
            dem = np.array(vals, case['t']).reshape(rows, cols)
            got = one(env, case, folder, dem, case['t'], gt)
            want = bool((dem.astype('float32') != 0).any())
            if got != want:
                raise Violation('tile %s is %s' % (
                    dem.tolist(), 'computed' if got else 'skipped'),
                    case=case)
            env.count(key=[case, vals], nontrivial=want)
    elif k == 'single':
        n = case['size']
        for i in range(n):
            for j in range(0, n, 1 if env.thorough else 3):
                for v in VALUES[case['t']][1:]:
                    dem = np.zeros((n, n), case['t'])
                    dem[i, (j + i) % n] = v
                    if not one(env, case, folder, dem, case['t'], gt):
                        raise Violation('tile with %r at %s is skipped'
                                        % (v, (i, (j + i) % n)), case=case)
                    env.count(key=[case, i, j, v])
    elif k == 'large':
        for i, j in itertools.product((0, 1, 63, 64, 127, 128, 200),
                                      (0, 63, 64, 200, 255, 256, 300)):
            dem = np.zeros((201, 301), case['t'])
            dem[i, j] = VALUES[case['t']][1 + (i + j) % 2]
            if not one(env, case, folder, dem, case['t'], gt):
                raise Violation('tile with data at %s alone is skipped'
                                % ((i, j),), case=case)
            env.count(key=[case, i, j])
    elif k == 'nodata':
        for t, nd in (('int16', -9999), ('int32', -2 ** 31),
                      ('float32', -3.4e38), ('float32', np.nan)):
            for mask in range(16):
                for other in (0, 5):
                    dem = np.full((2, 2), other, t)
                    dem.flat[[b for b in range(4) if mask >> b & 1]] = nd
                    got = one(env, case, folder, dem, t, gt,
                              nodata=float(nd))
                    want = other != 0 and mask != 15
                    if got != want:
                        raise Violation('tile %s without data %r is %s' % (
                            dem.tolist(), nd,
                            'computed' if got else 'skipped'), case=case)
                    env.count(key=[case, t, str(nd), mask, other],
                              nontrivial=want)
    else:
        rows, cols = 3, 12
        dem = util.generic(rows, cols, 3, 1, 900).astype('float32')
        for i, e in enumerate(case['empty']):
            if e:
                dem[:, 4 * i:4 * i + 4] = -9999 if case['nodata'] else 0
        # a single small cell at the far corner of the second tile
        if case['empty'] == [1, 0, 1]:
            dem[:, 4:8] = 0
            dem[2, 7] = -1e-3
        cl = util.generic_classes(rows, cols, util.TABLE, 3).astype('int32')
        gt = (145., .25, 0., -16., 0., -.25)
        inp = prog.Inputs(folder, dem, cl, gt, upwind=case['up'],
                          dem_nodata=-9999 if case['nodata'] else None)
        prog.run(inp.cfg)
        z = dem.copy()
        z[z == -9999] = 0
        tiles = prog.ref_run(z, cl, gt, case['up'])
        prog.judge_run(inp.out, tiles, case=case)
        env.count(key=case, evaluations=3, nontrivial=bool(tiles))
    env.sample(case)
