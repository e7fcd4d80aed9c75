"""W12: the eight wind directions are treated alike."""
import math

import numpy as np

from vp import ref, util
from vp.core import Violation
from vp.checks import g01

ID = 'W12'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of the 8 symmetries of the grid times '
             'all single-cell patterns of small tiles and structured tiles, '
             'comparing the multipliers of each direction with those of the '
             'direction it is turned into')
NOTE = ('No reference model takes part in the deciding comparison; tiles lie '
        'on the equator with cells as wide as high, so that turning the data '
        'turns the geometry.')
RULE = ('symmetries x patterns (one cell different at each position, in land '
        'cover, elevation or both; generic data; ramps, ridges, steps) x '
        'shapes x cell sizes x 8 directions. Non-trivial: not the identity.')
ASSUMPTIONS = ['topographic multipliers for which the reference model allows '
               'two values because of rounding may differ']
TIMEOUT = 300

SYM = [(k, f) for k in range(4) for f in (0, 1)]


def cases(tier):
    deep = tier == 'thorough'
    shapes = [(3, 4), (5, 5)] if not deep else \
        [(3, 4), (5, 5), (2, 7), (1, 8), (6, 5), (7, 7), (4, 9)]
    for gw in (130., 65.) if not deep else (130., 65., 260., 45.):
        for rows, cols in shapes:
            cells = [[i, j] for i in range(rows) for j in range(cols)]
            for what in ('lc', 'dem') if not deep else ('lc', 'dem', 'both'):
                for n in range(0, len(cells), 5):
                    if not deep and gw < 100 and what == 'lc':
                        continue
                    yield dict(k='cell', gw=gw, shape=[rows, cols], what=what,
                               cells=cells[n:n + 5])
    shapes = [(9, 9), (4, 11), (12, 12), (1, 9), (2, 2), (1, 1)] if not deep \
        else [(9, 9), (4, 11), (11, 3), (12, 12), (1, 9), (2, 2), (1, 1),
              (20, 20), (17, 25), (30, 8)]
    for n, shape in enumerate(shapes):
        for gw in ((130., 65.)[n % 2],) if not deep else (130., 65., 260.,
                                                          45., 30.):
            for seed in range(1 if not deep else 4):
                yield dict(k='data', gw=gw, shape=list(shape), seed=seed,
                           sym=None)
    for kind in ('ramp', 'ridge', 'step', 'steep'):
        for gw in (130.,) if not deep else (130., 65., 30.):
            yield dict(k=kind, gw=gw, shape=[8, 8] if not deep else [12, 12])


def setup(env):
    util.stub_git()
    util.catch_results()


def turn(a, sym):
    k, f = sym
    a = np.rot90(a, k)
    return a[:, ::-1].copy() if f else a.copy()


def turned_direction(d, sym):
    k, f = sym
    di, dj = ref.UP[d]
    for _ in range(k):
        di, dj = -dj, di
    if f:
        dj = -dj
    return {v: n for n, v in ref.UP.items()}[di, dj]


def geometry(gw, rows, cols):
    mx, my = ref.metres(0., 1e-3, 1e-3)
    res = util.resolution(gw, 0., rows, my / mx)
    return (133., res * my / mx, 0., rows * res / 2., 0., -res)


def compute(folder, dem, cl, gw):
    from shielding import shield_mult
    from terrain import terrain_mult
    rows, cols = dem.shape
    gt = geometry(gw, rows, cols)
    out = g01.compute(folder, dem, gt)
    out = {('topographic', d): v for d, v in out.items()}
    d, c = util.make_tile(folder, 'e1s2', dem, cl, gt)
    ext = util.extent(gt, dem.shape)
    terrain_mult.terrain(c, ext)
    shield_mult.shield(c, d, ext)
    for sub in ('terrain', 'shielding'):
        for x in util.DIRS:
            out[sub, x] = util.read_multiplier(folder, sub, 'e1s2', x)[0]
    return out, gt


TOL = {'terrain': 2e-6, 'shielding': 1e-3, 'topographic': 1e-4}


def compare(env, case, folder, dem, cl, gw, key):
    util.use_table(folder)
    base, gt = compute(folder, dem, cl, gw)
    for sym in SYM[1:]:
        tdem = turn(dem, sym)
        got, tgt = compute(folder, tdem, turn(cl, sym), gw)
        for (sub, d), a in base.items():
            e = turned_direction(d, sym)
            diff = util.where(got[sub, e], turn(np.asarray(a), sym), TOL[sub])
            if diff is None:
                continue
            if sub == 'topographic':
                # where rounding decides both must be what it may give
                g01.compare({d: a}, dem, gt, case, directions=[d])
                g01.compare({e: got[sub, e]}, tdem, tgt, case, tol=1e-4,
                            directions=[e])
                if env is not None:
                    env.count(evaluations=0)
                continue
            raise Violation('%s multiplier: direction %s, turned %d times%s, '
                            'is not direction %s of the turned data: %s'
                            % (sub, d, sym[0], ' and mirrored' * sym[1], e,
                               diff), case=case)
        env.count(key=[key, sym], evaluations=24)


def run(env, case):
    folder = env.tmp()
    rows, cols = case['shape']
    gw = case['gw']
    k = case['k']
    util.catching[0] = k != 'ridge'
    if k == 'cell':
        for i, j in case['cells']:
            dem = np.full((rows, cols), 5., 'float32')
            cl = np.full((rows, cols), 3, 'int32')
            if case['what'] != 'lc':
                dem[i, j] = 5. + .6 * gw
            if case['what'] != 'dem':
                cl[i, j] = 1
            compare(env, dict(case, cells=[[i, j]]), folder, dem, cl, gw,
                    [case['gw'], case['shape'], case['what'], i, j])
    elif k == 'data':
        s = case['seed']
        dem = util.generic(rows, cols, s, 1., 1. + 1.1 * gw)
        cl = util.generic_classes(rows, cols, util.TABLE, s + 1)
        compare(env, case, folder, dem.astype('float32'), cl.astype('int32'),
                gw, case)
    else:
        y, x = np.mgrid[:rows, :cols].astype(float)
        dem = {'ramp': .11 * gw * (2 * x + .7 * y) + 3,
               'ridge': gw * .9 * np.exp(-(x - .4 * y - 2.3) ** 2) +
               math.pi * x + 7 * y,
               'step': np.where(2 * x + y > 9.3, .7 * gw, 2.) + .01 * x * y,
               'steep': .45 * gw * np.abs(x - 3.2) + .3 * gw *
               np.abs(y - 2.7)}[k]
        cl = util.generic_classes(rows, cols, util.TABLE, 5)
        compare(env, case, folder, dem.astype('float32'), cl.astype('int32'),
                gw, case)
    env.sample(case)
