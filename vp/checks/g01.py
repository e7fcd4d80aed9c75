"""G01: the lines along which hills are looked for."""
import numpy as np

from vp import ref, util
from vp.core import Violation

ID = 'G01'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of tile shapes, single-hill positions '
             'and directions through topomult(), and of all shapes and start '
             'cells of the line walker, against a reference')
NOTE = ('Every shape up to the bound with a hill at every cell, compared for '
        'all eight directions and cells with a reference that walks the lines '
        'itself; larger shapes with hilly ground everywhere.')
RULE = ('shapes x hill positions x 8 directions; all start cells x directions '
        'of larger shapes. Non-trivial: the tile has a hill.')
ASSUMPTIONS = ['results are 32 bit floats', 'elevation tiles are ERDAS images']
TIMEOUT = 200


def cases(tier):
    deep = tier == 'thorough'
    top = 8 if deep else 5
    for r in range(1, top + 1):
        for c in range(1, top + 1):
            yield dict(k='hill', shape=[r, c])
    for shape in ([1, 40], [40, 1], [17, 30], [30, 17], [23, 23], [2, 33],
                  [33, 2], [64, 65]) + (([260, 257],) if deep else ()):
        for seed in range(1 if not deep else 5):
            yield dict(k='hilly', shape=shape, seed=seed)
    yield dict(k='far')
    for r in range(1, 31 if deep else 15):
        yield dict(k='walk', rows=r, cols=30 if deep else 14)


def setup(env):
    util.stub_git()
    util.catch_results()


def compute(folder, dem, gt, cut=(0, 0, 0, 0), nodata=None):
    from topographic import topo_mult
    util.forget_results(folder)
    d, _ = util.make_tile(folder, 'e1s2', dem, None, gt, nodata=nodata)
    topo_mult.topomult(d, util.extent(gt, dem.shape, cut))
    return {x: util.read_multiplier(folder, 'topographic', 'e1s2', x)[0]
            for x in util.DIRS}


def compare(got, dem, gt, case, tas=False, tol=3e-6, directions=util.DIRS):
    """Against the reference, allowing for decisions that rounding may turn."""
    gw = ref.gridwidth(dem.shape[0], dem.shape[1], gt)
    z = dem.tolist()
    want = ref.topographic(z, gw, tas, directions)
    other = None
    for d in directions:
        diff = util.where(got[d], want[d], tol)
        if diff is None:
            continue
        # the cell a slope length behind the crest may be rounded down
        if other is None:
            other = ref.topographic(z, gw, tas, directions, beta_shift=1)
        g, a, b = [np.array(x, float) for x in (got[d], want[d], other[d])]
        if g.shape == a.shape and (
                (np.isnan(g) & np.isnan(a)) | (np.abs(g - a) <= tol) |
                (np.abs(g - b) <= tol) |
                ((g >= np.minimum(a, b) - tol) &
                 (g <= np.maximum(a, b) + tol))).all():
            continue
        raise Violation('topographic multiplier, direction %s: %s' % (d, diff),
                        case=case)


def run(env, case):
    folder = env.tmp()
    if case['k'] in ('hill', 'hilly'):
        rows, cols = case['shape']
        util.catching[0] = rows * cols % 4 != 0
        res = util.resolution(60., -21., rows)
        gt = (133., res, 0., -21., 0., -res)
    if case['k'] == 'hill':
        for i in range(rows):
            for j in range(cols):
                dem = np.full((rows, cols), 5., 'float32')
                dem[i, j] = 45.
                compare(compute(folder, dem, gt), dem, gt,
                        dict(case, at=[i, j]))
                env.count(key=[case, i, j], evaluations=8,
                          nontrivial=rows * cols > 1)
        env.sample(case)
    elif case['k'] == 'hilly':
        dem = util.generic(rows, cols, case['seed'], 0., 90.)
        dem = dem.astype('float32')
        compare(compute(folder, dem, gt), dem, gt, case)
        env.count(key=case, evaluations=8)
    elif case['k'] == 'far':
        far(env, case)
    else:
        walk(env, case)


def far(env, case):
    """Lines of tiles with very many cells."""
    from topographic import make_path as mod
    func = getattr(mod, 'make_path', None)
    if func is None:
        env.skip('make_path is gone: tiles only')
        return
    for nr, nc in ((257, 260), (4100, 4099), (2, 9000000), (9000000, 2),
                   (70000, 3), (3, 70000)):
        for d in util.DIRS:
            di, dj = ref.UP[d]
            # the lines of which the other tiles have none: long ones only
            # where they are not too long
            for i, j in ((0, 0), (0, nc - 1), (nr - 1, 0), (nr - 1, nc - 1),
                         (nr // 2, nc - 1), (nr - 1, nc // 2),
                         (nr // 2, 0), (0, nc // 2)):
                steps = min(nr if di else nc, nc if dj else nr)
                if steps > 10000:
                    continue
                # as the program counts them: down the columns, as a float
                start = np.float64(j * nr + i)
                want = []
                while 0 <= i < nr and 0 <= j < nc:
                    want.append(j * nr + i)
                    i, j = i - di, j - dj
                got = [int(x) for x in func(nr, nc, start, d)]
                if got != want:
                    raise Violation('line from cell %d of %d x %d, direction '
                                    '%s: %s... instead of %s...'
                                    % (start, nr, nc, d, got[:3], want[:3]),
                                    case=case)
                env.count(key=[nr, nc, d, start])
    env.sample(case)


def walk(env, case):
    from topographic import make_path as mod
    func = getattr(mod, 'make_path', None)
    if func is None:
        env.skip('make_path is gone: tiles only')
        return
    nr = case['rows']
    for nc in range(1, case['cols'] + 1):
        for d in util.DIRS:
            di, dj = ref.UP[d]
            for start in range(nr * nc):
                # cells are numbered down the columns
                i, j = start % nr, start // nr
                want = []
                while 0 <= i < nr and 0 <= j < nc:
                    want.append(j * nr + i)
                    i, j = i - di, j - dj
                got = [int(x) for x in func(nr, nc, start, d)]
                if got != want:
                    raise Violation('line from cell %d of %d x %d, direction '
                                    '%s: %s instead of %s'
                                    % (start, nr, nc, d, got, want), case=case)
                env.count(evaluations=1)
            env.count(key=[nr, nc, d], evaluations=0)
