"""U03: grid interpolation."""
import itertools

import numpy as np

from vp.core import Violation

ID = 'U03'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of all grid shapes up to a bound, '
             'bisection depths and origins, with basis functions for the '
             'bilinear functions and arbitrary values, recording every '
             'evaluation')
NOTE = ('Interpolation is linear in the values, so exactness for the four '
        'basis functions 1, i, j, ij is exactness for all bilinear '
        'functions. Every cell at which the function was evaluated must have '
        'that value, all four corners must be evaluated, cells outside the '
        'block must stay.')
RULE = ('shapes x depths x origins x functions. Non-trivial: more than one '
        'cell.')
ASSUMPTIONS = ['results within 1e-9']
TIMEOUT = 300


def cases(tier):
    top = 16 if tier == 'thorough' else 9
    for rows in range(1, top + 1):
        for cols in range(1, top + 1):
            yield dict(k='grid', rows=rows, cols=cols)
    for shape in ([1, 50], [50, 1], [37, 64], [100, 101], [65, 3]):
        yield dict(k='one', shape=shape)
    yield dict(k='bilinear')
    yield dict(k='block')


FUNCS = {'1': lambda i, j: 1., 'i': lambda i, j: float(i),
         'j': lambda i, j: float(j), 'ij': lambda i, j: float(i) * j,
         'any': lambda i, j: float((7 * i * i + 13 * j + 5 * i * j) % 23)}


def judge(mod, depth, origin, shape, name, case):
    func = FUNCS[name]
    rows, cols = shape
    asked = {}

    def evaluate(i, j):
        asked[int(i), int(j)] = func(i, j)
        if i != int(i) or j != int(j):
            asked[i, j] = None
        return func(i, j)

    grid = np.full((origin[0] + rows + 2, origin[1] + cols + 1), -77.)
    mod.interpolate_grid(depth=depth, origin=origin, shape=shape,
                         eval_func=evaluate, grid=grid)
    what = 'grid of %d x %d at %s, depth %d, function %s' % (
        rows, cols, origin, depth, name)
    block = grid[origin[0]:origin[0] + rows, origin[1]:origin[1] + cols]
    rest = grid.copy()
    rest[origin[0]:origin[0] + rows, origin[1]:origin[1] + cols] = -77.
    if (rest != -77.).any():
        raise Violation(what + ': cells outside of it changed', case=case)
    i0, j0 = origin
    for (i, j), v in asked.items():
        if v is None or not (i0 <= i < i0 + rows and j0 <= j < j0 + cols):
            raise Violation('%s: evaluated at (%r, %r)' % (what, i, j),
                            case=case)
        if not abs(grid[i, j] - v) <= 1e-9 * max(1, abs(v)):
            raise Violation('%s: %r instead of %r at (%d, %d), where it was '
                            'evaluated' % (what, grid[i, j], v, i, j),
                            case=case)
    for i, j in itertools.product((i0, i0 + rows - 1), (j0, j0 + cols - 1)):
        if (i, j) not in asked:
            raise Violation('%s: not evaluated at the corner (%d, %d)'
                            % (what, i, j), case=case)
    if name != 'any':
        want = np.array([[func(i0 + i, j0 + j) for j in range(cols)]
                         for i in range(rows)])
        bad = ~(abs(block - want) <= 1e-9 * np.maximum(1, abs(want)))
        if bad.any():
            i, j = np.argwhere(bad)[0]
            raise Violation('%s: %r instead of %r at (%d, %d)'
                            % (what, block[i, j], want[i, j], i, j),
                            case=case)
    else:
        v = list(asked.values())
        if not (block >= min(v) - 1e-9).all() or \
                not (block <= max(v) + 1e-9).all():
            raise Violation(what + ': values beyond those evaluated',
                            case=case)
    return set(asked)


def blocks(env, case):
    """Blocks of their own, and blocks within a grid."""
    from utilities import blrb
    func = getattr(blrb, 'interpolate_block', None)
    if func is None:
        env.skip('interpolate_block is gone: grids only')
        return
    top = 12 if env.thorough else 7
    for rows, cols in itertools.product(range(1, top + 1), repeat=2):
        for origin in ((0, 0), (3, 1), (0, 7)):
            i0, j0 = origin
            for name in FUNCS:
                f = FUNCS[name]
                far = ((i0 + rows - 1, i0), (j0 + cols - 1, j0))
                want = np.array([[sum(
                    (s if a else 1 - s) * (t if b else 1 - t) *
                    f(i0 + a * (rows - 1), j0 + b * (cols - 1))
                    for a in (0, 1) for b in (0, 1))
                    for t in [j / max(cols - 1., 1.) for j in range(cols)]]
                    for s in [i / max(rows - 1., 1.) for i in range(rows)]])
                asked = []

                def evaluate(i, j):
                    asked.append((int(i), int(j)))
                    return f(i, j)

                what = 'block of %d x %d at %s, function %s' % (
                    rows, cols, origin, name)
                got = func(origin=origin, shape=(rows, cols),
                           eval_func=evaluate)
                if got is None or np.shape(got) != want.shape or \
                        not (abs(got - want) < 1e-9).all():
                    raise Violation('%s: %s instead of %s'
                                    % (what, got, want), case=case)
                if set(asked) != set(itertools.product(*far)):
                    raise Violation('%s: evaluated at %s' % (what, asked),
                                    case=case)
                grid = np.full((i0 + rows + 1, j0 + cols + 2), -77.)
                func(origin=origin, shape=(rows, cols), eval_func=evaluate,
                     grid=grid)
                all_ = np.full(grid.shape, -77.)
                all_[i0:i0 + rows, j0:j0 + cols] = want
                if not (abs(grid - all_) < 1e-9).all():
                    raise Violation('%s in a grid: %s' % (what, grid),
                                    case=case)
                env.count(key=['block', rows, cols, origin, name],
                          nontrivial=rows * cols > 1)
    env.sample(case)


def run(env, case):
    from utilities import blrb
    if case['k'] == 'bilinear':
        func = getattr(blrb, 'bilinear', None)
        if func is None:
            env.skip('bilinear is gone: grids only')
            return
        for rows, cols in itertools.product(range(1, 8), repeat=2):
            for v in itertools.product((0., 1., -2.5), repeat=4):
                ul, ur, lr, ll = v
                got = np.asarray(func((rows, cols), ul, ur, lr, ll))
                want = np.array([[
                    (1 - s) * ((1 - t) * ul + t * ur) +
                    s * ((1 - t) * ll + t * lr)
                    for t in [j / max(cols - 1., 1.) for j in range(cols)]]
                    for s in [i / max(rows - 1., 1.) for i in range(rows)]])
                if got.shape != want.shape or \
                        not (abs(got - want) < 1e-12).all():
                    raise Violation('bilinear %d x %d of %s is %s'
                                    % (rows, cols, v, got.tolist()),
                                    case=case)
                env.count(key=[rows, cols, v], nontrivial=rows * cols > 1)
        return
    if case['k'] == 'block':
        return blocks(env, case)
    if case['k'] == 'one':
        shapes = [tuple(case['shape'])]
    else:
        shapes = [(case['rows'], case['cols'])]
    for shape in shapes:
        for origin in ((0, 0), (3, 1)):
            nodes = {}
            for depth in range(4):
                for name in FUNCS:
                    if depth > 2 and name in ('1', 'i', 'j') and \
                            not env.thorough:
                        continue
                    got = judge(blrb, depth, origin, shape, name, case)
                    env.count(key=[shape, origin, depth, name],
                              nontrivial=shape != (1, 1))
                nodes[depth] = got
                # a deeper bisection is finer
                n = [min(2 ** depth + 1, x) for x in shape]
                if len(got) < n[0] * n[1]:
                    raise Violation(
                        'grid of %d x %d, depth %d: %d values evaluated '
                        'instead of %d' % (shape + (depth, len(got),
                                                    n[0] * n[1])), case=case)
    env.sample(case)
