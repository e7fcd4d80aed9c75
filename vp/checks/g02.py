"""G02: hills of a wind line."""
import itertools

import numpy as np

from vp import ref, util
from vp.core import Violation
from vp.checks import g01

ID = 'G02'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of all elevation lines up to a length '
             'over several alphabets on the real line multiplier, against a '
             'reference that takes every maximal rising run as a hill')
NOTE = ('Every line of the bounded length, so every arrangement of crests, '
        'feet, plateaus, shoulders and edges; fractional and negative '
        'elevations; a part of the lines also as tiles through topomult().')
RULE = ('all words over an alphabet of elevations up to a length x cell '
        'spacings. Non-trivial: the line has at least one rising run.')
ASSUMPTIONS = ['cells whose reference value depends on a comparison within '
               '1e-9 of its threshold are compared with both outcomes']
TIMEOUT = 300

ALPHA = {'3': (0., 30., 60.), '4': (0., 20., 45., 47.),
         '5': (0., 12., 25., 80., 81.), 'frac': (-3.5, 14.2, 14.9, 40.),
         'low': (-60., -40., -10., 0.), '2': (0., 25.)}


def cases(tier):
    deep = tier == 'thorough'
    plan = [('3', 8, 25.), ('4', 6, 30.), ('frac', 6, 25.), ('low', 6, 20.),
            ('5', 5, 25.), ('2', 11, 25.)]
    if deep:
        plan = [('3', 11, 25.), ('4', 9, 30.), ('frac', 8, 25.),
                ('low', 8, 20.), ('5', 7, 25.), ('2', 16, 25.),
                ('3', 10, 90.), ('4', 8, 141.4213562373095)]
    for name, top, sp in plan:
        for n in range(1, top + 1):
            parts = len(ALPHA[name])
            if n > 5:
                for head in itertools.product(range(parts), repeat=2):
                    yield dict(k='lines', alpha=name, n=n, sp=sp, head=head)
            else:
                yield dict(k='lines', alpha=name, n=n, sp=sp, head=[])
    for n in (3, 4) if not deep else (3, 4, 5, 6):
        yield dict(k='tile', n=n)
    for seed in range(20 if not deep else 200):
        yield dict(k='long', seed=seed)


def setup(env):
    util.stub_git()
    util.catch_results()


def line(env, values, sp, case):
    from topographic import multiplier_calc as mod
    data = np.array(values, float)
    keep = data.copy()
    got = np.array(mod.multiplier_calc(data, sp), float).ravel()
    if not np.array_equal(keep, data):
        raise Violation('the elevations are changed', case=case)
    judge(got, values, sp, case)
    hills = ref.hills([np.floor(v) for v in values])
    env.count(key=[values, sp], nontrivial=bool(hills))


def judge(got, values, sp, case, tol=1e-9):
    tie = []
    want = ref.line_multipliers(values, sp, tie=tie)
    if got.shape == (len(want),) and np.abs(got - want).max() <= tol:
        if not (got >= 1).all() or not (got <= 1.71).all():
            raise Violation('multipliers %s outside 1 ... 1.71' % got.tolist(),
                            case=case)
        return
    other = ref.line_multipliers(values, sp, beta_shift=1)
    if got.shape == (len(want),):
        a, b = np.array(want), np.array(other)
        if ((np.abs(got - a) <= tol) | (np.abs(got - b) <= tol)).all():
            # only where the slope length is not a whole number of cells in
            # floating point does the cell before it count
            if any(np.floor(c + 2 * (abs(c - f) * sp / 2) / sp) != c + c - f
                   for f, c in ref.hills([np.floor(v) for v in values])):
                return
        if any(abs(t) < 1e-9 for t in tie):
            return
    raise Violation('multipliers %s instead of %s for elevations %s every %g '
                    'm' % (got.tolist(), want, list(values), sp), case=case)


def run(env, case):
    if case['k'] == 'lines':
        alpha = ALPHA[case['alpha']]
        head = [alpha[i] for i in case['head']]
        for rest in itertools.product(alpha, repeat=case['n'] - len(head)):
            v = head + list(rest)
            line(env, v, case['sp'], dict(k='one', v=v, sp=case['sp']))
        env.sample(dict(elevations=v, spacing=case['sp']))
    elif case['k'] == 'one':
        line(env, case['v'], case['sp'], case)
    elif case['k'] == 'long':
        s = case['seed']
        n = (60, 101, 33, 250, 1100)[s % 5]
        v = (util.generic(1, n, s, 0, (50, 400, 15)[s % 3])[0]).tolist()
        # smooth it into longer hills
        w = 1 + s % 7
        v = [sum(v[max(0, i - w):i + 1]) for i in range(n)]
        # and the other ways, so that some begin on a slope down
        for w in (v, v[::-1], [-x for x in v], [300 - x for x in v[::-1]]):
            line(env, w, (25., 90., 33.3)[s % 3], case)
    else:
        folder = env.tmp()
        n = case['n']
        util.catching[0] = True
        res = util.resolution(60., -21., n)
        gt = (133., res, 0., -21., 0., -res)
        # all lines as the rows and the columns of tiles
        words = list(itertools.product((0., 30., 60.), repeat=n))
        for k in range(0, len(words) - n, n if not env.thorough else 1):
            dem = np.array(words[k:k + n], 'float32')
            for z in (dem, dem.T.copy()):
                g01.compare(g01.compute(folder, z, gt), z, gt,
                            dict(case, at=k))
                env.count(key=[n, k, z[0].tolist()], evaluations=8)
