"""G03: the multipliers of a hill."""
import numpy as np

from vp import ref, util
from vp.core import Violation
from vp.checks import g01, g02

ID = 'G03'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of hill heights, lengths, lee slopes, '
             'positions and spacings on the real line multiplier, against the '
             'formulas of the standard')
NOTE = ('Every combination of height (around 10 m), length (slopes around '
        '0.05 and 0.45), shape behind the crest (end of the line, flat, '
        'symmetric within and beyond 20 percent, escarpment, cliff, rising '
        'again) and room before and behind; compared cell by cell and with '
        'the bounds 1 and 1.71. A part also as tiles through topomult().')
RULE = ('heights x lengths x lee shapes x room before x room behind x '
        'spacings; non-trivial: some multiplier is over 1.')
ASSUMPTIONS = ['decisions within 1e-9 of a threshold are left out, except '
               'where the numbers are exact']
TIMEOUT = 200

HEIGHTS = [9., 10., 11., 25., 60., 150., 400., 1200., 4500., 9000.]
LENGTHS = [1, 2, 3, 5, 8, 13]
LEE = [0., .25, .6, .86, 1., 1.14, 1.6, 3., 30., -.5]


def cases(tier):
    deep = tier == 'thorough'
    for sp in (25., 90., 250., 36.7, 4., 11.3, 127.27922061357856) if deep else \
            (25., 90., 36.7, 4.):
        for h in HEIGHTS + ([10.5, 35., 90., 250., 700., 2200.] if deep
                            else []):
            for n in LENGTHS + ([4, 6, 7, 10, 20, 30] if deep else []):
                yield dict(k='line', sp=sp, h=h, n=n)
    # hills of hundreds of cells
    for n in (150, 310) + ((520, 90) if deep else ()):
        for h in (900., 1700.):
            yield dict(k='line', sp=25., h=h, n=n)
    for h in (11., 60., 400.):
        for n in (1, 2, 4):
            yield dict(k='tile', h=h, n=n)


def setup(env):
    util.stub_git()
    util.catch_results()


def profile(h, n, lee, before, behind, base=0.):
    """Elevations: flat, straight rise of n cells, lee of another slope."""
    v = [base] * before
    v += [base + round(h * k / n) for k in range(n)]
    crest = base + h
    v.append(crest)
    for k in range(1, behind + 1):
        v.append(crest - max(-h, min(h, round(lee * h * k / n))))
    return v


def line(env, v, sp, case):
    from topographic import multiplier_calc as mod
    got = np.array(mod.multiplier_calc(np.array(v, float), sp), float).ravel()
    g02.judge(got, v, sp, case)
    env.count(key=[v, sp], nontrivial=bool((got > 1).any()))


def run(env, case):
    h, n = case['h'], case['n']
    if case['k'] == 'line':
        sp = case['sp']
        for lee in LEE:
            for before in (0, 1, 2, 5, 24) if n < 90 else (3, 400):
                for behind in (0, 1, 2, 4, 9, 40) if n < 90 else \
                        (1, 200):
                    for base in (0., -700.):
                        v = profile(h, n, lee, before, behind, base)
                        line(env, v, sp, dict(k='one', v=v, sp=sp, h=h, n=n))
                        # two hills, one after the other
                        if base == 0. and before == 2 and behind > 1:
                            w = v + [x * .6 for x in v]
                            line(env, w, sp,
                                 dict(k='one', v=w, sp=sp, h=h, n=n))
        env.sample(dict(elevations=v[:30], spacing=sp))
    elif case['k'] == 'one':
        line(env, case['v'], case['sp'], case)
    else:
        folder = env.tmp()
        util.catching[0] = n == 2
        for lee in (0., .6, 1., 1.6):
            rows = 4
            v = profile(h, n, lee, 3, 8)
            res = util.resolution(70., -21., rows)
            gt = (133., res, 0., -21., 0., -res)
            dem = np.array([v] * rows, 'float32')
            for z in (dem, dem[:, ::-1].copy(), dem.T.copy(),
                      dem.T[::-1].copy()):
                g01.compare(g01.compute(folder, z, gt), z, gt,
                            dict(case, lee=lee))
                env.count(key=[case, lee, z.tolist()], evaluations=8)
