"""C02: M3_max is the largest product over the eight directions."""
import itertools

import numpy as np

from vp import conv, util
from vp.core import Violation

ID = 'C02'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of which directions have data (all 2^8 '
             'subsets), of the direction and size order of the largest value, '
             'and of shapes, against the maximum computed from the files')
NOTE = ('Every subset of the 8 directions without data occurs in a cell of '
        'its own, with every rotation of the values; all 8! orders are not '
        'needed since a maximum depends on each pair (i larger than j), and '
        'all pairs occur. Values smaller and larger than 1 and negative '
        'ones. Position, size, bands and no-data value are those of M3.')
RULE = ('256 subsets x 8 rotations of values (x scales), 56 ordered pairs of '
        'two largest directions, shapes x positions. Non-trivial: at least '
        'one direction without data or a maximum not in the first band.')
ASSUMPTIONS = ['values whose product fits 32 bit floats']
TIMEOUT = 120


def cases(tier):
    deep = tier == 'thorough'
    for rot in range(8):
        for lo, hi in ((.5, 1.5), (-3., -.5), (1e-4, 1e3), (-9000, 9000)):
            yield dict(k='subsets', rot=rot, lo=lo, hi=hi)
    for via in ('shielding', 'terrain', 'topographic'):
        yield dict(k='pairs', via=via)
    for rows in range(2, 7 if deep else 4):
        for cols in range(2, 7 if deep else 4):
            yield dict(k='shape', shape=[rows, cols])
    yield dict(k='shape', shape=[2, 300])
    yield dict(k='shape', shape=[270, 530])
    yield dict(k='shape', shape=[130, 70])
    yield dict(k='tiles')


def run(env, case):
    Converter = conv.converter()
    folder = env.tmp()
    tile, lon, lat, res = 'e1.0s2.0', 112.00013888, -9.99986, 1 / 3600.
    k = case['k']
    if k == 'subsets':
        shape = (16, 16)
        vals = {}
        for j, d in enumerate(util.DIRS):
            a = util.generic(16, 16, 3 * ((j + case['rot']) % 8),
                             case['lo'], case['hi'])
            for sub in util.SUBS:
                vals[sub, d] = np.ones(shape)
            sub = sorted(util.SUBS)[(j + case['rot']) % 3]
            vals[sub, d] = a.astype('float32').astype(float)
            for c in range(256):
                if c >> j & 1:
                    vals[sorted(util.SUBS)[(c + j) % 3], d].flat[c] = np.nan
        conv.write_tile(folder, tile, vals, lon, lat, res)
        Converter([tile], folder).run()
        conv.judge_tile(folder, tile, vals, lon, lat, res, case=case)
        for c in range(256):
            env.count(key=[case, c])
    elif k == 'pairs':
        pairs = list(itertools.permutations(range(8), 2))
        vals = {}
        for j, d in enumerate(util.DIRS):
            for sub in util.SUBS:
                vals[sub, d] = np.ones((7, 8))
            a = vals[case['via'], d]
            for c, (one, two) in enumerate(pairs):
                a.flat[c] = 1.3 + .001 * c if j == one else \
                    1.299 + .001 * c if j == two else .5 + .01 * j
        conv.write_tile(folder, tile, vals, lon, lat, res)
        Converter([tile], folder).run()
        conv.judge_tile(folder, tile, vals, lon, lat, res, case=case)
        for c in range(56):
            env.count(key=[case, c])
    elif k == 'shape':
        for n, (x, y, r) in enumerate(((145.25, -16.5, .125),
                                       (0., 0., 1 / 3.), (-3., 7.5, .05))):
            vals = conv.values_for(case['shape'], n)
            t = 'e%ds%d' % (n, n)
            conv.write_tile(folder, t, vals, x, y, r)
            Converter([t], folder).run()
            conv.judge_tile(folder, t, vals, x, y, r, case=case)
            env.count(key=[case, n])
    else:
        # a tile without any data, before, between and after others
        shapes = [(2, 3), (3, 2), (2, 3)]
        for empty in range(3):
            out = env.tmp()
            made = []
            for n in range(3):
                vals = conv.values_for(shapes[n], n)
                if n == empty:
                    for d in util.DIRS:
                        vals['terrain', d][:] = np.nan
                t = 'e%d.0s%d.0' % (n, n)
                conv.write_tile(out, t, vals, n, -n, .25)
                made.append((t, vals, n, -n))
            files = Converter([t for t, _, _, _ in made], out).run()
            for t, vals, x, y in made:
                conv.judge_tile(out, t, vals, x, y, .25, case=case)
            env.count(key=[case, empty], evaluations=3)
    env.sample(case)
