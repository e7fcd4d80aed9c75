"""R02: land-use areas get the category of settlement type and land use."""
import contextlib
import io
import itertools
import logging
import os
import subprocess
import sys

from vp import core, shapes, util
from vp.core import Violation

ID = 'R02'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of settlement types, land uses, '
             'placements of areas on a lattice and crop boxes through the '
             'real preprocessing of files, against sets of cells')
NOTE = ('Shapes are sets of lattice cells; the model groups the settlements '
        'by type, cuts to the box, counts shared cells and computes the '
        'category from the documented codes.')
RULE = ('types x land uses; placements x types; crop boxes x placements. '
        'Distinct are the input layers with their mask.')
ASSUMPTIONS = ['an area that only touches settlements may get one of them '
               'or none; among equal shares any may be given']
TIMEOUT = 600

TYPES = {'Major CBD': 1, 'City': 2, 'Urban': 3, 'Large Town': 4,
         'Small Town': 5}
USES = {'Parkland': 1, 'Primary Production': 2, 'Education': 4,
        'Residential': 5, 'Water': 6, 'Other': 7, 'Commercial': 8,
        'Industrial': 9, 'Hospital/Medical': 10, 'Transport': 11}
ODD_TYPES = ('Village', 'city', 'urban', 'Town', 'CBD', 'City x', None)
ODD_USES = ('Unknown', 'water', 'Hospital', 'Others', None)
SCALE, ORIGIN = (.01, .0125), (149., -35.)
WINDOW = (-3, -3, 17, 20)


def cases(tier):
    deep = tier == 'thorough'
    for part in range(8):
        yield dict(k='types', part=part)
    for first in range(9):
        for t in ('Major CBD', 'Small Town', 'Village', None):
            yield dict(k='overlaps', first=first, type=t, deep=deep)
    for x in itertools.combinations(range(-1, 4), 2):
        yield dict(k='crop', x=list(x))
    yield dict(k='features')
    yield dict(k='attributes')
    yield dict(k='again')
    for mask in (False, True):
        for topo in ('True', 'path'):
            yield dict(k='script', mask=mask, topo=topo)


def setup(env):
    os.chdir(env.tmp())
    import pre_process
    for h in list(pre_process.logger.handlers):
        pre_process.logger.removeHandler(h)
        h.close()
    pre_process.logger.propagate = False
    pre_process.logger.setLevel(logging.CRITICAL)


def run(env, case):
    {'types': types, 'overlaps': overlaps, 'crop': crop,
     'features': features, 'attributes': attributes, 'again': again,
     'script': script}[case['k']](env, case)


geoms = {}


def geometry(cells):
    if cells not in geoms:
        geoms[cells] = shapes.geometry(cells, SCALE, ORIGIN)
    return geoms[cells]


S_SCHEMA = {'SUID': 'int:9', 'SET_TYPE': 'str:30'}
L_SCHEMA = {'LUID': 'int:9', 'LU_NAME': 'str:40', 'HA': 'float:19.5'}


def write_inputs(base, towns, areas, mask=None):
    """towns: [(cells, type)]; areas: [(cells, use)]"""
    s = shapes.write_layer(
        os.path.join(base, 'settle.shp'), S_SCHEMA,
        [(None if c is None else geometry(c), {'SUID': i, 'SET_TYPE': t})
         for i, (c, t) in enumerate(towns)])
    u = shapes.write_layer(
        os.path.join(base, 'use.shp'), L_SCHEMA,
        [(None if c is None else geometry(c),
          {'LUID': i, 'LU_NAME': t, 'HA': i * 1.5})
         for i, (c, t) in enumerate(areas)])
    m = 'None'
    if mask is not None:
        m = shapes.write_layer(
            os.path.join(base, 'mask.shp'), {'name': 'str:9'},
            [(geometry(mask), {'name': 'm'})])
    return s, u, m


def near(cells):
    return frozenset((x + dx, y + dy) for x, y in cells
                     for dx in (-1, 0, 1) for dy in (-1, 0, 1))


def expected(towns, areas, frame=None):
    """[(number, cells, use, types it may get)]"""
    groups = {}
    for c, t in towns:
        if c is None:
            continue
        if frame is not None:
            c = c & frame
        t = t if t in TYPES else None
        groups[t] = groups.get(t, frozenset()) | c
    groups = {t: c for t, c in groups.items() if c}
    out = []
    for i, (c, use) in enumerate(areas):
        if c is None:
            continue
        if frame is not None:
            c = c & frame
            if not c:
                continue
        share = {t: len(c & g) for t, g in groups.items()}
        best = max(share.values()) if share else 0
        if best:
            may = [t for t, n in share.items() if n == best]
        else:
            may = [None] + [t for t, g in groups.items() if near(c) & g]
        out.append((i, c, use, may))
    return out


def process(s, u, m, out):
    import pre_process
    with contextlib.redirect_stdout(io.StringIO()):
        pre_process.pre_process(s, 'SET_TYPE', u, 'LU_NAME', m, out)


def code(t, use):
    return TYPES.get(t, 0) * 100 + USES.get(use, 0)


def judge(path, towns, areas, mask, case):
    frame = None
    if mask is not None:
        frame = shapes.rect(min(x for x, _ in mask), min(y for _, y in mask),
                            max(x for x, _ in mask) + 1,
                            max(y for _, y in mask) + 1)
    want = expected(towns, areas, frame)
    got, schema, crs = shapes.read_layer(path)
    if [a.get('LUID') for _, a in got] != [w[0] for w in want]:
        raise Violation('areas %s in the output, expected %s'
                        % ([a.get('LUID') for _, a in got],
                           [w[0] for w in want]), case=case)
    for (g, a), (i, c, use, may) in zip(got, want):
        what = 'area %d %s of use %s' % (i, sorted(c), use)
        if set(a) != {'LUID', 'LU_NAME', 'HA', 'SET_TYPE', 'CAT'} or \
                a['LU_NAME'] != use or a['HA'] != i * 1.5:
            raise Violation('%s: attributes %s' % (what, a), case=case)
        if a['SET_TYPE'] not in may:
            raise Violation('%s: settlement %s, expected %s'
                            % (what, a['SET_TYPE'], may), case=case)
        if a['CAT'] != code(a['SET_TYPE'], use):
            raise Violation('%s in %s: category %s, expected %d'
                            % (what, a['SET_TYPE'], a['CAT'],
                               code(a['SET_TYPE'], use)), case=case)
        shapes.check(g, c, WINDOW, what, case, SCALE, ORIGIN)
    return got


def one(env, case, towns, areas, mask=None, base=None):
    base = base or env.tmp()
    s, u, m = write_inputs(base, towns, areas, mask)
    before = [shapes.contents(f) for f in (s, u, m) if f != 'None']
    out = os.path.join(base, 'out.shp')
    try:
        process(s, u, m, out)
    except Violation:
        raise
    except Exception as e:
        raise Violation('preprocessing %d settlements and %d areas: %r'
                        % (len(towns), len(areas), e), case=case)
    judge(out, towns, areas, mask, case)
    if [shapes.contents(f) for f in (s, u, m) if f != 'None'] != before:
        raise Violation('the inputs are changed', case=case)
    return out


def types(env, case):
    """All types with all land uses."""
    every = list(TYPES) + list(ODD_TYPES)
    uses = list(USES) + list(ODD_USES)
    k = case['part']
    every = every[k:] + every[:k]
    uses = uses[2 * k:] + uses[:2 * k]
    towns = [(shapes.rect(i, 0, i + 1, len(uses)), t)
             for i, t in enumerate(every)]
    areas = [(shapes.rect(i, j, i + 1, j + 1), u)
             for i in range(len(every) + 2) for j, u in enumerate(uses)]
    if k % 2:
        areas = areas[::-1]
    if k % 4 > 1:
        towns = towns[::-1]
    for mask in (None, shapes.rect(-2, -2, 16, 19), shapes.rect(1, 1, 9, 8)):
        one(env, case, towns, areas, mask)
        env.count(key=[k, None if mask is None else len(mask)],
                  evaluations=len(areas), states=1, transitions=1, traces=1)
    env.sample(case)


def overlaps(env, case):
    """Settlements over each other's areas, of like and unlike types."""
    r = shapes.rects(2, 2)
    uses = list(USES) + list(ODD_USES)
    areas = [(c, uses[i % len(uses)]) for i, c in enumerate(r)]
    areas += [(frozenset([(0, 0), (1, 1)]), 'Water'),
              (frozenset([(0, 0), (1, 0), (0, 1)]), 'Transport')]
    others = list(TYPES) + ['Village', None] if case['deep'] else \
        ['Major CBD', 'Small Town', 'Village', None]
    for second in r:
        for t in others:
            towns = [(r[case['first']], case['type']), (second, t)]
            third = [(shapes.rect(1, 0, 2, 2), 'Urban')]
            for layer in (towns, towns + third) if case['deep'] else \
                    (towns,):
                base = env.tmp()
                one(env, dict(case, towns=[[sorted(c), x]
                                           for c, x in layer]),
                    layer, areas, None, base)
                core.force_rmtree(base, env.scratch)
                env.count(key=[[sorted(c), x] for c, x in layer],
                          evaluations=len(areas), states=1, transitions=1,
                          traces=1)
    env.sample(case)


def crop(env, case):
    """All boxes of masks over a layer of many shapes."""
    cells = sorted(shapes.rect(0, 0, 3, 3))
    every = [frozenset(c for i, c in enumerate(cells) if m >> i & 1)
             for m in range(1, 2 ** 9)]
    uses = list(USES) + list(ODD_USES)
    areas = [(c, uses[i % len(uses)]) for i, c in enumerate(every[::9])]
    x0, x1 = case['x']
    for y0, y1 in itertools.combinations(range(-1, 4), 2):
        for n, towns in enumerate((
                [(every[10], 'City'), (every[300], 'Urban'),
                 (every[77], 'City')],
                [(shapes.rect(0, 0, 1, 3), 'Major CBD'),
                 (shapes.rect(2, 1, 3, 3), None),
                 (shapes.rect(1, 0, 3, 1), 'Small Town')])):
            mask = shapes.rect(x0, y0, x1, y1)
            if n and len(mask) > 2:
                # not a rectangle, with the same box
                mask = frozenset((x, y) for x, y in mask
                                 if x in (x0, x1 - 1) or y == y0)
            if not any(c & mask for c, _ in areas) and n:
                continue
            one(env, dict(case, y=[y0, y1]), towns, areas, mask)
            env.count(key=[case['x'], y0, y1, n], evaluations=len(areas),
                      states=1, transitions=1, traces=1)
    env.sample(case)


def features(env, case):
    """Features without geometry, empty layers, repeated features."""
    towns = [(shapes.rect(0, 0, 1, 2), 'City'),
             (shapes.rect(1, 0, 2, 2), 'Urban'),
             (shapes.rect(2, 0, 3, 2), 'City')]
    areas = [(shapes.rect(i, 0, i + 1, 1), u) for i, u in
             enumerate(('Water', 'Other', 'Parkland', 'Residential'))]
    for gone in itertools.product((0, 1), repeat=3):
        for away in itertools.product((0, 1), repeat=4):
            t = [(None if g else c, x) for (c, x), g in zip(towns, gone)]
            a = [(None if g else c, x) for (c, x), g in zip(areas, away)]
            one(env, dict(case, gone=gone, away=away), t, a)
            env.count(key=[gone, away], states=1, transitions=1, traces=1)
    for n in range(3):
        for m in range(3):
            one(env, dict(case, n=n, m=m), towns[:n], areas[:m])
            one(env, dict(case, n=n, m=m), towns[:n] * 2, areas[:m] * 2)
            env.count(key=[n, m])
    # few features and a mask
    for n in range(4):
        for m in range(5):
            for x in range(4):
                one(env, dict(case, n=n, m=m, x=x), towns[:n],
                    areas[:m], shapes.rect(x - 1, 0, x + 1, 1))
                env.count(key=[n, m, x])
    env.sample(case)


def attributes(env, case):
    """Other attributes of all kinds are kept; names of columns are free."""
    cells = [shapes.rect(i, 0, i + 1, 1) for i in range(3)]
    schema = {'A_INT': 'int:9', 'A_BIG': 'int:9', 'A_REAL': 'float:24.15',
              'A_TEXT': 'str:80', 'WHEN': 'date'}
    rows = [dict(A_INT=1, A_BIG=123456789, A_REAL=.1, A_TEXT='x, y "z"',
                 WHEN='2020-02-29'),
            dict(A_INT=-5, A_BIG=0, A_REAL=-1e6, A_TEXT='long ' * 15,
                 WHEN='1999-12-31'),
            dict(A_INT=None, A_BIG=None, A_REAL=None, A_TEXT=None,
                 WHEN=None)]
    import pre_process
    for scol, lcol, crs in itertools.product(
            ('SUA', 'T', 'SET_TYPE10'), ('use', 'LU', 'A_TEXT'),
            ('EPSG:4326', 'EPSG:4283')):
        base = env.tmp()
        s = shapes.write_layer(
            os.path.join(base, 's.shp'), {scol: 'str:30', 'n': 'int:9'},
            [(geometry(c), {scol: t, 'n': 3}) for c, t in
             zip(cells, ('Urban', 'City', 'Nothing'))], crs)
        lschema = dict(schema)
        lschema.setdefault(lcol, 'str:80')
        feats = []
        for c, r, u in zip(cells, rows, ('Water', 'Commercial', 'Other')):
            r = dict(r)
            if lcol != 'A_TEXT' or u != 'Other':
                r[lcol] = u
            feats.append((geometry(c), r))
        m = shapes.write_layer(os.path.join(base, 'm.shp'), {'q': 'int:4'},
                               [(geometry(shapes.rect(0, 0, 3, 1)),
                                 {'q': 1}),
                                (geometry(shapes.rect(0, 0, 1, 1)),
                                 {'q': 2})], crs)
        u = shapes.write_layer(os.path.join(base, 'u.shp'), lschema, feats,
                               crs)
        for mask in ('None', m):
            out = os.path.join(base, 'o%d.shp' % (mask == m))
            with contextlib.redirect_stdout(io.StringIO()):
                pre_process.pre_process(s, scol, u, lcol, mask, out)
            first, fschema, fcrs = shapes.read_layer(u)
            got, gschema, gcrs = shapes.read_layer(out)
            if gcrs != fcrs:
                raise Violation('projection %s, not %s' % (gcrs, fcrs),
                                case=case)
            for k, v in fschema.items():
                if gschema.get(k) != v:
                    raise Violation('column %s is %s, was %s'
                                    % (k, gschema.get(k), v), case=case)
            for (_, a), (_, b), t in zip(got, first,
                                         ('Urban', 'City', None)):
                want = dict(b)
                want[scol] = t
                want['CAT'] = code(t, b[lcol])
                if a != want:
                    raise Violation('columns %s, %s: attributes %s, expected '
                                    '%s' % (scol, lcol, a, want), case=case)
            env.count(key=[scol, lcol, crs, mask == m])
    env.sample(case)


def again(env, case):
    """A sequence of runs, each over the output of the one before."""
    a = [(shapes.rect(0, 0, 2, 1), 'City'), (shapes.rect(2, 0, 3, 3), 'Urban')]
    b = [(shapes.rect(0, 0, 3, 3), 'Small Town')]
    x = [(shapes.rect(i, j, i + 1, j + 1), u) for (i, j), u in
         zip(itertools.product(range(3), repeat=2), USES)]
    y = x[:2]
    inputs = [(a, x, None), (b, y, None), (a, x, shapes.rect(0, 0, 1, 2)),
              (b, x, shapes.rect(1, 1, 3, 2))]
    for order in itertools.product(range(4), repeat=3):
        base = env.tmp()
        for n in order:
            one(env, dict(case, order=order), *inputs[n], base=base)
        env.count(key=order, states=3, transitions=3, traces=1)
    env.sample(case)


def script(env, case):
    """pre_process.py itself, with its configuration file."""
    base = env.tmp()
    towns = [(shapes.rect(0, 0, 2, 3), 'City'),
             (shapes.rect(2, 0, 3, 2), 'Small Town'),
             (shapes.rect(2, 2, 3, 3), 'Hamlet')]
    areas = [(shapes.rect(i, j, i + 1, j + 1), u) for (i, j), u in
             zip(itertools.product(range(4), repeat=2),
                 itertools.cycle(list(USES) + list(ODD_USES)))]
    mask = shapes.rect(1, 0, 4, 2) if case['mask'] else None
    s, u, m = write_inputs(base, towns, areas, mask)
    # an elevation raster with one cell per cell of the lattice
    import numpy as np
    dem = util.write_raster(
        os.path.join(base, 'dem.tif'), np.zeros((4, 5), 'f4'),
        (ORIGIN[0], SCALE[0], 0, ORIGIN[1] + 4 * SCALE[1], 0, -SCALE[1]))
    data = dem
    if case['topo'] != 'True':
        # the grid is that of the named raster, not of the elevations
        data = util.write_raster(
            os.path.join(base, 'other.tif'), np.zeros((2, 3), 'f4'),
            (ORIGIN[0] + SCALE[0], SCALE[0] * .5, 0,
             ORIGIN[1] + 3 * SCALE[1], 0, -SCALE[1] * .5))
    out, tif = os.path.join(base, 'out.shp'), os.path.join(base, 'out.tif')
    cfg = os.path.join(base, 'pre.cfg')
    with open(cfg, 'w') as h:
        h.write('[inputValues]\ndem_data = %s\n[Preprocessing]\n'
                'settlement_data = %s\nsettlement_cat = SET_TYPE\n'
                'land_use_data = %s\nland_use_cat = LU_NAME\n'
                'crop_mask = %s\noutput_shapefile = %s\n'
                'output_rasterized = %s\ninput_topo = %s\n'
                % (data, s, u, m, out, tif,
                   'True' if case['topo'] == 'True' else dem))
    cwd = env.tmp()
    p = subprocess.run([sys.executable, os.path.join(core.REPO,
                                                     'pre_process.py'),
                        '-c', cfg], cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=300)
    if p.returncode:
        raise Violation('pre_process.py ends with %d: %s' % (
            p.returncode, p.stdout.decode(errors='replace')[-600:]),
            case=case)
    got = judge(out, towns, areas, mask, case)
    raster = util.Raster(tif).bands[0]
    want = np.zeros((4, 5), int)
    for g, a in got:
        for x, y in shapes.cells_of(g, (0, 0, 5, 4), SCALE, ORIGIN)[0]:
            want[3 - y, x] = a['CAT']
    if raster.tolist() != want.tolist():
        raise Violation('raster %s, expected %s'
                        % (raster.tolist(), want.tolist()), case=case)
    where, place = util.Raster(dem), util.Raster(tif)
    if place.gt != where.gt:
        raise Violation('raster at %s, the grid is at %s'
                        % (place.gt, where.gt), case=case)
    env.count(key=case)
    env.sample(case)
