"""R03: dissolving and cropping keep exactly the area they should."""
import itertools
import os

from shapely.geometry import Polygon, box

from vp import shapes
from vp.core import Violation

ID = 'R03'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of layers of lattice shapes, values and '
             'crop boxes, and of sequences of dissolving, cropping, saving '
             'and reading, against sets of cells')
NOTE = ('Shapes are sets of lattice cells; the result is read off the '
        'coordinates of its rings with a crossing count, independently of '
        'the geometry library. All shapes of a 3 x 3 lattice are cropped '
        'with all boxes of a larger one.')
RULE = ('layers x values; layers x boxes; sequences of operations. Distinct '
        'are those combinations.')
ASSUMPTIONS = ['the values dissolved by are texts or missing; which of the '
               'other attributes of the members is kept is open']
TIMEOUT = 600

WINDOW = (-2, -2, 8, 8)
VALUES = ('B', 'A', None)
EVERY = None


def every_shape():
    global EVERY
    if EVERY is None:
        cells = sorted(shapes.rect(0, 0, 3, 3))
        EVERY = [frozenset(c for i, c in enumerate(cells) if m >> i & 1)
                 for m in range(1, 2 ** 9)]
    return EVERY


def cases(tier):
    deep = tier == 'thorough'
    for first in range(9):
        yield dict(k='dissolve', w=2, h=2, n=3, first=first)
    for first in range(3):
        for second in range(3):
            yield dict(k='dissolve', w=2, h=1, n=5 if deep else 4,
                       first=first, second=second)
    if deep:
        for first in range(9):
            for second in range(9):
                yield dict(k='dissolve', w=2, h=2, n=4, first=first,
                           second=second)
    for i in range(9):
        yield dict(k='many', part=i)
    for x in itertools.combinations(range(-1, 5), 2):
        yield dict(k='crop', x=list(x), files=deep)
    for i in range(8):
        yield dict(k='masks', part=i)
    yield dict(k='slanted')
    for first in range(6):
        yield dict(k='sequences', first=first, depth=4 if deep else 3)
    yield dict(k='reading')


def setup(env):
    import utilities.shapefiles  # noqa: F401


def run(env, case):
    {'dissolve': dissolve, 'many': many, 'crop': crop, 'masks': masks,
     'slanted': slanted, 'sequences': sequences, 'reading': reading}[
         case['k']](env, case)


geoms = {}


def geometry(cells):
    if cells not in geoms:
        geoms[cells] = shapes.geometry(cells)
    return geoms[cells]


def layer(cells, values=None):
    from utilities.shapefiles import shp_file
    s = shp_file()
    s.geom = [geometry(c) for c in cells]
    s.attribute = [{'id': i, 'v': (values or 'x' * len(cells))[i]}
                   for i in range(len(cells))]
    return s


def dissolved(cells, values):
    """{value: (cells, members)}"""
    out = {}
    for i, (c, v) in enumerate(zip(cells, values)):
        got = out.setdefault(v, [frozenset(), []])
        got[0] |= c
        got[1].append(i)
    return out


def judge_dissolved(s, cells, values, case):
    want = dissolved(cells, values)
    got = [dict(a)['v'] for a in s.attribute]
    what = 'dissolving %s by %s' % ([sorted(c) for c in cells], list(values))
    if len(s.geom) != len(got) or sorted(got, key=str) != \
            sorted(want, key=str):
        raise Violation('%s: %d shapes with values %s'
                        % (what, len(s.geom), got), case=case)
    for g, a in zip(s.geom, s.attribute):
        c, members = want[a['v']]
        shapes.check(g, c, WINDOW, '%s: value %s' % (what, a['v']), case)
        if a['id'] not in members or set(a) != {'id', 'v'}:
            raise Violation('%s: attributes %s' % (what, dict(a)), case=case)
        if not g.is_valid:
            raise Violation('%s: the shape is not valid' % what, case=case)


def dissolve(env, case):
    r = shapes.rects(case['w'], case['h'])
    n = case['n']
    head = [r[case[k]] for k in ('first', 'second') if k in case]
    for rest in itertools.product(r, repeat=n - len(head)):
        full = head + list(rest)
        for m in range(n if case['first'] == 0 and rest == (r[0],) * len(rest)
                       else n - 1, n):
            cells = full[:m + 1]
            for values in itertools.product(VALUES, repeat=len(cells)):
                s = layer(cells, values)
                s.dissolve('v')
                judge_dissolved(s, cells, values, case)
                env.count(key=[[sorted(c) for c in cells], values],
                          states=1, transitions=1, traces=1,
                          nontrivial=len(set(values)) < len(values))
    env.sample(case)


def many(env, case):
    """Irregular shapes, many members, other values."""
    every = every_shape()
    names = ['Major CBD', 'City', 'Urban', '', 'a', 'Z', u'\xe9', None,
             'Large Town', '0', 'none', 'Large City', 'Large', 'Small Town',
             'Small City', 'a ', 'A']
    for n in (0, 1, 2, 5, 17, 60):
        for step in (1, 3, 7, 11):
            for k in (1, 2, 5, 11, 17):
                cells = [every[(case['part'] * 57 + i * step * 31) % 511]
                         for i in range(n)]
                values = [names[(i * step + case['part']) % k]
                          for i in range(n)]
                if '' in values and None in values:
                    # both are missing values in a shapefile
                    values = [v or None for v in values]
                s = layer(cells, values)
                s.dissolve('v')
                judge_dissolved(s, cells, values, case)
                env.count(key=[case['part'], n, step, k])
    env.sample(case)


def judge_cropped(s, cells, frame, case, ids=None):
    """frame: the cells of the box"""
    want = [(i, c & frame) for i, c in enumerate(cells) if c & frame]
    got = [dict(a)['id'] for a in s.attribute]
    if got != [i for i, _ in want] or len(s.geom) != len(got):
        missing = set(got) ^ {i for i, _ in want}
        raise Violation('cropping to %s: shapes %s are lost, kept or out of '
                        'order' % (extent(frame), [
                            (i, sorted(cells[i])) for i in missing] or got),
                        case=case)
    for g, a, (i, c) in zip(s.geom, s.attribute, want):
        shapes.check(g, c, WINDOW, 'cropping %s to %s'
                     % (sorted(cells[i]), extent(frame)), case)
        if g.geom_type not in ('Polygon', 'MultiPolygon'):
            raise Violation('cropping gives a %s' % g.geom_type, case=case)
    return want


def extent(frame):
    return (min(x for x, _ in frame), min(y for _, y in frame),
            max(x for x, _ in frame) + 1, max(y for _, y in frame) + 1)


def crop(env, case):
    """All shapes of the lattice with all boxes."""
    every = every_shape()
    x0, x1 = case['x']
    for y0, y1 in itertools.combinations(range(-1, 5), 2):
        frame = shapes.rect(x0, y0, x1, y1)
        one = dict(case, y=[y0, y1])
        if case.get('y', [y0, y1]) != [y0, y1]:
            continue
        s = layer(every)
        mask = box(x0, y0, x1, y1)
        s.crop(mask)
        want = judge_cropped(s, every, frame, one)
        env.count(key=[x0, x1, y0, y1], evaluations=len(every), states=1,
                  transitions=1, traces=1)
        if case['files'] or (x0 + y0) % 3 == 0:
            saved(env, s, want, one)
    env.sample(case)


SCHEMA = {'id': 'int:9', 'v': 'str:20'}


def saved(env, s, want, case):
    """Saving and reading gives the same layer."""
    from utilities.shapefiles import shp_file
    path = os.path.join(env.tmp(), 'saved.shp')
    s.meta = dict(driver='ESRI Shapefile', crs='EPSG:4326',
                  schema={'geometry': 'Polygon', 'properties': SCHEMA})
    s.save(path)
    for how in ('real', 'ours'):
        if how == 'real':
            t = shp_file()
            t.read(path)
            got = list(zip(t.geom, [dict(a) for a in t.attribute]))
        else:
            got = shapes.read_layer(path)[0]
        if [a for _, a in got] != [
                {'id': i, 'v': dict(s.attribute[n])['v']}
                for n, (i, _) in enumerate(want)]:
            raise Violation('saved layer read back: attributes %s'
                            % [a for _, a in got][:5], case=case)
        for (g, _), (i, c) in zip(got, want):
            shapes.check(g, c, WINDOW, 'shape %d saved and read' % i, case)
    env.count(evaluations=len(want))


def masks(env, case):
    """Masks of other shapes: their bounding box counts."""
    every = every_shape()[::3]
    cells = [frozenset((x + 1, y + 1) for x, y in c) for c in every]
    for n, m in enumerate(every_shape()):
        if n % 8 != case['part'] or n % 5:
            continue
        x0, y0, x1, y1 = extent(m)
        for kind in ('cells', 'triangle', 'diamond'):
            mask = geometry(m) if kind == 'cells' else \
                Polygon([(x0, y0), (x1, y0), (x0, y1)]) \
                if kind == 'triangle' else \
                Polygon([((x0 + x1) / 2., y0), (x1, (y0 + y1) / 2.),
                         ((x0 + x1) / 2., y1), (x0, (y0 + y1) / 2.)])
            s = layer(cells)
            s.crop(mask)
            judge_cropped(s, cells, shapes.rect(x0, y0, x1, y1),
                          dict(case, mask=sorted(m), kind=kind))
            env.count(key=[n, kind], evaluations=len(cells))
    env.sample(case)


def slanted(env, case):
    """Shapes that are not made of cells: areas by clipping corners."""
    corners = list(itertools.product(range(-1, 4), repeat=2))[::2]
    triangles = [t for t in itertools.combinations(corners, 3)
                 if abs(shapes.signed(list(t))) > .4]
    for x0, x1 in itertools.combinations(range(0, 4), 2):
        for y0, y1 in itertools.combinations(range(0, 4), 2):
            from utilities.shapefiles import shp_file
            s = shp_file()
            s.geom = [Polygon(t) for t in triangles]
            s.attribute = [{'id': i, 'v': 'x'} for i in range(len(s.geom))]
            s.crop(box(x0, y0, x1, y1))
            kept = {a['id']: g for a, g in zip(s.attribute, s.geom)}
            if [a['id'] for a in s.attribute] != sorted(kept):
                raise Violation('order of cropped triangles', case=case)
            for i, t in enumerate(triangles):
                area = clipped(list(t), x0, y0, x1, y1)
                got = sum(abs(shapes.signed(r)) for r in
                          shapes.rings_of(kept[i])) if i in kept else 0.
                if abs(area - got) > 1e-9 or i in kept and not area:
                    raise Violation(
                        'triangle %s cropped to %s: area %s, not %s'
                        % (t, (x0, y0, x1, y1), got, area), case=case)
                if i in kept:
                    b = kept[i].bounds
                    if b[0] < x0 - 1e-9 or b[1] < y0 - 1e-9 or \
                            b[2] > x1 + 1e-9 or b[3] > y1 + 1e-9:
                        raise Violation('triangle %s cropped to %s reaches '
                                        '%s' % (t, (x0, y0, x1, y1), b),
                                        case=case)
            env.count(key=[x0, x1, y0, y1], evaluations=len(triangles))
    env.sample(case)


def clipped(ring, x0, y0, x1, y1):
    """Area of a convex ring within a box."""
    for axis, limit, sign in ((0, x0, 1), (0, x1, -1), (1, y0, 1),
                              (1, y1, -1)):
        out = []
        for a, b in zip(ring, ring[1:] + ring[:1]):
            da, db = sign * (a[axis] - limit), sign * (b[axis] - limit)
            if da >= 0:
                out.append(a)
            if da * db < 0:
                f = da / float(da - db)
                out.append((a[0] + f * (b[0] - a[0]),
                            a[1] + f * (b[1] - a[1])))
        ring = out
        if not ring:
            return 0.
    area = abs(shapes.signed(ring))
    return area if area > 1e-12 else 0.


# --------------------------------------------------- sequences of operations

OPS = ('dissolve', 'crop small', 'crop wide', 'crop off', 'save', 'join')


def sequences(env, case):
    from utilities.shapefiles import shp_file
    every = every_shape()
    cells = [every[i] for i in (3, 510, 200, 75, 8, 341)]
    values = ['A', 'B', None, 'A', 'B', 'C']
    frames = {'crop small': shapes.rect(1, 0, 3, 2),
              'crop wide': shapes.rect(-1, -1, 4, 4),
              'crop off': shapes.rect(0, 2, 1, 3)}
    town = shapes.rect(0, 0, 3, 3)
    base = env.tmp()
    start = os.path.join(base, 'start.shp')
    shapes.write_layer(start, SCHEMA, [
        (geometry(c), {'id': i, 'v': v})
        for i, (c, v) in enumerate(zip(cells, values))])
    before = shapes.contents(start)
    for n in range(1, case['depth'] + 1):
        for ops in itertools.product(OPS, repeat=n):
            if ops[0] != OPS[case['first']]:
                continue
            s = shp_file()
            s.read(start)
            # the model: groups of members with their cells
            model = [([i], v, c)
                     for i, (c, v) in enumerate(zip(cells, values))]
            for op in ops:
                if op == 'dissolve':
                    s.dissolve('v')
                    groups = {}
                    for ids, v, c in model:
                        g = groups.setdefault(v, ([], v, frozenset()))
                        groups[v] = (g[0] + ids, v, g[2] | c)
                    model = [groups[v] for v in sorted(
                        groups, key=lambda v: v or 'None')]
                elif op.startswith('crop'):
                    f = frames[op]
                    s.crop(geometry(f))
                    model = [(ids, v, c & f) for ids, v, c in model if c & f]
                elif op == 'join':
                    t = layer([town], ['T'])
                    t.attribute[0]['v'] = 'T'
                    s.spatial_join(t, 'v')
                    model = [(ids, 'T' if c & town else None, c)
                             for ids, v, c in model]
                else:
                    path = os.path.join(base, 'next.shp')
                    s.save(path)
                    s = shp_file()
                    s.read(path)
                judge_model(s, model, ops, case)
            env.count(key=ops, states=n, transitions=n, traces=1)
    if shapes.contents(start) != before:
        raise Violation('the file read first is changed', case=case)
    env.sample(case)


def judge_model(s, model, ops, case):
    what = 'after %s' % (ops,)
    if len(s.geom) != len(model) or len(s.attribute) != len(model):
        raise Violation('%s: %d shapes, %d attributes, expected %d'
                        % (what, len(s.geom), len(s.attribute), len(model)),
                        case=case)
    # dissolving leaves the order of the groups open
    left = list(range(len(model)))
    for g, a in zip(s.geom, s.attribute):
        for j in left:
            ids, v, c = model[j]
            if a['v'] == v and a['id'] in ids and \
                    shapes.cells_of(g, WINDOW) == (c, True):
                left.remove(j)
                break
        else:
            raise Violation('%s: there is %s %s, expected %s'
                            % (what, dict(a), g.wkt[:150],
                               [(m[0], m[1], sorted(m[2])) for m in model]),
                            case=case)
    if 'dissolve' not in ops and [a['id'] for a in s.attribute] != \
            [m[0][0] for m in model]:
        raise Violation('%s: order %s' % (what, [
            a['id'] for a in s.attribute]), case=case)


def reading(env, case):
    """Shapes without geometry are left out, all others kept."""
    from utilities.shapefiles import shp_file
    cells = [shapes.rect(i, 0, i + 1, 2) for i in range(4)]
    for gone in itertools.product((0, 1), repeat=4):
        base = env.tmp()
        path = os.path.join(base, 'r.shp')
        shapes.write_layer(path, SCHEMA, [
            (None if g else geometry(c), {'id': i, 'v': 'v%d' % i})
            for i, (c, g) in enumerate(zip(cells, gone))])
        s = shp_file()
        s.read(path)
        kept = [i for i in range(4) if not gone[i]]
        if [dict(a) for a in s.attribute] != [
                {'id': i, 'v': 'v%d' % i} for i in kept]:
            raise Violation('without geometry %s: attributes %s'
                            % (gone, [dict(a) for a in s.attribute]),
                            case=case)
        for g, i in zip(s.geom, kept):
            shapes.check(g, cells[i], WINDOW, 'shape %d' % i, case)
        s.save(os.path.join(base, 'again.shp'))
        got = shapes.read_layer(os.path.join(base, 'again.shp'))
        first = shapes.read_layer(path)
        if [a for _, a in got[0]] != [{'id': i, 'v': 'v%d' % i}
                                      for i in kept] or \
                got[1:] != first[1:]:
            raise Violation('saved again: %s %s' % (got[1:], first[1:]),
                            case=case)
        env.count(key=gone, states=1, transitions=2, traces=1)
    # outlines that cross themselves, as digitised ones do, are read as well
    bow = Polygon([(0, 0), (2, 2), (2, 0), (0, 2)])
    for which in itertools.product((0, 1), repeat=4):
        path = os.path.join(env.tmp(), 'b.shp')
        shapes.write_layer(path, SCHEMA, [
            (bow if b else geometry(c), {'id': i, 'v': 'v%d' % i})
            for i, (c, b) in enumerate(zip(cells, which))])
        s = shp_file()
        s.read(path)
        if [dict(a) for a in s.attribute] != [
                {'id': i, 'v': 'v%d' % i} for i in range(4)] or \
                len(s.geom) != 4:
            raise Violation('crossing outlines %s: attributes %s'
                            % (which, [dict(a) for a in s.attribute]),
                            case=case)
        env.count(key=['crossing', which], states=1, transitions=1, traces=1)
    env.sample(case)
