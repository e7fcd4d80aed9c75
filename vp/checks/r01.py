"""R01: each land-use area gets the settlement it overlaps most."""
import concurrent.futures
import itertools
import os

from vp import core, sched, shapes
from vp.core import Violation

ID = 'R01'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of all placements of shapes on a lattice '
             'against sets of cells, and exploration of all orders and '
             'interleavings in which the areas are processed under a '
             'controlled executor')
NOTE = ('Shapes are sets of lattice cells, so shared areas are counts of '
        'cells. The executor is replaced by one that runs the real function '
        'in every order, and in every interleaving of lines up to 1 (2) '
        'preemptions; other cases run the real pool.')
RULE = ('ordered layers of shapes; orders and interleavings of the areas; '
        'distinct are the settlement layers with their positions and scale.')
ASSUMPTIONS = ['an area that shares only an edge or corner with settlements '
               'may get one of them or none',
               'among settlements of equal share any may be given']
TIMEOUT = 800

SCALES = [((1., 1.), (0., 0.)), ((.001, .0013), (149.1, -35.3)),
          ((30., 25.), (680000., 6090000.))]


def cases(tier):
    deep = tier == 'thorough'
    n = len(shapes.rects(3, 3))
    for first in range(n):
        yield dict(k='pairs', first=first, scale=first % 3)
    for first in range(9):
        yield dict(k='triples', w=2, first=first, scale=first % 3)
    if deep:
        for first in range(n):
            yield dict(k='triples', w=3, first=first, scale=(first + 1) % 3)
    for first in range(9):
        yield dict(k='shapes', first=first, deep=deep)
    for step in (1, -1, 2, 3, 5, 7, 11):
        yield dict(k='many', step=step)
    for i in range(4):
        yield dict(k='orders', part=i, size=5 if deep else 4)
    for kind in range(4):
        for n, bound in ((2, 2 if deep else 1), (3, 1)):
            for part in range((12 if n == 2 else 24) if deep else 3 if n == 2
                              else 1):
                yield dict(k='threads', kind=kind, n=n, bound=bound,
                           part=part)
    yield dict(k='close')
    yield dict(k='empty')


def setup(env):
    import utilities.shapefiles  # noqa: F401


def run(env, case):
    {'pairs': pairs, 'triples': triples, 'shapes': irregular,
     'many': many, 'orders': orders, 'threads': threads, 'empty': empty,
     'close': close}[
         case['k']](env, case)


class Touching(object):
    """Which sets of cells meet in an edge or corner."""

    def __init__(self):
        self.known = {}

    def near(self, cells):
        if cells not in self.known:
            self.known[cells] = frozenset(
                (x + dx, y + dy) for x, y in cells
                for dx in (-1, 0, 1) for dy in (-1, 0, 1))
        return self.known[cells]

    def allowed(self, area, others):
        """Positions of the settlements it may get; None for none."""
        share = [len(area & s) for s in others]
        best = max(share) if share else 0
        if best:
            return [i for i, n in enumerate(share) if n == best]
        return [None] + [i for i, s in enumerate(others)
                         if self.near(area) & s]


touching = Touching()
geoms = {}


def geometry(cells, scale):
    k = (cells, scale)
    if k not in geoms:
        geoms[k] = shapes.geometry(cells, *SCALES[scale])
    return geoms[k]


def join(areas, others, scale, values=None, case=None, extra=True):
    from utilities.shapefiles import shp_file
    a, b = shp_file(), shp_file()
    a.geom = [geometry(c, scale) for c in areas]
    b.geom = [geometry(c, scale) for c in others]
    # the same shape may be there twice, as different objects
    for i, g in enumerate(b.geom):
        if any(g is h for h in b.geom[:i]):
            b.geom[i] = type(g)(g) if g.geom_type == 'MultiPolygon' else \
                g.__class__(g.exterior, g.interiors)
    values = values or ['S%d' % i for i in range(len(others))]
    a.attribute = [{'id': i, 'use': 'u%d' % i} for i in range(len(areas))]
    b.attribute = [{'id': -i, 'kind': v} for i, v in enumerate(values)]
    ga, gb = list(a.geom), list(b.geom)
    a.spatial_join(b, 'kind')
    if len(a.geom) != len(ga) or any(x is not y and not x.equals(y)
                                     for x, y in zip(a.geom, ga)):
        raise Violation('joining changes the areas', case=case)
    if len(b.geom) != len(gb) or b.attribute != [
            {'id': -i, 'kind': v} for i, v in enumerate(values)]:
        raise Violation('joining changes the settlements', case=case)
    judge(a.attribute, areas, others, values, case)
    return a.attribute


def judge(attributes, areas, others, values, case):
    if len(attributes) != len(areas):
        raise Violation('%d areas, attributes of %d'
                        % (len(areas), len(attributes)), case=case)
    for i, (got, area) in enumerate(zip(attributes, areas)):
        allowed = touching.allowed(area, others)
        want = [None if j is None else values[j] for j in allowed]
        got = dict(got)
        if set(got) != {'id', 'use', 'kind'} or got['id'] != i or \
                got['use'] != 'u%d' % i:
            raise Violation('area %d of %d has attributes %s'
                            % (i, len(areas), got), case=case)
        if got['kind'] not in want:
            raise Violation(
                'area %s (number %d of %d) with settlements %s gets %s, '
                'expected %s' % (sorted(area), i, len(areas), [
                    sorted(s) for s in others], got['kind'],
                    ' or '.join('%s' % w for w in want)), case=case)


def layers(case, combos, areas, env):
    for others in combos:
        one = dict(case, layer=[sorted(s) for s in others])
        if 'layer' in case and case['layer'] != one['layer'] and \
                [[tuple(c) for c in s] for s in case['layer']] != \
                one['layer']:
            continue
        join(areas, others, case['scale'], case=one)
        env.count(key=[case['scale'], one['layer']], evaluations=len(areas),
                  states=1, transitions=len(areas), traces=1,
                  nontrivial=len(others) > 1)
    env.sample(case)


def pairs(env, case):
    r = shapes.rects(3, 3)
    first = r[case['first']]
    layers(case, [(first,)] + [(first, s) for s in r], r, env)


def triples(env, case):
    r = shapes.rects(case['w'], case['w'])
    layers(case, [(r[case['first']], s, t) for s in r for t in r], r, env)


def many(env, case):
    """Layers of many settlements and areas."""
    r = shapes.rects(3, 3)
    wide = shapes.rects(7, 5)
    for scale in range(3):
        for others, areas in ((r[::case['step']], r + r),
                              (wide[::case['step']], wide[::3]),
                              (wide[1::case['step']], r * 20),
                              (r[:12:case['step']], r[:11])):
            join(areas, others, scale, case=case)
            env.count(key=[case, scale, len(others), len(areas)],
                      evaluations=len(areas), states=1,
                      transitions=len(areas), traces=1)
    env.sample(case)


def irregular(env, case):
    """All shapes of cells, also of several parts and with holes."""
    cells = sorted(shapes.rect(0, 0, 3, 3))
    every = [frozenset(c for i, c in enumerate(cells) if m >> i & 1)
             for m in range(1, 2 ** 9)]
    mine = [s for i, s in enumerate(every) if i % 9 == case['first']]
    full = shapes.rect(0, 0, 3, 3)
    ring = full - {(1, 1)}
    partner = [[full - s] if s != full else [] for s in mine]
    areas = every[::1 if case['deep'] else 31] + [ring]
    for s, p in zip(mine, partner):
        for others in ([s], [s] + p, p + [s], [s, ring], [ring, s]):
            join(areas, others, 0, case=case)
            env.count(key=[sorted(x) for x in others],
                      evaluations=len(areas), states=1,
                      transitions=len(areas), traces=1)
    env.sample(case)


def close(env, case):
    """Shares that differ by little, and small ones, in areas of any size."""
    from shapely.geometry import box
    from utilities.shapefiles import shp_file
    for size in (1e-4, .01, 1., 700., 3e5):
        for part in (.5, .01, 1e-4, 1e-6):
            for by in (1e-2, 1e-4, 1e-6, 1e-8):
                # slices of the area, the second one wider by a little
                n = int(min(round(1 / part), 5))
                wide = [part * (1 + by * (i == 1)) for i in range(n)]
                x, slices = 0., []
                for w in wide:
                    slices.append(box(x * size, -size, (x + w) * size,
                                      2 * size))
                    x += w
                for order in itertools.permutations(range(n)) if n < 4 \
                        else [range(n), range(n)[::-1], (1, 0, 2, 4, 3),
                              (3, 4, 0, 1, 2)]:
                    a, b = shp_file(), shp_file()
                    a.geom = [box(-9 * size, 0, -8 * size, size),
                              box(0, 0, max(1, x) * size, size)]
                    b.geom = [slices[i] for i in order]
                    a.attribute = [{'id': 0}, {'id': 1}]
                    b.attribute = [{'kind': 'S%d' % i} for i in order]
                    a.spatial_join(b, 'kind')
                    got = [t['kind'] for t in a.attribute]
                    if got != [None, 'S1']:
                        raise Violation(
                            'areas of %g x %g: %s; the second one shares %g '
                            'of itself with each settlement and %g times '
                            'more with S1, the first one nothing'
                            % (size, size, got, part, by), case=case)
                    env.count(key=[size, part, by, list(order)], states=1,
                              transitions=2, traces=1)
    env.sample(case)


# ------------------------------------------------------------ orders of work

class Executor(object):
    """Takes the place of the thread pool: runs the tasks as told."""
    runner = None

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def shutdown(self, *a, **k):
        pass

    def map(self, fn, *items, **kw):
        return iter(self.runner([lambda x=x: fn(*x) for x in zip(*items)]))

    def submit(self, fn, *a, **k):
        f = concurrent.futures.Future()
        try:
            f.set_result(fn(*a, **k))
        except BaseException as e:
            f.set_exception(e)
        return f


class Instead(object):
    """The executor in place of the real one, for a while."""

    def __init__(self, runner):
        self.runner = runner

    def __enter__(self):
        import utilities.shapefiles as m
        self.module = m
        mine = type('Executor', (Executor,),
                    {'runner': staticmethod(self.runner)})
        self.old = {}
        for where in (concurrent.futures, m):
            if hasattr(where, 'ThreadPoolExecutor'):
                self.old[where] = where.ThreadPoolExecutor
                where.ThreadPoolExecutor = mine
        return self

    def __exit__(self, *a):
        for where, real in self.old.items():
            where.ThreadPoolExecutor = real


LAYERS = [
    (('a', 'b'), [shapes.rect(0, 0, 2, 3), shapes.rect(2, 0, 3, 3)]),
    (('a', None, 'c'), [shapes.rect(0, 0, 1, 1), shapes.rect(0, 1, 3, 3),
                        shapes.rect(1, 0, 3, 1)]),
    (('a', 'b', 'c', 'd'), [shapes.rect(0, 0, 1, 2), shapes.rect(1, 0, 3, 1),
                            shapes.rect(1, 1, 3, 2), shapes.rect(2, 2, 3, 3)]),
    (('x', 'x', 'y'), [shapes.rect(0, 0, 1, 3), shapes.rect(1, 0, 2, 2),
                       shapes.rect(2, 0, 3, 1)]),
]
AREAS = [shapes.rect(0, 0, 3, 1), shapes.rect(1, 0, 3, 3),
         shapes.rect(0, 2, 1, 3), shapes.rect(4, 4, 5, 5),
         shapes.rect(0, 0, 2, 3)]


def orders(env, case):
    """All orders of both layers, all orders of doing the areas."""
    values, others = LAYERS[case['part']]
    for n in range(1, case['size'] + 1):
        for areas in itertools.permutations(AREAS, n):
            for p in itertools.permutations(range(len(others))) \
                    if n < 4 else [range(len(others))]:
                for do in itertools.permutations(range(n)) \
                        if n < 5 else [range(n), range(n)[::-1]]:
                    def runner(tasks):
                        out = [None] * len(tasks)
                        for i in do:
                            if i < len(tasks):
                                out[i] = tasks[i]()
                        for i in range(n, len(tasks)):
                            out[i] = tasks[i]()
                        return out
                    with Instead(runner):
                        join(list(areas), [others[i] for i in p], 0,
                             [values[i] for i in p], case)
                    env.count(key=[case['part'], [sorted(a) for a in areas],
                                   list(p), list(do)], states=1,
                              transitions=n, traces=1, evaluations=n)
                if case['part'] == 0 and n < 4:
                    join(list(areas), [others[i] for i in p], 0,
                         [values[i] for i in p], case)
    env.sample(case)


def threads(env, case):
    """All interleavings of the areas, up to a number of preemptions."""
    values, others = LAYERS[case['kind']]
    files = (os.path.join(core.REPO, 'utilities'),)
    every = list(itertools.permutations(AREAS[:3] + AREAS[4:], case['n']))
    for areas in [every[case['part']]]:
        total = [0, 0]

        def runner(tasks):
            first = []

            def judge_run(results, ctx, path):
                for i, r in enumerate(results):
                    if r[0] != 'returned':
                        raise Violation('areas at the same time, schedule '
                                        '%s: %r' % (path, r[1]), case=case)
                    if first and first[i] != r[1]:
                        raise Violation(
                            'area %s gets settlement %s or %s, depending on '
                            'the order in which threads run (%s)'
                            % (sorted(areas[i]) if i < len(areas) else i,
                               first[i], r[1], path), case=case)
                if not first:
                    first.extend(r[1] for r in results)

            try:
                runs, steps = sched.explore(lambda: (tasks, None), judge_run,
                                            files, case['bound'])
            except sched.Deadlock as e:
                raise Violation('areas at the same time: %s' % e, case=case)
            total[0] += runs
            total[1] += steps
            return first

        with Instead(runner):
            join(list(areas), others, 0, list(values), case)
        env.count(key=[case, [sorted(a) for a in areas]],
                  evaluations=max(total[0], 1), states=max(total[0], 1),
                  transitions=total[1], traces=max(total[0], 1))
    env.sample(dict(case))


def empty(env, case):
    for areas in ([], AREAS[:1], AREAS):
        for others in ([], [AREAS[1]], [AREAS[3]]):
            join(areas, others, 0, case=case)
            env.count(key=[len(areas), len(others)])
    env.sample(case)
