"""W04: every tile is computed exactly once, whatever the schedule."""
import os
import shutil
import threading

from vp import mpi, util
from vp.core import Violation

ID = 'W04'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of all schedules of the real master '
             'and workers over a controlled MPI: all matchings of messages, '
             'all orders in which workers finish, every send buffered or not')
NOTE = ('The ranks run the code of parallelise_on_tiles itself; the states '
        'are the histories of all ranks, so no model has to be validated: '
        'every transition is an execution of the implementation. Every send '
        'may complete at once or only when it is received; a state in which '
        'processes wait for each other without buffering is a deadlock. '
        'Bounds: 2 processes and up to 9 (20) tiles, 3 and 7 (12), 4 and 5 (8), '
        '5 and 5 (7), 6 and 3 (7), 7 and 2 (6), 8 and 1 (5).')
RULE = ('numbers of processes x numbers of tiles; all message matchings and '
        'bufferings of each. Non-trivial: at least one worker and one tile.')
ASSUMPTIONS = ['MPI delivers messages between two processes in order',
               'cutting and computing a tile return (errors in a worker are '
               'not covered)']
TIMEOUT = 600


def cases(tier):
    deep = tier == 'thorough'
    bound = {1: 6, 2: 9, 3: 7, 4: 5, 5: 5, 6: 3, 7: 2, 8: 1} \
        if not deep else \
        {1: 12, 2: 20, 3: 12, 4: 8, 5: 7, 6: 7, 7: 6, 8: 5, 9: 4}
    cs = [dict(p=p, t=t) for p in bound for t in range(bound[p] + 1)]
    for c in sorted(cs, key=lambda c: -c['p'] ** c['t']):
        yield c
    # many tiles, many processes
    for p, t in ((1, 300), (2, 130), (9, 1), (12, 1), (17, 0)):
        yield dict(p=p, t=t)
    for p, t in ((1, 3), (2, 3), (3, 3)):
        yield dict(p=p, t=t, twice=True)
    # tiles that are really cut
    for p, down, along in ((1, 2, 2), (2, 1, 1), (2, 2, 2), (3, 2, 1),
                           (3, 1, 3), (4, 1, 3)) + \
            (((2, 3, 3), (3, 2, 2), (4, 2, 2), (5, 1, 3)) if deep else ()):
        yield dict(p=p, t=down * along, real=[down, along])


def make_tiles(n):
    return [['e%d.0s%d.0' % (i, i % 3), (i, 0., i + 1., -1.),
             (i, 0., i + 1., -1.)] for i in range(n)]


def setup(env):
    import all_multipliers as am
    from utilities import parallel
    module = mpi.make_module(mpi.ThreadRanks.me)
    am.MPI = module
    am.comm = module.COMM_WORLD
    parallel.MPI = module


def run(env, case):
    import all_multipliers as am
    p, t = case['p'], case['t']
    for name in ('cut_dem', 'multipliers_calculate', 'open_dem'):
        if not hasattr(am.Multipliers, name):
            env.skip('Multipliers.' + name)
            return
    if case.get('real'):
        return real(env, case)
    lock = threading.Lock()

    def make():
        log = []

        class Recorded(am.Multipliers):
            def open_dem(self):
                self.dem_ds = 'open'

            def cut_dem(self, tile_info):
                rank = am.comm.rank
                with lock:
                    if self.dem_ds is None:
                        log.append((rank, 'cut before open', tile_info))
                    log.append((rank, 'cut', list(tile_info)))
                return 'dem of %s, %d' % (tile_info[0], len(log))

            def multipliers_calculate(self, temp_tile_dem, tile_info):
                with lock:
                    log.append((am.comm.rank, 'compute', temp_tile_dem,
                                list(tile_info)))

        def body(rank):
            m = Recorded('lc.tif', 'dem.tif')
            calls = []
            kw = {}
            if case.get('twice'):
                kw = dict(progress_callback=calls.append)
            r = m.parallelise_on_tiles(make_tiles(t), **kw)
            am.comm.barrier()
            return r

        return mpi.ThreadRanks(p, body), log

    def judge(w, log):
        for r, e in enumerate(w.end):
            if e[0] != 'done':
                raise Violation('process %d of %d with %d tiles ends with %r'
                                % (r, p, t, e[1]), case=case)
        want = [x[0] for x in make_tiles(t)]
        cuts = [x for x in log if x[1] == 'cut']
        comp = [x for x in log if x[1] == 'compute']
        if [x for x in log if x[1] == 'cut before open']:
            raise Violation('tile cut before the elevation raster is open',
                            case=case)
        if sorted(x[2][0] for x in cuts) != sorted(want):
            raise Violation('%d tiles cut, %s' % (t, [x[2][0] for x in cuts]),
                            case=case)
        if sorted(x[3][0] for x in comp) != sorted(want):
            raise Violation('%d processes: tiles computed: %s of %s'
                            % (p, [x[3][0] for x in comp], want), case=case)
        for rank, _, dem, tile in comp:
            if not dem.startswith('dem of %s,' % tile[0]):
                raise Violation('tile %s computed from %s' % (tile[0], dem),
                                case=case)
            if list(map(tuple, tile[1:])) != \
                    list(map(tuple, [x for x in make_tiles(t)
                                     if x[0] == tile[0]][0][1:])):
                raise Violation('extents of tile %s: %s' % (tile[0], tile),
                                case=case)
        # elevation data are there when they are used
        for x in comp:
            i = log.index(x)
            if not [c for c in log[:i] if c[1] == 'cut' and
                    c[2][0] == x[3][0]]:
                raise Violation('tile %s computed before it is cut'
                                % x[3][0], case=case)

    try:
        s, tr, runs = mpi.explore(make, judge, 'mixed')
    except mpi.Deadlock as e:
        raise Violation('%d processes, %d tiles: waiting for each other '
                        'forever: %s' % (p, t, e), case=case)
    except mpi.Mismatch as e:
        raise Violation('%d processes, %d tiles: %s' % (p, t, e), case=case)
    env.count(key=case, evaluations=runs, states=s, transitions=tr,
              traces=runs, nontrivial=p > 1 and t > 0)
    env.sample(dict(case, states=s, executions=runs))


def real(env, case):
    """Each tile is computed with the elevations of its own extent."""
    import all_multipliers as am
    p = case['p']
    down, along = case['real']
    folder = env.tmp()
    dem = util.generic(4 * down, 4 * along, 3, 10., 900.).astype('float32')
    # neighbours on the 100th meridian, and tiles whose names begin alike
    path = util.write_raster(os.path.join(folder, 'dem.tif'), dem,
                             (99., .25, 0., -19., 0., -.25))
    am.output_folder = os.path.join(folder, 'out')
    tiles = am.get_tiles(am.TileGrid(.3, path))
    # the buffered parts, from the extents
    want = {}
    for name, outer, inner in tiles:
        x0, y0, x1, y1 = [int(round(v)) for v in (
            (outer[0] - 99.) / .25, (-19. - outer[1]) / .25,
            (outer[2] - 99.) / .25, (-19. - outer[3]) / .25)]
        want[name] = dem[y0:y1, x0:x1]
    if len(want) != case['t']:
        raise Violation('tiles %s' % sorted(want), case=case)
    kinds = []

    def make():
        log = []
        if os.path.isdir(am.output_folder):
            shutil.rmtree(am.output_folder)
        os.mkdir(am.output_folder)

        class Recorded(am.Multipliers):
            def multipliers_calculate(self, temp_tile_dem, tile_info):
                if isinstance(temp_tile_dem, str):
                    data = None
                    if os.path.exists(temp_tile_dem):
                        data = util.Raster(temp_tile_dem).bands[0]
                        os.remove(temp_tile_dem)
                    log.append((tile_info[0], data))
                else:
                    kinds.append(type(temp_tile_dem))

        def body(rank):
            m = Recorded('lc.tif', path)
            m.parallelise_on_tiles([list(t) for t in tiles])
            am.comm.barrier()

        return mpi.ThreadRanks(p, body), log

    def judge(w, log):
        for r, e in enumerate(w.end):
            if e[0] != 'done':
                raise Violation('process %d of %d ends with %r'
                                % (r, p, e[1]), case=case)
        if kinds:
            return
        if sorted(x[0] for x in log) != sorted(want):
            raise Violation('tiles computed: %s of %s' % (
                [x[0] for x in log], sorted(want)), case=case)
        for name, data in log:
            if data is None:
                raise Violation('tile %s has no elevation data when it is '
                                'computed' % name, case=case)
            util.same(data, want[name], 1e-4, 'elevations of tile %s when '
                      'it is computed, %d processes' % (name, p), case)

    try:
        s, tr, runs = mpi.explore(make, judge, 'mixed')
    except mpi.Deadlock as e:
        raise Violation('%d processes, %d tiles: waiting for each other '
                        'forever: %s' % (p, case['t'], e), case=case)
    except mpi.Mismatch as e:
        raise Violation('%d processes: %s' % (p, e), case=case)
    if kinds:
        env.skip('tiles are not handed on as files')
    env.count(key=case, evaluations=runs, states=s, transitions=tr,
              traces=runs, nontrivial=p > 1 and case['t'] > 1)
    env.sample(dict(case, states=s, executions=runs))
