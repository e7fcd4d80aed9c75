PROPERTY = 'W04'
NEEDS = 'more tiles than workers on several processes'
BREAKS = 'the last tile is never computed'
EDITS = [('all_multipliers.py', '''                log.debug("Returned from {0}".format(d))

                if w < len(tiles):''', '''                log.debug("Returned from {0}".format(d))

                if w + 1 < len(tiles):''')]
# --- demo
import demo_lib as L
import all_multipliers as am

for size in (1, 2, 3, 4):
    for n in (0, 1, 2, 3, 5):
        w = L.World(size)
        am.MPI, am.comm = w.MPI, w.MPI.COMM_WORLD
        done = []

        class M(am.Multipliers):
            def open_dem(self):
                self.dem_ds = 1

            def cut_dem(self, tile):
                return 'dem' + tile[0]

            def multipliers_calculate(self, dem, tile):
                done.append((dem, tile[0]))
        tiles = [['t%d' % i, (), ()] for i in range(n)]
        res = w.run(lambda: M('a', 'b').parallelise_on_tiles(tiles), 10)
        L.check(res is not None and not any(res.values()),
                '%d processes, %d tiles: %s' % (size, n, res))
        L.check(sorted(done) == [('demt%d' % i, 't%d' % i)
                                 for i in range(n)], 'computed %s' % done)
