PROPERTY = 'W04'
NEEDS = 'more workers than tiles'
BREAKS = 'the master waits for results of workers that never got a tile'
EDITS = [('all_multipliers.py', '''                    comm.send(None, dest=d, tag=work_tag)
                    p = w
''', '''                    comm.send(None, dest=d, tag=work_tag)
''')]
# --- demo
import demo_lib as L
import all_multipliers as am

for size in (1, 2, 3, 4):
    for n in (0, 1, 2, 3, 5):
        w = L.World(size)
        am.MPI, am.comm = w.MPI, w.MPI.COMM_WORLD
        done = []

        class M(am.Multipliers):
            def open_dem(self):
                self.dem_ds = 1

            def cut_dem(self, tile):
                return 'dem' + tile[0]

            def multipliers_calculate(self, dem, tile):
                done.append((dem, tile[0]))
        tiles = [['t%d' % i, (), ()] for i in range(n)]
        res = w.run(lambda: M('a', 'b').parallelise_on_tiles(tiles), 10)
        L.check(res is not None and not any(res.values()),
                '%d processes, %d tiles: %s' % (size, n, res))
        L.check(sorted(done) == [('demt%d' % i, 't%d' % i)
                                 for i in range(n)], 'computed %s' % done)
