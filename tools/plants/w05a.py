PROPERTY = 'W05'
NEEDS = 'a number of tiles that the number of processes does not divide'
BREAKS = 'the last tiles are not converted'
EDITS = [('utilities/mpi_runner.py',
          'tiles = [tiles[i::comm.size] for i in range(comm.size)]',
          '''share = max(1, len(tiles) // comm.size)
        tiles = [tiles[i * share:(i + 1) * share]
                 for i in range(comm.size)]''')]
# --- demo
import demo_lib as L
import os
import numpy as np

dem = np.arange(36.).reshape(6, 6).astype('float32') + 1
cfg = L.case('a', dem, np.ones((6, 6), 'uint8'),
             (150., .25, 0, -20., 0, -.25))
out = L.good_run(cfg)
ts = L.tiles(out)
L.check(len(ts) == 4, 'tiles %s' % ts)
from utilities import mpi_runner
for size in (1, 2, 3, 4, 5):
    for sub in ('M3', 'M3_max'):
        for f in os.listdir(out + '/' + sub):
            os.remove('%s/%s/%s' % (out, sub, f))
    w = L.World(size)
    res = w.run(lambda: mpi_runner.parallelise_convert_on_tiles(
        out, w.MPI.COMM_WORLD))
    L.check(res is not None and not any(res.values()), '%s' % res)
    for sub in ('M3', 'M3_max'):
        got = sorted(f for f in os.listdir(out + '/' + sub)
                     if f.endswith('.tif'))
        L.check(got == [t + '.tif' for t in ts], '%d processes: %s/%s'
                % (size, sub, got))
        vrt = L.read_raster(out + '/%s/wind-multipliers.vrt' % sub)[0]
        L.check(vrt.shape[1:] == (6, 6), 'mosaic is %s' % (vrt.shape,))
