PROPERTY = 'T02'
NEEDS = 'cells of about 80 to 140 m, where the rounded and the cut number of lag cells differ'
BREAKS = 'the lag on diagonals is rounded up'
EDITS = [('terrain/terrain_mult.py', 'lag_width = int(lag_dist / (gridwidth * 1.414))',
          'lag_width = int(np.around(lag_dist / (gridwidth * 1.414)))')]
# --- demo
import demo_lib as L
import os
import numpy as np
from terrain import terrain_mult
from utilities.get_pixel_size_grid import get_pixel_size_grids
from osgeo import gdal

os.mkdir('terrain')
L.write_table('table.csv')
L.write_config('c.cfg')
from utilities.config import configparser
configparser.set_config_file('c.cfg')
lc = np.array([[(7 * r + 3 * c * c) % 6 + 1 for c in range(12)]
               for r in range(12)], 'int32')
mz = [0] + [-.2827 * np.log(.4554 * np.log(z) + 3.734) + 1.0762
            for _, z, _ in L.TABLE]
m0 = np.array(mz)[lc]
for pix in (.0004, .0006, .0008, .00085, .001, .0013, .002):
    gt = (150., pix, 0, 6 * pix, 0, -pix)
    L.raster('t.img', lc, gt, driver='HFA')
    terrain_mult.terrain('t.img', (gt[0], gt[3], gt[0] + 12 * pix,
                                   gt[3] - 12 * pix))
    x, y = get_pixel_size_grids(gdal.Open('t.img'))
    g = .5 * (x.mean() + y.mean()) * 1.414
    avg, lag = int(500 / g), int(200 / g)
    want = m0.copy()
    for r in range(12):
        for c in range(12):
            v = [m0[r - k, c + k] for k in range(lag + 1, lag + avg + 1)
                 if r - k >= 0 and c + k < 12]
            if v:
                want[r, c] = np.mean(v)
    L.near(L.read_nc('terrain/t_mz_ne.nc')[0], want, 'cells of %g' % pix)
