PROPERTY = 'T01'
NEEDS = 'a tile with some land cover that is not in the table'
BREAKS = 'such a tile gets no terrain multipliers at all'
EDITS = [('terrain/terrain_mult.py', '    if np.max(reclassified_array) == 0:\n',
          '    if np.min(reclassified_array) == 0:\n')]
# --- demo
import demo_lib as L
import os
import numpy as np
from terrain import terrain_mult

os.mkdir('terrain')
L.write_table('table.csv')
L.write_config('c.cfg')
from utilities.config import configparser
configparser.set_config_file('c.cfg')
for n, lc in enumerate(([[1, 2], [3, 4]], [[1, 2], [99, 4]],
                        [[99, 98], [0, 0]])):
    gt = (150., .01, 0, -20., 0, -.01)
    L.raster('t%d.img' % n, np.array(lc), gt, driver='HFA')
    terrain_mult.terrain('t%d.img' % n, (150., -20., 150.02, -20.02))
    got = os.path.exists('terrain/t%d_mz_n.nc' % n)
    L.check(got == (n < 2), 'land cover %s: %s' % (lc, got))
