PROPERTY = 'W12'
NEEDS = 'cells of a size for which the diagonal widths differ from the straight ones'
BREAKS = 'wind from the south averages over the distances of a diagonal direction'
EDITS = [('terrain/terrain_mult.py', "        if one_dir in ['w', 'e', 'n', 's']:\n",
          "        if one_dir in ['w', 'e', 'n', 'sw']:\n")]
# --- demo
import demo_lib as L
import os
import numpy as np
from terrain import terrain_mult

lc = np.ones((25, 25), 'int32')
lc[::2, ::3] = 5
lc[::3, ::2] = 4
lc = np.maximum(lc, np.maximum(lc[::-1], np.maximum(lc[:, ::-1],
                                                    lc[::-1, ::-1])))
gt = (150., .0005, 0, .00625, 0, -.0005)
os.mkdir('terrain')
L.raster('t.img', lc, gt, driver='HFA')
L.write_table('table.csv')
L.write_config('c.cfg')
from utilities.config import configparser
configparser.set_config_file('c.cfg')
terrain_mult.terrain('t.img', (gt[0], gt[3], gt[0] + 25 * .0005,
                               gt[3] - 25 * .0005))
got = {d: L.read_nc('terrain/t_mz_%s.nc' % d)[0] for d in L.DIRS}
L.near(got['s'], got['n'][::-1], 'mirrored')
L.near(got['w'], got['e'][:, ::-1], 'mirrored')
L.near(got['sw'], got['ne'][::-1, ::-1], 'turned')
L.near(got['sw'], got['se'][:, ::-1], 'mirrored')
