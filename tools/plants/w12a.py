PROPERTY = 'W12'
NEEDS = 'hills along the south-westerly direction'
BREAKS = 'the spacing of the cells on lines from the south-west is that of the straight directions'
EDITS = [('topographic/topo_mult.py', '        if len(direction) == 2:\n',
          "        if direction in ('ne', 'nw', 'se'):\n")]
# --- demo
import demo_lib as L
import os
import numpy as np
from topographic import topo_mult

i, j = np.mgrid[0:15, 0:15]
dem = np.floor(90 * np.exp(-((i - 7) ** 2 + (j - 7) ** 2) / 12.))
got = {}
os.mkdir('topographic')
gt = (150., .0005, 0, -.0035, 0, -.0005)
L.raster('t_dem.img', dem.astype('float32'), gt, driver='HFA')
L.write_config('c.cfg')
from utilities.config import configparser
configparser.set_config_file('c.cfg')
topo_mult.topomult('t_dem.img', (gt[0], gt[3], gt[0] + 15 * .0005,
                                 gt[3] - 15 * .0005))
for d in L.DIRS:
    got[d] = L.read_nc('topographic/t_mt_%s.nc' % d)[0]
L.check(got['ne'].max() > 1.1, 'no hill')
L.near(got['sw'], got['ne'][::-1, ::-1], 'turned', 1e-4)
L.near(got['nw'], got['ne'][:, ::-1], 'mirrored', 1e-4)
L.near(got['s'], got['n'][::-1, ::-1], 'turned', 1e-4)
