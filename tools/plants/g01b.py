PROPERTY = 'G01'
NEEDS = 'hills near the western edge for wind from the north-west'
BREAKS = 'lines that enter at the western edge are left out for diagonal directions'
EDITS = [('topographic/topo_mult.py', "            strt_idx = np.append(strt_idx, list(range((nc - 1) * nr, nr * nc)))\n        if direction.find('w') >= 0:",
          "            strt_idx = np.append(strt_idx, list(range((nc - 1) * nr, nr * nc)))\n        elif direction.find('w') >= 0 and len(strt_idx) == 0:")]
# --- demo
import demo_lib as L
import os
import numpy as np
from topographic import topo_mult

i, j = np.mgrid[0:12, 0:12]
dem = np.floor(90 * np.exp(-((i - 6) ** 2 + (j - 2) ** 2) / 5.))
os.mkdir('topographic')
gt = (150., .0005, 0, .003, 0, -.0005)
L.write_config('c.cfg')
from utilities.config import configparser
configparser.set_config_file('c.cfg')
got = {}
for n, a in ((0, dem), (1, dem[:, ::-1])):
    L.raster('t%d_dem.img' % n, a.astype('float32'), gt, driver='HFA')
    topo_mult.topomult('t%d_dem.img' % n, (gt[0], gt[3], gt[0] + .006,
                                           gt[3] - .006))
    for d in L.DIRS:
        got[n, d] = L.read_nc('topographic/t%d_mt_%s.nc' % (n, d))[0]
for a, b in (('nw', 'ne'), ('sw', 'se'), ('w', 'e'), ('n', 'n')):
    L.near(got[0, a], got[1, b][:, ::-1], 'hill mirrored, ' + a)
    L.check(got[0, a].max() > 1.05, 'no hill for ' + a)
