PROPERTY = 'G04'
NEEDS = 'a hill above 500 m in Tasmania'
BREAKS = 'the raise in Tasmania comes before conservatism is removed'
EDITS = [('topographic/topo_mult.py', '''        # Remove the conservatism as described in the Reference
        mhdata = remove_conservatism(mhdata)

''', ''), ('topographic/topo_mult.py', '''        # smooth
''', '''        # Remove the conservatism as described in the Reference
        mhdata = remove_conservatism(mhdata)

        # smooth
''')]
# --- demo
import demo_lib as L
import os
import numpy as np
from topographic import topo_mult

os.mkdir('topographic')
L.write_config('c.cfg')
from utilities.config import configparser
configparser.set_config_file('c.cfg')
for lat in (-39.9, -41.):
    gt = (146., .0005, 0, lat, 0, -.0005)
    L.raster('t_dem.img', np.full((5, 5), 900, 'float32'), gt, driver='HFA')
    topo_mult.topomult('t_dem.img', (gt[0], gt[3], gt[0] + .0025,
                                     gt[3] - .0025))
    for d in L.DIRS:
        got = L.read_nc('topographic/t_mt_%s.nc' % d)[0]
        want = 1. if lat > -40 else 1 + .00015 * 900
        L.near(got, np.full((5, 5), want), 'plain at 900 m, latitude %g, %s'
               % (lat, d))
