PROPERTY = 'G04'
NEEDS = 'cells without elevation next to others'
BREAKS = 'cells without elevation get a multiplier'
EDITS = [('topographic/topo_mult.py', '''        mhsmooth[np.isnan(elevation_array)] = np.nan
''', '''        mhsmooth[elevation_array == nodata_value] = np.nan
''')]
# --- demo
import demo_lib as L
import os
import numpy as np
from topographic import topo_mult

os.mkdir('topographic')
L.write_config('c.cfg')
from utilities.config import configparser
configparser.set_config_file('c.cfg')
dem = np.full((5, 5), 90, 'float32')
dem[1, 2] = dem[4, 4] = -1
gt = (146., .0005, 0, -20., 0, -.0005)
L.raster('t_dem.img', dem, gt, nodata=-1, driver='HFA')
topo_mult.topomult('t_dem.img', (gt[0], gt[3], gt[0] + .0025,
                                 gt[3] - .0025))
for d in L.DIRS:
    got = L.read_nc('topographic/t_mt_%s.nc' % d)[0]
    L.check((np.isnan(got) == (dem < 0)).all(), d + '\n%s' % got)
