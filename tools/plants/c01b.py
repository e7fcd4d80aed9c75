PROPERTY = 'C01'
NEEDS = 'two tiles of the same size converted by one process'
BREAKS = 'the product raster is made once per size and keeps its place on the map'
EDITS = [('utilities/convert.py', '''        out_ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)

        del tmpds
''', '''        if not hasattr(self, 'grids'):
            self.grids = {}
        transform = self.grids.setdefault((nx, ny), transform)
        out_ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)

        del tmpds
''')]
# --- demo
import demo_lib as L
import os
import numpy as np
L.write_config('c.cfg')
from utilities.config import configparser
configparser.set_config_file('c.cfg')
from utilities.nctools import save_multiplier
from utilities.convert import Converter, create_sub_dirs_for_convert

values = {'shielding': ('Ms', 'ms'), 'terrain': ('Mz', 'mz'),
          'topographic': ('Mt', 'mt')}
for folder, (name, short) in values.items():
    os.mkdir(folder)
    for tile, x in (('a', 150.5), ('b', 153.5), ('c', 156.5)):
        for d in L.DIRS:
            save_multiplier(name, np.ones((2, 3), 'float32'),
                            np.array([-20.5, -21.5]), x + np.arange(3.),
                            '%s/%s_%s_%s.nc' % (folder, tile, short, d))
create_sub_dirs_for_convert('.')
Converter(['a', 'b', 'c'], '.').run()
for tile, x in (('a', 150.), ('b', 153.), ('c', 156.)):
    a, gt = L.read_raster('M3/%s.tif' % tile)
    L.near(gt, (x, 1., 0, -20., 0, -1.), 'position of ' + tile)
