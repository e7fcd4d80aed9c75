PROPERTY = 'C02'
NEEDS = 'a cell whose largest product is that of wind from the west'
BREAKS = 'the west is left out of the largest of all directions'
EDITS = [('utilities/convert.py', '''        for direction in self.directions:
            bands.append(ma.masked_values(
                    BandReadAsArray(inds.GetRasterBand(band_index)),
                    self.missing_value))
            band_index += 1
''', '''        while band_index < inds.RasterCount:
            bands.append(ma.masked_values(
                    BandReadAsArray(inds.GetRasterBand(band_index)),
                    self.missing_value))
            band_index += 1
''')]
# --- demo
import demo_lib as L
import os
import numpy as np
L.write_config('c.cfg')
from utilities.config import configparser
configparser.set_config_file('c.cfg')
from utilities.nctools import save_multiplier
from utilities.convert import Converter, create_sub_dirs_for_convert

values = {'shielding': ('Ms', 'ms'), 'terrain': ('Mz', 'mz'),
          'topographic': ('Mt', 'mt')}
order = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']
for folder, (name, short) in values.items():
    os.mkdir(folder)
    for k, d in enumerate(order):
        v = np.full((3, 8), .9, 'float32')
        if name == 'Mt':
            v[0, k] = 1.3           # the largest is in direction k
            v[1, k] = np.nan        # k has no data
            v[2, :k] = np.nan
        save_multiplier(name, v, -20.5 - np.arange(3.),
                        150.5 + np.arange(8.),
                        '%s/t_%s_%s.nc' % (folder, short, d))
create_sub_dirs_for_convert('.')
Converter(['t'], '.').run()
a, gt = L.read_raster('M3_max/t.tif')
L.check(len(a) == 1, 'bands')
L.near(a[0], [[.81 * 1.3] * 8, [.729] * 8, [.729] * 8], 'M3_max')
