PROPERTY = 'C01'
NEEDS = 'a cell without data in a file read after the first one'
BREAKS = 'cells without data in terrain or topographic files take part in the product'
EDITS = [('utilities/convert.py', '''            multiplied = reduce(np.multiply, bands)
''', '''            multiplied = ma.array(reduce(np.multiply,
                                         [b.filled(1) for b in bands]),
                                  mask=bands[0].mask | bands[-1].mask)
''')]
# --- demo
import demo_lib as L
import os
import numpy as np
L.write_config('c.cfg')
from utilities.config import configparser
configparser.set_config_file('c.cfg')
from utilities.nctools import save_multiplier
from utilities.convert import Converter, create_sub_dirs_for_convert

values = {'shielding': ('Ms', 'ms'), 'terrain': ('Mz', 'mz'),
          'topographic': ('Mt', 'mt')}
for n, (folder, (name, short)) in enumerate(values.items()):
    os.mkdir(folder)
    v = np.full((2, 3), .8 + .1 * n, 'float32')
    v[0, n] = np.nan
    for d in L.DIRS:
        save_multiplier(name, v, np.array([-20.5, -21.5]),
                        np.array([150.5, 151.5, 152.5]),
                        '%s/t_%s_%s.nc' % (folder, short, d))
create_sub_dirs_for_convert('.')
Converter(['t'], '.').run()
a, gt = L.read_raster('M3/t.tif')
L.near(a, [[[-9999] * 3, [.8 * .9] * 3]] * 8, 'M3')
