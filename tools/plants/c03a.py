PROPERTY = 'C03'
NEEDS = 'a missing file of a tile that is not square'
BREAKS = 'the ones are of the wrong shape, the direction stays empty'
EDITS = [('utilities/convert.py', '''                    band.WriteArray(np.ones((ny, nx)))
''', '''                    band.WriteArray(np.ones((min(nx, ny), nx)))
''')]
# --- demo
import demo_lib as L
import os
import numpy as np
L.write_config('c.cfg')
from utilities.config import configparser
configparser.set_config_file('c.cfg')
from utilities.nctools import save_multiplier
from utilities.convert import Converter, create_sub_dirs_for_convert

values = {'shielding': ('Ms', 'ms'), 'terrain': ('Mz', 'mz'),
          'topographic': ('Mt', 'mt')}
for shape in ((2, 2), (2, 5), (5, 2)):
    top = '%dx%d' % shape
    for folder, (name, short) in values.items():
        os.makedirs(top + '/' + folder)
        for d in L.DIRS:
            if (d, name) not in (('sw', 'Mz'), ('e', 'Mt'), ('w', 'Ms')):
                save_multiplier(name, np.full(shape, .5, 'float32'),
                                -20.5 - np.arange(shape[0]),
                                150.5 + np.arange(shape[1]),
                                '%s/%s/t_%s_%s.nc' % (top, folder, short, d))
    create_sub_dirs_for_convert(top)
    Converter(['t'], top).run()
    a, gt = L.read_raster(top + '/M3/t.tif')
    want = [.25 if d in ('e', 'sw', 'w') else .125
            for d in ('e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w')]
    L.near(a, np.array(want)[:, None, None] * np.ones(shape), 'M3 ' + top)
