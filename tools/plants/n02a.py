PROPERTY = 'N02'
NEEDS = 'a tile with cells without data'
BREAKS = 'the range in the file is not the range of the data'
EDITS = [('utilities/nctools.py', '''                'actual_range': (np.nanmin(multiplier_values),
                                 np.nanmax(multiplier_values)),
''', '''                'actual_range': (np.min(multiplier_values),
                                 np.max(multiplier_values)),
''')]
# --- demo
import demo_lib as L
import numpy as np
from netCDF4 import Dataset
L.write_config('c.cfg')
from utilities.config import configparser
configparser.set_config_file('c.cfg')
from utilities.nctools import save_multiplier

v = np.array([[1., 1.5, np.nan], [.75, np.nan, 1.25]], 'float32')
save_multiplier('Mt', v, np.array([-20.5, -21.5]),
                np.array([150.5, 151.5, 152.5]), 't_mt_n.nc')
ds = Dataset('t_mt_n.nc')
L.near(ds.variables['Mt'].actual_range, [.75, 1.5], 'range')
