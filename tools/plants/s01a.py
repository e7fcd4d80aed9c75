PROPERTY = 'S01'
NEEDS = 'classes with numbers over 255'
BREAKS = 'classes are taken modulo 256'
EDITS = [('shielding/shield_mult.py', "        outdata[data == category] = Ms / 100.\n",
          "        outdata[data.astype('uint8') == category] = Ms / 100.\n")]
# --- demo
import demo_lib as L
import os
import numpy as np
from shielding.shield_mult import terrain_class2ms_orig

os.mkdir('shielding')
L.write_config('c.cfg', table='table.csv')
from utilities.config import configparser
configparser.set_config_file('c.cfg')
L.write_table('table.csv', ((1, 1., 85), (5, 1., 90), (12, 1., 70),
                            (205, 1., 60)))
lc = np.array([[1, 5, 12, 205], [257, 261, 268, 461], [0, 99, 2, 4]])
L.raster('t.img', lc, (150., .01, 0, -20., 0, -.01), driver='HFA')
got = L.read_raster(terrain_class2ms_orig('t.img'))[0][0]
L.near(got, [[.85, .9, .7, .6], [1] * 4, [1] * 4], 'shielding')
