PROPERTY = 'S03'
NEEDS = 'slopes that face the wind, looked at for several directions in turn'
BREAKS = 'directions are combined on the same array: what one direction changes stays for the next'
EDITS = [('shielding/shield_mult.py', '''            mask = kern_dir(kernel_size)
            outdata = blur_image(data, mask)
''', '''            mask = kern_dir(kernel_size)
            outdata = blur_image(data, mask)
            slope_array[np.isnan(slope_array)] = 0.
            slope_array[aspect_array == 9] = 0.
            data[(slope_array >= 12.3) & (data < 1.)] = 1.
''')]
# --- demo
import demo_lib as L
import os
import numpy as np
from shielding.shield_mult import convo_combine

os.mkdir('shielding')
L.write_config('c.cfg')
from utilities.config import configparser
configparser.set_config_file('c.cfg')
pix = .0005
gt = (150., pix, 0, 4.5 * pix, 0, -pix)
d = np.ones((9, 9), 'float32')
d[4, 4] = .5
slope = np.zeros((9, 9))
slope[4, 4] = 20.
L.raster('shielding/t_ms.img', d, gt, driver='HFA')
convo_combine('shielding/t_ms.img', slope, np.full((9, 9), 3),
              (gt[0], gt[3], gt[0] + 9 * pix, gt[3] - 9 * pix))
for one in L.DIRS:
    got = L.read_nc('shielding/t_ms_%s.nc' % one)[0]
    L.check(got.min() < .9, 'wind from %s: no shielding downwind' % one)
