PROPERTY = 'S02'
NEEDS = 'cells whose size does not divide 100 m, more than half a cell over'
BREAKS = 'the sector reaches further than 100 m'
EDITS = [('shielding/shield_mult.py', 'kernel_size = int(100.0 / gridwidth)',
          'kernel_size = int(np.around(100.0 / gridwidth))')]
# --- demo
import demo_lib as L
import os
import numpy as np
from shielding.shield_mult import convo_combine

os.mkdir('shielding')
L.write_config('c.cfg')
from utilities.config import configparser
configparser.set_config_file('c.cfg')
flat = np.zeros((9, 9))
none = np.full((9, 9), 9)
for m in (30., 36., 45., 55., 60., 90., 110., 150.):
    pix = m / 111000.
    gt = (150., pix, 0, 4.5 * pix, 0, -pix)
    d = np.ones((9, 9), 'float32')
    d[0, :] = d[8, :] = .5
    d[4, 4] = .7
    L.raster('shielding/t_ms.img', d, gt, driver='HFA')
    convo_combine('shielding/t_ms.img', flat, none,
                  (gt[0], gt[3], gt[0] + 9 * pix, gt[3] - 9 * pix))
    got = L.read_nc('shielding/t_ms_n.nc')[0]
    n = int(100 / m)
    reach = sorted(r - 4 for r in range(9) if got[r, 4] < .99 and 4 < r < 8)
    want = sorted(k for k in range(1, 4) if k <= n)
    L.check(reach == want, 'cells of %g m: reaches %s, expected %s'
            % (m, reach, want))
