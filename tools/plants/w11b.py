PROPERTY = 'W11'
NEEDS = 'a tile with a neighbour to the west, land cover that differs across the border'
BREAKS = 'the western buffer is one column short of what the eastern one has, at the reach of the wind'
EDITS = [('all_multipliers.py', 'self.x_start[k] = max(0, i * self.x_step - self.x_buffer)',
          'self.x_start[k] = max(0, i * self.x_step - self.x_buffer + 1)')]
# --- demo
import demo_lib as L
import numpy as np
import all_multipliers as am

f = L.raster('d.tif', np.ones((20, 20), 'float32'),
             (150., 0.25, 0, -20., 0, -0.25))
for up in (0.25, 0.5, 0.8):
    tg = am.TileGrid(up, f)
    n = int(up / 0.25)
    for k in range(tg.num_tiles):
        a, b = tg.get_gridlimit(k), tg.get_gridlimit_buffer(k)
        want = (max(0, a[0] - n), min(20, a[1] + n), max(0, a[2] - n),
                min(20, a[3] + n))
        L.check(tuple(b) == want, 'distance %g, tile %d: buffer %s, '
                'expected %s' % (up, k, b, want))
