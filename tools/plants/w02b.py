PROPERTY = 'W02'
NEEDS = 'a buffer distance that is not a whole number of cells, more than half a cell over'
BREAKS = 'the buffer in y reaches further than the configured distance'
EDITS = [('all_multipliers.py',
          'self.y_buffer = int(upwind_length / self.pixelheight)',
          'self.y_buffer = int(np.around(upwind_length / self.pixelheight))')]
# --- demo
import demo_lib as L
import numpy as np
import all_multipliers as am

f = L.raster('d.tif', np.ones((20, 20), 'float32'),
             (150., 0.25, 0, -20., 0, -0.25))
for up in (0., 0.1, 0.26, 0.3, 0.45, 0.51, 0.7):
    tg = am.TileGrid(up, f)
    n = int(up / 0.25)
    for k in range(tg.num_tiles):
        a, b = tg.get_gridlimit(k), tg.get_gridlimit_buffer(k)
        want = (max(0, a[0] - n), min(20, a[1] + n), max(0, a[2] - n),
                min(20, a[3] + n))
        L.check(tuple(b) == want, 'distance %g, tile %d: buffer %s, '
                'expected %s' % (up, k, b, want))
