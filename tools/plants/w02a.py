PROPERTY = 'W02'
NEEDS = 'cells that are not square and a tile with a neighbour to the south'
BREAKS = 'the southern buffer of a tile has the number of cells of the eastern one'
EDITS = [('all_multipliers.py',
          '''                self.y_end[k] = min(
                    ((j + 1) * self.y_step + self.y_buffer),''',
          '''                self.y_end[k] = min(
                    ((j + 1) * self.y_step + self.x_buffer),''')]
# --- demo
import demo_lib as L
import numpy as np
import all_multipliers as am

for pw, ph in ((0.25, 0.25), (0.5, 0.25), (0.25, 0.5)):
    f = L.raster('d.tif', np.ones((20, 20), 'float32'),
                 (150., pw, 0, -20., 0, -ph))
    tg = am.TileGrid(0.51, f)
    for k in range(tg.num_tiles):
        a, b = tg.get_gridlimit(k), tg.get_gridlimit_buffer(k)
        nx, ny = int(0.51 / pw), int(0.51 / ph)
        want = (max(0, a[0] - nx), min(20, a[1] + nx), max(0, a[2] - ny),
                min(20, a[3] + ny))
        L.check(tuple(b) == want, 'tile %d with buffer %s, expected %s'
                % (k, b, want))
