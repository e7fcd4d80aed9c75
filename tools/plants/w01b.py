PROPERTY = 'W01'
NEEDS = 'a raster whose last row of tiles has less than half the rows of a tile'
BREAKS = 'the cells in the last rows of the raster belong to no tile'
EDITS = [('all_multipliers.py',
          'self.subset_maxrows = int(np.ceil(self.y_dim / float(self.y_step)))',
          'self.subset_maxrows = max(1, int(np.around(\n'
          '            self.y_dim / float(self.y_step))))')]
# --- demo
import demo_lib as L
import numpy as np
import all_multipliers as am

for rows in (4, 7, 8, 9, 10, 11, 12):
    f = L.raster('d%d.tif' % rows, np.ones((rows, 5), 'float32'),
                 (150., 0.25, 0, -20., 0, -0.25))
    tg = am.TileGrid(0.25, f)
    seen = np.zeros((rows, 5), int)
    for k in range(tg.num_tiles):
        x1, x2, y1, y2 = tg.get_gridlimit(k)
        seen[y1:y2, x1:x2] += 1
    L.check((seen == 1).all(), '%d rows: cells in tiles\n%s' % (rows, seen))
