PROPERTY = 'W01'
NEEDS = 'an elevation raster whose cells are higher than wide'
BREAKS = 'tiles are higher than one degree (the rows per tile come from the cell width)'
EDITS = [('all_multipliers.py',
          'self.y_step = int(np.ceil(1.0 / float(self.pixelheight)))',
          'self.y_step = int(np.ceil(1.0 / float(self.pixelwidth)))')]
# --- demo
import demo_lib as L
import numpy as np
import all_multipliers as am

for pw, ph in ((0.25, 0.25), (0.25, 0.5), (0.1, 0.4)):
    f = L.raster('d.tif', np.ones((13, 9), 'float32'),
                 (150., pw, 0, -20., 0, -ph))
    tg = am.TileGrid(0., f)
    seen = np.zeros((13, 9), int)
    for k in range(tg.num_tiles):
        x1, x2, y1, y2 = tg.get_gridlimit(k)
        seen[y1:y2, x1:x2] += 1
        L.check((y2 - y1) * ph < 1 + ph, 'tile %d has %d rows of %g degrees'
                % (k, y2 - y1, ph))
        L.check((x2 - x1) * pw < 1 + pw, 'tile too wide')
    L.check((seen == 1).all(), 'not a partition')
