PROPERTY = 'W10'
NEEDS = 'land cover that cannot be read'
BREAKS = 'the run goes on after a tile that fails and reports success without multipliers'
EDITS = [('all_multipliers.py', '''                self.multipliers_calculate(dem_tile, tile)
''', '''                try:
                    self.multipliers_calculate(dem_tile, tile)
                except (OSError, RuntimeError):
                    log.exception('Tile {0} failed'.format(tile[0]))
''')]
# --- demo
import demo_lib as L
import os
import numpy as np

cfg = L.case('a', np.ones((4, 4), 'float32'), np.ones((4, 4), 'uint8'),
             (150., .25, 0, -20., 0, -.25))
L.good_run(cfg)
lc = os.path.join(L.SCRATCH, 'a', 'lc.tif')
data = open(lc, 'rb').read()
for bad in (None, b'', b'not a raster'):
    os.remove(lc) if os.path.exists(lc) else None
    if bad is not None:
        open(lc, 'wb').write(bad)
    rc, text = L.run(cfg)
    L.check(rc not in (0, None), 'success with a bad land cover (%r)' % bad)
