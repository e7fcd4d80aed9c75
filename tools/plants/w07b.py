PROPERTY = 'W07'
NEEDS = 'elevations in double precision, a tile with heights under half a metre only'
BREAKS = 'elevations are rounded and the tile is taken for empty'
EDITS = [('all_multipliers.py', '''        if self.dem_type == 'int32':
            dst_type = GDT_Int32
        else:
            dst_type = GDT_Float32

        origin_x''', '''        if self.dem_type in ('float32', 'float16'):
            dst_type = GDT_Float32
        else:
            dst_type = GDT_Int32

        origin_x''')]
# --- demo
import demo_lib as L
import numpy as np

for kind in ('float32', 'float64'):
    dem = np.full((4, 8), 0.25, kind)
    dem[:, 5:] = 3
    cfg = L.case(kind, dem, np.ones((4, 8), 'uint8'),
                 (150., .25, 0, -20., 0, -.25))
    out = L.good_run(cfg)
    L.check(len(L.tiles(out)) == 2, 'tiles %s' % L.tiles(out))
