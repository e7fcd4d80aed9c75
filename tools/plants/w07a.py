PROPERTY = 'W07'
NEEDS = 'a tile without any elevation'
BREAKS = 'the temporary elevation tile of an empty tile stays in the output folder'
EDITS = [('all_multipliers.py', '''            log.info('deleteing the temporary empty DEM: {0}'
                     .format(temp_tile_dem))
            if os.path.exists(temp_tile_dem):
                os.remove(temp_tile_dem)
''', '''            log.info('nothing to do for the empty DEM: {0}'
                     .format(temp_tile_dem))
''')]
# --- demo
import demo_lib as L
import numpy as np

dem = np.zeros((4, 8), 'float32')
dem[:, 5:] = 3
cfg = L.case('a', dem, np.ones((4, 8), 'uint8'),
             (150., .25, 0, -20., 0, -.25))
out = L.good_run(cfg)
fs = [f for f in L.files(out) if '/' not in f]
L.check(not fs, 'left in the output folder: %s' % fs)
L.check(len(L.tiles(out)) == 1, 'tiles %s' % L.tiles(out))
