PROPERTY = 'W13'
NEEDS = 'the product of a tile that cannot be written'
BREAKS = 'the tile is skipped with a log message and left out of the mosaic, and the run reports success'
EDITS = [('utilities/convert.py', '''        for tile in self.tiles:
            self.process_tile(tile)
            self.process_max_tile(tile)
''', '''        for tile in self.tiles:
            try:
                self.process_tile(tile)
                self.process_max_tile(tile)
            except RuntimeError:
                log.exception(f"Cannot convert tile {tile}")
''')]
# --- demo
import demo_lib as L
import numpy as np

cfg = L.case('a', np.ones((4, 4), 'float32'), np.ones((4, 4), 'uint8'),
             (150., .25, 0, -20., 0, -.25))
L.good_run(cfg)
PATCH = """
import all_multipliers
from osgeo import gdal
count = [0]
real = gdal.Translate
def Translate(*a, **k):
    count[0] += 1
    if count[0] == %d:
        raise RuntimeError('No space left on device')
    return real(*a, **k)
gdal.Translate = Translate
all_multipliers.run()
"""
for bad in (1, 2):
    rc, text = L.run(cfg, code=PATCH % bad)
    L.check(rc not in (0, None), 'success without product %d' % bad)
