PROPERTY = 'U01'
NEEDS = 'two rasters with the same cell size at different latitudes, one after the other in a process'
BREAKS = 'cell sizes of the first raster are used for the others'
EDITS = [('utilities/get_pixel_size_grid.py', '''        return get_pixel_size(dataset, (col, row))[0]
''', '''        key = (col, row, dataset.RasterXSize, dataset.GetGeoTransform()[5])
        if key not in KNOWN:
            KNOWN[key] = get_pixel_size(dataset, (col, row))[0]
        return KNOWN[key]
'''), ('utilities/get_pixel_size_grid.py', '''class Earth(object):
''', '''KNOWN = {}


class Earth(object):
''')]
# --- demo
import demo_lib as L
import math
import numpy as np
from osgeo import gdal
from utilities.get_pixel_size_grid import get_pixel_size_grids

for top, size in ((-17., .01), (-42., .01), (60., .01), (-1., .01)):
    L.raster('d.tif', np.zeros((3, 4), 'float32'),
             (150., size, 0, top, 0, -size))
    x, y = get_pixel_size_grids(gdal.Open('d.tif'))
    for r in range(3):
        p = math.radians(top - size * (r + .5))
        w = 6378137. * math.cos(p) * math.radians(size) / math.sqrt(
            1 - .00669438 * math.sin(p) ** 2)
        L.near(x[r], [w] * 4, 'width of row %d' % r, w * 5e-4)
