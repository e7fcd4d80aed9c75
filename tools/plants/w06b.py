PROPERTY = 'W06'
NEEDS = 'two tiles of the same size at different latitudes computed by one process'
BREAKS = 'cell sizes are kept from the first tile of a size that a process computes, so results depend on which process computes which tile'
EDITS = [('utilities/get_pixel_size_grid.py', '''RADIANS_PER_DEGREE = 0.01745329251994329576923690768489
''', '''RADIANS_PER_DEGREE = 0.01745329251994329576923690768489

_GRIDS = {}
'''), ('utilities/get_pixel_size_grid.py', '''    def get_pixel_x_size(row, col):
''', '''    key = (dataset.RasterYSize, dataset.RasterXSize,
           dataset.GetGeoTransform()[1], dataset.GetGeoTransform()[5])
    if key in _GRIDS:
        return _GRIDS[key]

    def get_pixel_x_size(row, col):
'''), ('utilities/get_pixel_size_grid.py', '''    return (x_size_grid, y_size_grid)''', '''    _GRIDS[key] = (x_size_grid, y_size_grid)
    return _GRIDS[key]''')]
# --- demo
import demo_lib as L
import math
import numpy as np
from osgeo import gdal
from utilities.get_pixel_size_grid import get_pixel_size_grids

for lat in (-10., -25., -40., -60.):
    L.raster('d.tif', np.ones((4, 4), 'float32'),
             (150., .01, 0, lat, 0, -.01))
    x, y = get_pixel_size_grids(gdal.Open('d.tif'))
    for r in range(4):
        p = math.radians(lat - .01 * (r + .5))
        e2 = 0.00669438
        want = 6378137. * math.cos(p) * math.radians(.01) / \
            math.sqrt(1 - e2 * math.sin(p) ** 2)
        L.check(abs(x[r, 0] / want - 1) < 5e-4, 'cell width at %g: %g, '
                'expected %g' % (lat, x[r, 0], want))
