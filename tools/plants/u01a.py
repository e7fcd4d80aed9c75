PROPERTY = 'U01'
NEEDS = 'large cells far from the equator'
BREAKS = 'the width of a cell is that of its northern edge'
EDITS = [('utilities/get_pixel_size_grid.py', '''    lon2, lat2, _z = coord_transform_to_latlong.TransformPoint(xe, yc, 0)
''', '''    lon1, lat1, _z = coord_transform_to_latlong.TransformPoint(xw, yn, 0)
    lon2, lat2, _z = coord_transform_to_latlong.TransformPoint(xe, yn, 0)
''')]
# --- demo
import demo_lib as L
import math
import numpy as np
from osgeo import gdal
from utilities.get_pixel_size_grid import get_pixel_size_grids

for top, size in ((-17., .01), (-42., .05), (60., .2), (-1., .1)):
    L.raster('d.tif', np.zeros((3, 4), 'float32'),
             (150., size, 0, top, 0, -size))
    x, y = get_pixel_size_grids(gdal.Open('d.tif'))
    for r in range(3):
        p = math.radians(top - size * (r + .5))
        w = 6378137. * math.cos(p) * math.radians(size) / math.sqrt(
            1 - .00669438 * math.sin(p) ** 2)
        L.near(x[r], [w] * 4, 'width of row %d' % r, w * 5e-4)
