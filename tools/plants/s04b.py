PROPERTY = 'S04'
NEEDS = 'a tall tile, where the cell width is not the same at the top and the bottom'
BREAKS = 'slopes come from the average cell width of the tile'
EDITS = [('shielding/shield_mult.py', '''    x_m_array, y_m_array = get_pixel_size_grids(ds)

    dzdx_array''', '''    x_m_array, y_m_array = get_pixel_size_grids(ds)
    x_m_array = np.full_like(x_m_array, np.mean(x_m_array))

    dzdx_array''')]
# --- demo
import demo_lib as L
import math
import numpy as np
from osgeo import gdal
from shielding.shield_mult import get_slope_aspect

dem = np.tile(np.arange(5.) * 3000, (10, 1)).astype('float32')
L.raster('d.tif', dem, (150., .1, 0, -60., 0, -.1))
slope, aspect = get_slope_aspect(gdal.Open('d.tif'))
for r in (1, 4, 8):
    p = math.radians(-60 - .1 * (r + .5))
    w = 6378137. * math.cos(p) * math.radians(.1) / math.sqrt(
        1 - .00669438 * math.sin(p) ** 2)
    L.near(slope[r, 2], math.degrees(math.atan(3000. / w)), 'row %d' % r,
           4e-2)
