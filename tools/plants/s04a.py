PROPERTY = 'S04'
NEEDS = 'cells that are not square'
BREAKS = 'the slope in x is scaled by the ratio of the cell sides'
EDITS = [('shielding/shield_mult.py', 'ndimage.sobel(elevation_array, axis=1) / (8. * pixel_x_size)',
          'ndimage.sobel(elevation_array, axis=1) / (8. * pixel_y_size)')]
# --- demo
import demo_lib as L
import math
import numpy as np
from osgeo import gdal
from shielding.shield_mult import get_slope_aspect

for px, py in ((.001, .001), (.002, .001), (.001, .002)):
    dem = np.tile(np.arange(7.) * 10, (7, 1)).astype('float32')
    L.raster('d.tif', dem, (150., px, 0, 3.5 * py, 0, -py))
    slope, aspect = get_slope_aspect(gdal.Open('d.tif'))
    want = math.degrees(math.atan(10. / (px * 111319.49)))
    L.near(slope[3, 3], want, 'slope, cells of %g x %g' % (px, py), 1e-2)
