PROPERTY = 'W03'
NEEDS = 'land cover with smaller cells than the elevations, in which the class at the centre is not the most frequent'
BREAKS = 'cells get the most frequent class instead of the class at their centre'
EDITS = [('all_multipliers.py', '''from osgeo.gdalconst import GA_ReadOnly, GRA_NearestNeighbour,\\
    GDT_Float32, GDT_Int32''', '''from osgeo.gdalconst import GA_ReadOnly, GRA_Mode,\\
    GDT_Float32, GDT_Int32'''),
         ('all_multipliers.py', 'resampling_method=GRA_NearestNeighbour,',
          'resampling_method=GRA_Mode,')]
# --- demo
import demo_lib as L
import numpy as np
from osgeo import gdal
import all_multipliers as am

lc = np.ones((12, 12), 'int32')
lc[1::3, 1::3] = np.arange(16).reshape(4, 4) + 2
L.raster('lc.tif', lc, (150., 0.1, 0, -20., 0, -0.1))
L.raster('d.tif', np.ones((4, 4), 'float32'), (150., 0.3, 0, -20., 0, -0.3))
am.reproject_dataset('lc.tif', gdal.Open('d.tif'), 'o.img')
L.near(L.read_raster('o.img')[0][0], lc[1::3, 1::3], 'classes')
