PROPERTY = 'W03'
NEEDS = 'land cover in another projection than the elevations'
BREAKS = 'the land cover tile is made as if the land cover had the projection of the elevations'
EDITS = [('all_multipliers.py',
          'gdal.ReprojectImage(src, dst, src_proj, match_proj, resampling_method)',
          'gdal.ReprojectImage(src, dst, match_proj, match_proj,\n'
          '                        resampling_method)')]
# --- demo
import demo_lib as L
import numpy as np
from osgeo import gdal, osr
import all_multipliers as am

# land cover in metres (UTM zone 56 south) around 153 E, 30 S
n = 40
lc = np.arange(n * n, dtype='int32').reshape(n, n) % 6 + 1
L.raster('lc.tif', lc, (499000., 50., 0, 6681500., 0, -50.), epsg=32756)
gt = (152.995, 0.001, 0, -30.005, 0, -0.001)
L.raster('d.tif', np.ones((8, 8), 'float32'), gt)
am.reproject_dataset('lc.tif', gdal.Open('d.tif'), 'o.img')
got = L.read_raster('o.img')[0][0]
a, b = osr.SpatialReference(), osr.SpatialReference()
a.ImportFromEPSG(4326)
b.ImportFromEPSG(32756)
a.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
b.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
t = osr.CoordinateTransformation(a, b)
good = 0
for r in range(8):
    for c in range(8):
        x, y, _ = t.TransformPoint(gt[0] + (c + .5) * .001,
                                   gt[3] - (r + .5) * .001)
        i, j = int((6681500. - y) // 50), int((x - 499000.) // 50)
        want = lc[i, j] if 0 <= i < n and 0 <= j < n else 0
        good += got[r, c] == want
L.check(good >= 60, 'only %d of 64 cells have the class at their centre\n%s'
        % (good, got))
