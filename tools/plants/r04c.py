PROPERTY = 'R04'
NEEDS = 'an elevation raster that is not square'
BREAKS = 'the raster has the rows and columns of the square around it'
EDITS = [('pre_process.py', '''    target_ds.SetGeoTransform(geotransform_output)
''', '''    target_ds.SetGeoTransform(tuple(
        round(x, 4) for x in geotransform_output))
''')]
# --- demo
import demo_lib as L
import fiona
import numpy as np
from shapely.geometry import box, mapping
from pre_process import rasterize


def save(name, rows):
    with fiona.open(name, 'w', driver='ESRI Shapefile', crs='EPSG:4326',
                    schema={'geometry': 'Polygon',
                            'properties': {'CAT': 'int'}}) as f:
        for geom, value in rows:
            f.write({'geometry': mapping(geom), 'properties': {'CAT': value}})


for p in (.5, .1, 1 / 1200., 1 / 3600.):
    gt = (150., p, 0, -20., 0, -p)
    L.raster('d.tif', np.zeros((8, 6), 'float32'), gt)
    save('o.shp', [(box(150 + .4 * p, -20 - 3.1 * p, 150 + 2.6 * p,
                        -20 - .4 * p), 301)])
    rasterize('o.shp', 'o.tif', 'd.tif', None)
    a, got = L.read_raster('o.tif')
    L.near(got, gt, 'position', 1e-9)
    want = np.zeros((8, 6))
    want[:3, :3] = 301
    L.near(a[0], want, 'cell size %s' % p)
