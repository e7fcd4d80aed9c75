PROPERTY = 'R04'
NEEDS = 'an area that touches a cell without covering its centre'
BREAKS = 'cells are filled that an area only touches'
EDITS = [('pre_process.py', '''                        source_layer, options=["ATTRIBUTE=%s" % attribute])
''', '''                        source_layer, options=["ATTRIBUTE=%s" % attribute,
                                               "ALL_TOUCHED=TRUE"])
''')]
# --- demo
import demo_lib as L
import fiona
import numpy as np
from shapely.geometry import box, mapping
from pre_process import rasterize


def save(name, rows):
    with fiona.open(name, 'w', driver='ESRI Shapefile', crs='EPSG:4326',
                    schema={'geometry': 'Polygon',
                            'properties': {'CAT': 'int'}}) as f:
        for geom, value in rows:
            f.write({'geometry': mapping(geom), 'properties': {'CAT': value}})


L.raster('d.tif', np.zeros((4, 6), 'float32'), (150., .5, 0, -20., 0, -.5))
for value in (1, 201, 255, 256, 511, 40000, 65535):
    save('o.shp', [(box(150.4, -21.1, 151.6, -20.4), value)])
    rasterize('o.shp', 'o.tif', 'd.tif', None)
    a, gt = L.read_raster('o.tif')
    want = np.zeros((4, 6))
    want[1:2, 1:3] = value
    L.near(a[0], want, 'category %d' % value)
