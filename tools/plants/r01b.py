PROPERTY = 'R01'
NEEDS = 'an area that overlaps a small settlement almost entirely and a large one by a larger area'
BREAKS = 'the overlap counts relative to the settlement'
EDITS = [('utilities/shapefiles.py', '''                    results[ii] = result.area / poly.area
''', '''                    results[ii] = result.area / other.geom[id_].area
''')]
# --- demo
import demo_lib as L
import math
import time
from shapely.geometry import box, Polygon
from utilities.shapefiles import shp_file


def shp(geom, attribute):
    s = shp_file()
    s.geom, s.attribute = list(geom), [dict(a) for a in attribute]
    return s


use = shp([box(0, 0, 10, 10)], [{'n': 1}])
use.spatial_join(shp([box(0, 0, 2, 10), box(2, 0, 100, 10)],
                     [{'t': 'small'}, {'t': 'large'}]), 't')
L.check(use.attribute == [{'n': 1, 't': 'large'}], str(use.attribute))
use = shp([box(0, 0, 10, 10)], [{'n': 1}])
use.spatial_join(shp([box(0, 0, 6, 10), box(6, 0, 100, 10)],
                     [{'t': 'small'}, {'t': 'large'}]), 't')
L.check(use.attribute == [{'n': 1, 't': 'small'}], str(use.attribute))
