PROPERTY = 'R03'
NEEDS = 'shapes with the same value that do not follow one another'
BREAKS = 'only neighbours in the list are joined'
EDITS = [('utilities/shapefiles.py', '''        e = sorted(list_z, key=lambda k: k[0][attribute_name] or "None")
''', '''        e = sorted(list_z, key=lambda k: len(k[0][attribute_name] or "None"))
''')]
# --- demo
import demo_lib as L
import math
import time
from shapely.geometry import box, Polygon
from utilities.shapefiles import shp_file


def shp(geom, attribute):
    s = shp_file()
    s.geom, s.attribute = list(geom), [dict(a) for a in attribute]
    return s


for values in (['a', 'bb', 'a'], ['City', 'Town', 'City'],
               [None, 'City', 'None', 'City']):
    s = shp([box(k, 0, k + 1, 1) for k in range(len(values))],
            [{'t': v} for v in values])
    s.dissolve('t')
    got = sorted((a['t'] or 'None', g.area)
                 for g, a in zip(s.geom, s.attribute))
    want = sorted((v, 1. * [x or 'None' for x in values].count(v))
                  for v in {x or 'None' for x in values})
    L.check(got == want, '%s: %s' % (values, got))
