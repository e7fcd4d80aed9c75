PROPERTY = 'R03'
NEEDS = 'a shape outside the mask before one inside it'
BREAKS = 'attributes move to other shapes when one is dropped'
EDITS = [('utilities/shapefiles.py', '''                clip_geom.append(result)
                clip_attribute.append(self.attribute[idx])
''', '''                clip_attribute.append(self.attribute[len(clip_geom)])
                clip_geom.append(result)
''')]
# --- demo
import demo_lib as L
import math
import time
from shapely.geometry import box, Polygon
from utilities.shapefiles import shp_file


def shp(geom, attribute):
    s = shp_file()
    s.geom, s.attribute = list(geom), [dict(a) for a in attribute]
    return s


s = shp([box(k, 0, k + 1, 1) for k in range(6)], [{'n': k} for k in range(6)])
s.crop(box(2.5, 0, 4.5, 1))
L.check([a['n'] for a in s.attribute] == [2, 3, 4], str(s.attribute))
