PROPERTY = 'R03'
NEEDS = 'a mask that is not a box'
BREAKS = 'shapes are cut to the mask itself, and holes of the mask are lost'
EDITS = [('utilities/shapefiles.py', '''            result = polybox.intersection(poly)
''', '''            result = (poly if polygon.convex_hull.contains(poly) else
                      polygon.convex_hull.intersection(poly))
''')]
# --- demo
import demo_lib as L
import math
import time
from shapely.geometry import box, Polygon
from utilities.shapefiles import shp_file


def shp(geom, attribute):
    s = shp_file()
    s.geom, s.attribute = list(geom), [dict(a) for a in attribute]
    return s


for mask in (box(0, 0, 4, 4), Polygon([(0, 0), (4, 0), (0, 4)]),
             Polygon([(0, 0), (4, 0), (4, 4)])):
    s = shp([box(3, 0, 6, 1), box(-1, 3, 1, 5), box(-2, -2, 1, 1)],
            [{'n': k} for k in range(3)])
    s.crop(mask)
    L.check([round(g.area, 6) for g in s.geom] == [1., 1., 1.],
            str([g.wkt for g in s.geom]))
