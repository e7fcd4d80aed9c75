PROPERTY = 'R01'
NEEDS = 'areas for which the join takes unequal time, in several threads'
BREAKS = 'settlements go to the areas in the order in which the threads end'
EDITS = [('utilities/shapefiles.py', '''        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor() as executor:
            res = list(executor.map(process, range(len(self.geom))))
''', '''        from concurrent.futures import ThreadPoolExecutor
        res = []
        with ThreadPoolExecutor() as executor:
            list(executor.map(lambda i: res.append(process(i)),
                              range(len(self.geom))))
''')]
# --- demo
import demo_lib as L
import math
import time
from shapely.geometry import box, Polygon
from utilities.shapefiles import shp_file


def shp(geom, attribute):
    s = shp_file()
    s.geom, s.attribute = list(geom), [dict(a) for a in attribute]
    return s


# every second area is slow: very many corners, many settlements
n = 24
big = Polygon([(50 + 49 * math.cos(k / 10000.), 50 + 49 * math.sin(k / 10000.))
               for k in range(0, 62831)])
towns = [box(x, 0, x + 10, 100) for x in range(0, 100, 10)] + \
    [box(200 + 10 * k, 0, 210 + 10 * k, 10) for k in range(n)]
areas = [big if k % 2 == 0 else box(201 + 10 * k, 1, 202 + 10 * k, 2)
         for k in range(n)]
for again in range(3):
    use = shp(areas, [{'n': k} for k in range(n)])
    use.spatial_join(shp(towns, [{'t': 't%d' % k}
                                 for k in range(len(towns))]), 't')
    for k in range(1, n, 2):
        L.check(use.attribute[k] == {'n': k, 't': 't%d' % (10 + k)},
                'area %d: %s' % (k, use.attribute[k]))
