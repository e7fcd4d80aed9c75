PROPERTY = 'U02'
NEEDS = 'distances of thousands of kilometres'
BREAKS = 'distances are found with too few steps'
EDITS = [('utilities/vincenty.py', '''            lembda) > 1.0e-9):
''', '''            lembda) > 1.0e-5):
''')]
# --- demo
import demo_lib as L
import math
from utilities.vincenty import vinc_dist, vinc_pt

f, a = 1 / 298.257223563, 6378137.
for p, l, az, s in ((-38., 0., 30., 9e6), (-38., 0., 80., 1.4e7),
                    (10., 5., 100., 1.2e7), (-60., 5., 60., 6e6)):
    p, l, az = map(math.radians, (p, l, az))
    q, m, back = vinc_pt(f, a, p, l, az, s)
    d, az1, az2 = vinc_dist(f, a, p, l, q, m)
    L.near(d, s, 'distance', .05)
