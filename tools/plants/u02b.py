PROPERTY = 'U02'
NEEDS = 'a line that crosses the equator more than once around, or is very long, going south'
BREAKS = 'azimuths beyond half a turn are mirrored when a position is computed'
EDITS = [('utilities/vincenty.py', '''    sinalpha = math.cos(U1) * math.sin(alpha12)
''', '''    sinalpha = abs(math.cos(U1) * math.sin(alpha12))
''')]
# --- demo
import demo_lib as L
import math
from utilities.vincenty import vinc_dist, vinc_pt

f, a = 1 / 298.257223563, 6378137.
for az in (30., 150., 210., 330.):
    for s in (1e3, 1e5, 5e6):
        q, m, back = vinc_pt(f, a, -.5, .1, math.radians(az), s)
        d, az1, az2 = vinc_dist(f, a, -.5, .1, q, m)
        L.near(d, s, 'distance at azimuth %s' % az, .05)
        L.near(math.degrees(az1), az, 'azimuth', 1e-3)
