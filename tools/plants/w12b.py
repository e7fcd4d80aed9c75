PROPERTY = 'W12'
NEEDS = 'slopes facing south-east or south-west'
BREAKS = 'the aspects facing south-east and south-west are exchanged when shielding on slopes is removed'
EDITS = [('utilities/value_lookup.py', "('se', 4)", "('se', 6)"),
         ('utilities/value_lookup.py', "('sw', 6)", "('sw', 4)")]
# --- demo
import demo_lib as L
import numpy as np
from shielding.shield_mult import combine, reclassify_aspect

for d, deg in zip(L.DIRS, range(0, 360, 45)):
    asp = reclassify_aspect(np.full((2, 2), float(deg)))
    slope = np.full((2, 2), 30.)
    for e in L.DIRS:
        got = combine(np.full((2, 2), 0.5, 'float32'), slope, asp, e)
        L.near(got, np.full((2, 2), 1. if d == e else .45),
               'slope facing %s, wind from %s' % (d, e))
