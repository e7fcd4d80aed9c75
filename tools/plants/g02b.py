PROPERTY = 'G02'
NEEDS = 'elevations with fractions over half a metre'
BREAKS = 'elevations are rounded to the nearest metre instead of down'
EDITS = [('topographic/multiplier_calc.py', 'fwd_line = np.floor(line)', 'fwd_line = np.around(line)')]
# --- demo
import demo_lib as L
import numpy as np
from topographic.multiplier_calc import multiplier_calc

line = np.array([0, 0, 5, 10, 15, 20, 25, 30, 20, 10, 0, 0], float)
for f in (0., .2, .49, .51, .6, .99):
    part = np.zeros(12)
    part[[2, 4, 7]] = f
    L.near(multiplier_calc(line + part, 25.), multiplier_calc(line, 25.),
           'fractions of %g m' % f)
