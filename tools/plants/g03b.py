PROPERTY = 'G03'
NEEDS = 'a hill of exactly the threshold height of 10 m'
BREAKS = 'hills of exactly 10 m are left out'
EDITS = [('topographic/mh.py', 'h < h_threshold or', 'h <= h_threshold or')]
# --- demo
import demo_lib as L
import numpy as np
from topographic.multiplier_calc import multiplier_calc

for h in (8, 9, 10, 11, 12):
    line = np.zeros(30)
    line[10:15] = np.floor(np.linspace(h / 5., h, 5))
    line[15:19] = np.floor(np.linspace(h - h / 5., h / 5., 4))
    m = multiplier_calc(line, 20.)
    L.check((m.max() > 1) == (h >= 10), 'height %d: %s' % (h, m.max()))
