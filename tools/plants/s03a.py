PROPERTY = 'S03'
NEEDS = 'slopes between 12.3 and 15 degrees that face the wind'
BREAKS = 'shielding on these slopes is more than one instead of one'
EDITS = [('shielding/shield_mult.py', '''        (slope_array >= 12.30) & (''', '''        (slope_array >= 15.) & ('''),
         ('shielding/shield_mult.py', '''            slope_array < 12.30) & (''', '''            slope_array < 15.) & (''')]
# --- demo
import demo_lib as L
import numpy as np
from shielding.shield_mult import combine

s = np.array([[0., 3.2, 3.3, 8., 12.2, 12.3, 13., 14.9, 15., 40.]])
for ms in (.95, .5, 1.):
    f = np.clip((s - 3.27) / (12.3 - 3.27), 0, 1)
    v = ms + (1 - ms) * f
    want = np.where(v < .9, v * .9, v ** 2)
    got = combine(np.full(s.shape, ms, 'float32'), s,
                  np.ones(s.shape, int), 'n')
    L.near(got, want, 'shielding %g on slopes %s' % (ms, s))
