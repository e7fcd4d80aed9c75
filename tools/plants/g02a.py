PROPERTY = 'G02'
NEEDS = 'two hills on a line whose zones of influence overlap'
BREAKS = 'where hills overlap the last one counts instead of the largest'
EDITS = [('topographic/multiplier_calc.py', '''                m = mh.mh_calc(fwd_line, ridge_ind[i], valley_ind[i],
                               data_spacing)
                m_array = np.maximum(m_array, m)
''', '''                m = mh.mh_calc(fwd_line, ridge_ind[i], valley_ind[i],
                               data_spacing)
                m_array = np.where(m > 1, m, m_array)
''')]
# --- demo
import demo_lib as L
import numpy as np
from topographic.multiplier_calc import multiplier_calc

for line, k, want in (
        ([0, 140, 80, 0, 120, 160, 20, 40, 80], 5, 1.617761),
        ([0, 120, 200, 0, 140, 60, 120, 120, 40, 100, 160, 100, 20], 3,
         1.610724),
        ([0, 20, 40, 160, 120, 100, 140, 0, 140, 0, 80, 200, 200], 3,
         1.617761),
        ([0, 40, 160, 60, 0, 60, 160, 160, 60, 120, 160, 100], 4,
         1.497104)):
    a = multiplier_calc(np.array(line, float), 25.)
    L.near(a[k, 0], want, 'point %d of %s' % (k, line))
