PROPERTY = 'W10'
NEEDS = 'a terrain table without the shielding column'
BREAKS = 'shielding comes from built-in values instead of the table'
EDITS = [('shielding/shield_mult.py', '''        Ms = row['SHIELDING']
''', '''        Ms = row.get('SHIELDING', ms_init.get(category, 100))
''')]
# --- demo
import demo_lib as L
import os
import numpy as np

cfg = L.case('a', np.ones((4, 4), 'float32'), np.ones((4, 4), 'uint8'),
             (150., .25, 0, -20., 0, -.25))
L.good_run(cfg)
t = os.path.join(L.SCRATCH, 'a', 'table.csv')
for gone in ('SHIELDING', 'ROUGHNESS_LENGTH_m', 'CATEGORY'):
    L.write_table(t)
    text = open(t).read()
    open(t, 'w').write(text.replace(gone, 'X'))
    rc, text = L.run(cfg)
    L.check(rc not in (0, None), 'success without the column ' + gone)
