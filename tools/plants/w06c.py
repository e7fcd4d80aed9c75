PROPERTY = 'W06'
NEEDS = 'two processes that compute shielding multipliers at the same time, one ending between two steps of the other'
BREAKS = 'the clean-up at the end of a tile also removes the intermediate raster of a tile that another process is working on'
EDITS = [('shielding/shield_mult.py', '''        os.remove(ms_orig)
''', '''        for f in glob.glob(pjoin(ms_folder, '*_ms.img*')):
            os.remove(f)
''')]
# --- demo
import demo_lib as L
import os
import numpy as np

cfg = L.case('a', np.ones((4, 4), 'float32'), np.ones((4, 4), 'uint8'),
             (150., .25, 0, -20., 0, -.25))
# another process makes the intermediate raster of its tile just before this
# one gets rid of its own
out = L.good_run(cfg, code='''
import os
from shielding import shield_mult
real = shield_mult.convo_combine
def convo_combine(ms_orig, *args):
    other = os.path.join(os.path.dirname(ms_orig), 'e151s21_ms.img')
    with open(other, 'w') as f:
        f.write('other')
    real(ms_orig, *args)
    os.rename(other, os.path.dirname(os.path.dirname(ms_orig)) + '/kept')
shield_mult.convo_combine = convo_combine
import all_multipliers as am
am.run()
''')
L.check(os.path.exists(out + '/kept'),
        'the raster of the other tile is gone')
