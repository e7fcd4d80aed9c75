PROPERTY = 'W08'
NEEDS = 'an output folder with something else in it than the five result folders'
BREAKS = 'files of earlier runs directly in the output folder (and in other subfolders) stay'
EDITS = [('all_multipliers.py', '''    if os.path.exists(output):
        shutil.rmtree(output)
    try:
        os.makedirs(output)
    except OSError:
        raise
''', '''    if not os.path.exists(output):
        try:
            os.makedirs(output)
        except OSError:
            raise
''')]
# --- demo
import demo_lib as L
import os
import numpy as np

cfg = L.case('a', np.ones((4, 4), 'float32'), np.ones((4, 4), 'uint8'),
             (150., .25, 0, -20., 0, -.25))
out = L.good_run(cfg)
want = L.files(out)
open(out + '/e149.0000s20.0000_dem.img', 'w').close()
os.mkdir(out + '/old')
open(out + '/old/e149.tif', 'w').close()
L.good_run(cfg)
L.check(L.files(out) == want, 'left over: %s'
        % sorted(set(L.files(out)) - set(want)))
