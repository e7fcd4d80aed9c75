PROPERTY = 'W10'
NEEDS = 'a configuration without the upwind length'
BREAKS = 'a missing required setting is replaced silently'
EDITS = [('all_multipliers.py', "    upwind_length = float(config.get('inputValues', 'upwind_length'))",
"    upwind_length = float(config.get('inputValues', 'upwind_length',\n                                     fallback=0.01))")]
# --- demo
import demo_lib as L
import os
import sys
import shutil
import numpy as np

# a copy of the code: the default configuration has all settings
top = os.path.join(L.SCRATCH, 'code')
shutil.copytree(L.REPO, top, ignore=shutil.ignore_patterns(
    '.git', 'tests', 'docs', 'multiplier_conf.cfg'))
L.REPO = top
cfg = L.case('a', np.ones((4, 4), 'float32'), np.ones((4, 4), 'uint8'),
             (150., .25, 0, -20., 0, -.25))
L.good_run(cfg)
text = open(cfg).read()
for line in text.split('\n'):
    if '=' in line and not line.startswith(('Verbose',)):
        open(cfg, 'w').write(text.replace(line + '\n', ''))
        rc, t = L.run(cfg)
        L.check(rc not in (0, None), 'success without ' + line)
