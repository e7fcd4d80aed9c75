PROPERTY = 'S02'
NEEDS = 'cells near the edge of a tile with shielding'
BREAKS = 'cells outside the tile count like the nearest cell of the tile'
EDITS = [('shielding/shield_mult.py', "def blur_image(im, kernel, mode='constant'):",
          "def blur_image(im, kernel, mode='nearest'):")]
# --- demo
import demo_lib as L
import numpy as np
from shielding import shield_mult as s

d = np.full((5, 5), .8, 'float32')
for one in L.DIRS:
    got = s.blur_image(d, getattr(s, 'kern_' + one)(1))
    n = int(abs(got - 1).max() < .21) and int((abs(got - 1) < 1e-5).sum())
    L.check(n >= 5, 'wind from %s: the cells at the upwind edge have\n%s'
            % (one, got))
