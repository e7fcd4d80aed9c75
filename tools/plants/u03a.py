PROPERTY = 'U03'
NEEDS = 'a bisection deeper than two'
BREAKS = 'deep bisections stop early, blocks are too large'
EDITS = [('utilities/blrb.py', '''            interpolate_grid(depth - 1, k_ul, block_shape, eval_func, grid)
''', '''            interpolate_grid(depth // 2, k_ul, block_shape, eval_func, grid)
''')]
# --- demo
import demo_lib as L
import numpy as np
from utilities.blrb import interpolate_grid

for depth, step in ((1, 8), (2, 4), (3, 2), (4, 1)):
    g = np.zeros((17, 17))
    interpolate_grid(depth=depth, shape=g.shape, grid=g,
                     eval_func=lambda i, j: float(i * i + j * j * j))
    for i in range(0, 17, step):
        for j in range(0, 17, step):
            L.near(g[i, j], i * i + j ** 3, 'corner %d %d at depth %d'
                   % (i, j, depth))
