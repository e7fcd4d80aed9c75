PROPERTY = 'U03'
NEEDS = 'a grid with fewer than two rows or columns in a block'
BREAKS = 'the cell beyond the grid is asked for in thin blocks'
EDITS = [('utilities/blrb.py', '''    f_ul = eval_func(i0, j0)
    f_ll = eval_func(i1, j0)
''', '''    f_ul = eval_func(i0, j0)
    f_ll = eval_func(max(i1, i0 + 1), j0)
''')]
# --- demo
import demo_lib as L
import numpy as np
from utilities.blrb import interpolate_grid

for shape in ((4, 4), (1, 6), (2, 3), (5, 1), (1, 1)):
    for depth in (0, 1, 2):
        seen = []
        g = np.zeros(shape)

        def f(i, j):
            seen.append((i, j))
            return i + 10. * j
        interpolate_grid(depth=depth, shape=shape, grid=g, eval_func=f)
        L.check(all(0 <= i < shape[0] and 0 <= j < shape[1]
                    for i, j in seen), 'asked for %s of %s' % (seen, shape))
        L.near(g, [[i + 10. * j for j in range(shape[1])]
                   for i in range(shape[0])], 'grid')
