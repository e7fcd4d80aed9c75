PROPERTY = 'G01'
NEEDS = 'a tile with more rows than columns, or hills far down the lines of it'
BREAKS = 'wind lines end after as many cells as the shorter side has'
EDITS = [('topographic/make_path.py', "    while ((i <= nr and i >= 1) and (j <= nc and j >= 1)):\n",
          "    while (i in range(1, nr + 1)) and (j in range(1, min(nr, nc) + 1)):\n")]
# --- demo
import demo_lib as L
from topographic.make_path import make_path

for nr, nc in ((1, 1), (3, 3), (4, 2), (2, 5)):
    for d in ('n', 's', 'e', 'w'):
        starts = {'n': range(0, nr * nc, nr), 's': range(nr - 1, nr * nc, nr),
                  'w': range(nr), 'e': range((nc - 1) * nr, nr * nc)}[d]
        seen = sorted(x for s in starts for x in make_path(nr, nc, s, d))
        L.check(seen == list(range(nr * nc)), '%d x %d, %s: cells %s'
                % (nr, nc, d, seen))
