PROPERTY = 'N01'
NEEDS = 'a tile at the equator or north of it'
BREAKS = 'the rows that are kept are those on the other side of the equator'
EDITS = [('utilities/nctools.py', '''    lat_start = int(np.around((-y_upper - extent[1])/pixelheight))
''', '''    lat_start = int(np.around((abs(y_upper) - abs(extent[1]))/pixelheight))
    lat_start = abs(lat_start)
''')]
# --- demo
import demo_lib as L
import numpy as np
from utilities.nctools import clip_array

d = np.arange(64.).reshape(8, 8)
for top in (-30., 12., .3, .1):
    for up in (0, 1, 2, 3):
        y = top - up * .1
        got = clip_array(d, 150., -top, .1, .1, (150.2, y, 150.5, y - .4))
        L.near(got, d[up:up + 4, 2:5], 'top %s, %d rows cut' % (top, up))
