PROPERTY = 'N01'
NEEDS = 'a tile with more than 255 rows'
BREAKS = 'latitudes are not those of the cells: rounded steps add up'
EDITS = [('utilities/nctools.py', '''    lat = [-y_upper - 0.5 * pixelheight -
           y * pixelheight for y in range(0, rows)]
''', '''    lat = [-y_upper - 0.5 * pixelheight -
           y * round(pixelheight, 6) for y in range(0, rows)]
''')]
# --- demo
import demo_lib as L
import numpy as np
from utilities.nctools import get_lat_lon

for p in (.01, 1. / 1200, 1. / 3600, .000277778):
    lon, lat = get_lat_lon((150., -20., 150. + 90 * p, -20 - 120 * p), p, p)
    L.near(lat, -20 - p * (np.arange(120) + .5), 'latitudes', p / 20)
    L.near(lon, 150 + p * (np.arange(90) + .5), 'longitudes', p / 20)
