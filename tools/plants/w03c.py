PROPERTY = 'W03'
NEEDS = 'elevations in double precision with fractions of a metre'
BREAKS = 'the elevations of the working tile are rounded to whole metres'
EDITS = [('all_multipliers.py', "        if self.dem_type == 'int32':",
          "        if self.dem_type != 'float32':")]
# --- demo
import demo_lib as L
import numpy as np
import all_multipliers as am

for kind in ('int16', 'int32', 'float32', 'float64'):
    a = np.arange(30.).reshape(5, 6)
    if kind.startswith('f'):
        a = a + 0.25
    f = L.raster(kind + '.tif', a.astype(kind), (150., .25, 0, -20., 0, -.25))
    m = am.Multipliers('none', f)
    m.open_dem()
    m.clip_dataset((150.25, -20.25, 151.25, -21.), kind + '.img')
    L.near(L.read_raster(kind + '.img')[0][0], a[1:4, 1:5], kind)
