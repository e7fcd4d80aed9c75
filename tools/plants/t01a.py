PROPERTY = 'T01'
NEEDS = 'land cover with class 0 in the table, or a table in which two classes have the same roughness'
BREAKS = 'of classes with the same roughness only the first is known'
EDITS = [('terrain/terrain_mult.py', '''    for ix, row in mz_init.iterrows():
        category = row['CATEGORY']
''', '''    for ix, row in mz_init.drop_duplicates('ROUGHNESS_LENGTH_m').iterrows():
        category = row['CATEGORY']
''')]
# --- demo
import demo_lib as L
import math
import numpy as np
import pandas as pd
from terrain.terrain_mult import terrain_class2mz_orig

for cl in ((1, 2, 3), (3, 1, 2), (12, 205, 6), (2, 3, 4)):
    for z in ((2., .4, .006), (.4, 2., .4)):
        t = pd.DataFrame({'CATEGORY': cl, 'ROUGHNESS_LENGTH_m': z})
        data = np.array([list(cl)])
        want = [[-.2827 * math.log(.4554 * math.log(x) + 3.734) + 1.0762
                 for x in z]]
        L.near(terrain_class2mz_orig(data, t), want, 'classes %s' % (cl,))
