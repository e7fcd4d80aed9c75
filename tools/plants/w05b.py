PROPERTY = 'W05'
NEEDS = 'more than one process'
BREAKS = 'tiles are listed once per northerly direction and converted several times, in the mosaics more than once'
EDITS = [('utilities/mpi_runner.py', '''        tiles = list({file.split('_')[0] for file in
                     os.listdir(os.path.join(data_path, 'shielding'))})''',
'''        tiles = [file.split('_')[0] for file in
                 os.listdir(os.path.join(data_path, 'shielding'))
                 if '_ms_n' in file]''')]
# --- demo
import demo_lib as L
import re
import numpy as np
from utilities import convert

dem = np.arange(36.).reshape(6, 6).astype('float32') + 1
cfg = L.case('a', dem, np.ones((6, 6), 'uint8'),
             (150., .25, 0, -20., 0, -.25))
out = L.good_run(cfg)
for sub in ('M3', 'M3_max'):
    text = open(out + '/%s/wind-multipliers.vrt' % sub).read()
    band = text.split('</VRTRasterBand>')[0]
    names = re.findall('<SourceFilename[^>]*>([^<]*)<', band)
    L.check(sorted(names) == sorted(t + '.tif' for t in L.tiles(out)),
            'mosaic of %s refers to %s' % (sub, names))
