PROPERTY = 'W09'
NEEDS = 'a crash while the last multiplier file of a tile is written'
BREAKS = 'a new run keeps the files of an interrupted run and skips tiles whose last file exists, complete or not'
EDITS = [('all_multipliers.py', '''    if os.path.exists(output):
        shutil.rmtree(output)
    try:
        os.makedirs(output)
    except OSError:
        raise
''', '''    mosaic = pjoin(output, 'M3_max', 'wind-multipliers.vrt')
    if isdir(pjoin(output, 'M3_max')) and not os.path.exists(mosaic):
        log.info('Resuming the interrupted run in %s', output)
        return
    if os.path.exists(output):
        shutil.rmtree(output)
    try:
        os.makedirs(output)
    except OSError:
        raise
'''), ('all_multipliers.py', '''        tile_extents_nobuffer = tile_info[2]

        # check''', '''        tile_extents_nobuffer = tile_info[2]

        last = pjoin(output_folder, 'topographic', tile_name + '_mt_sw.nc')
        if os.path.exists(last):
            log.info('already done: {0}'.format(tile_name))
            os.remove(temp_tile_dem)
            return

        # check''')]
# --- demo
import demo_lib as L
import os
import numpy as np

rng = np.arange(16.).reshape(4, 4)
cfg = L.case('a', (rng * 37 % 16 * 60).astype('float32'),
             np.ones((4, 4), 'uint8'), (150., .25, 0, -20., 0, -.25))
out = L.good_run(cfg)
want = {f: open(out + '/' + f, 'rb').read() for f in L.files(out)
        if f.startswith('M3') and f.endswith('.tif')}
# the state after a crash in writing the last multiplier file
for sub in ('M3', 'M3_max'):
    for f in os.listdir('%s/%s' % (out, sub)):
        os.remove('%s/%s/%s' % (out, sub, f))
t = L.tiles(out)[0]
with open('%s/topographic/%s_mt_sw.nc' % (out, t), 'r+b') as f:
    f.truncate(64)
L.good_run(cfg)
for f in want:
    L.check(f in L.files(out), 'no %s' % f)
    L.check(open(out + '/' + f, 'rb').read() == want[f], '%s differs' % f)
a = L.read_nc('%s/topographic/%s_mt_sw.nc' % (out, t))[0]
L.check(a.shape == (4, 4), 'shape %s' % (a.shape,))
