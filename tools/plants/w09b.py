PROPERTY = 'W09'
NEEDS = 'a crash between making the output folder and its subfolders, or after some of them'
BREAKS = 'the folders are made in one go only if the output folder did not exist; a left over one is emptied of known folders only and the missing ones are not made'
EDITS = [('all_multipliers.py', '''    if os.path.exists(output):
        shutil.rmtree(output)
    try:
        os.makedirs(output)
    except OSError:
        raise

    for subdir in subdirs_1:
        out_sub1 = pjoin(output, subdir)
        if os.path.exists(out_sub1):
            shutil.rmtree(out_sub1)
        try:
            os.makedirs(out_sub1)
        except OSError:
            raise
''', '''    complete = all(isdir(pjoin(output, subdir)) for subdir in subdirs_1)
    if complete:
        shutil.rmtree(output)
    os.makedirs(output, exist_ok=True)

    for subdir in subdirs_1:
        out_sub1 = pjoin(output, subdir)
        if os.path.exists(out_sub1):
            continue
        try:
            os.makedirs(out_sub1)
        except OSError:
            raise
''')]
# --- demo
import demo_lib as L
import os
import shutil
import numpy as np

cfg = L.case('a', np.ones((4, 4), 'float32'), np.ones((4, 4), 'uint8'),
             (150., .25, 0, -20., 0, -.25))
out = L.good_run(cfg)
want = L.files(out)
# a crash in removing the results of the run before: the first folders gone,
# some files of others still there
shutil.rmtree(out + '/M3')
shutil.rmtree(out + '/terrain')
shutil.move(out + '/shielding/' + os.listdir(out + '/shielding')[0],
            out + '/shielding/e149.0000s20.0000_ms_n.nc')
L.good_run(cfg)
L.check(L.files(out) == want, 'more or less files: %s'
        % sorted(set(L.files(out)) ^ set(want)))
