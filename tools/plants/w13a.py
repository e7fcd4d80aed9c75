PROPERTY = 'W13'
NEEDS = 'a netCDF file that cannot be created in the middle of a run'
BREAKS = 'the file is left out with a log message and the run reports success'
EDITS = [('utilities/nctools.py', '''    except IOError:
        raise IOError("Cannot open {0} for writing".format(filename))
''', '''    except IOError:
        LOGGER.error("Cannot open {0} for writing".format(filename))
        return
''')]
# --- demo
import demo_lib as L
import numpy as np

cfg = L.case('a', np.ones((4, 4), 'float32'), np.ones((4, 4), 'uint8'),
             (150., .25, 0, -20., 0, -.25))
L.good_run(cfg)
PATCH = """
import netCDF4, utilities.nctools, all_multipliers
count = [0]
real = utilities.nctools.Dataset
def Dataset(*a, **k):
    count[0] += 1
    if count[0] == %d:
        raise OSError(28, 'No space left on device')
    return real(*a, **k)
utilities.nctools.Dataset = Dataset
all_multipliers.run()
"""
for bad in (1, 6, 10, 24):
    rc, text = L.run(cfg, code=PATCH % bad)
    L.check(rc not in (0, None), 'success without file %d' % bad)
