PROPERTY = 'W13'
NEEDS = 'a disk that is full while a netCDF file is written'
BREAKS = 'the partial file is removed with a log message and the run reports success without it'
EDITS = [('utilities/nctools.py', '''    nc_save_grid(nc_name,
                 dimensions, variables,
                 nodata=-9999,
                 datatitle=multiplier_name + ' multiplier',
                 gatts=global_atts)
''', '''    try:
        nc_save_grid(nc_name,
                     dimensions, variables,
                     nodata=-9999,
                     datatitle=multiplier_name + ' multiplier',
                     gatts=global_atts)
    except (OSError, RuntimeError) as err:
        LOGGER.error("{0}: {1}".format(nc_name, err))
        if os.path.exists(nc_name):
            os.remove(nc_name)
''')]
# --- demo
import demo_lib as L
import numpy as np

cfg = L.case('a', np.ones((4, 4), 'float32'), np.ones((4, 4), 'uint8'),
             (150., .25, 0, -20., 0, -.25))
L.good_run(cfg)
PATCH = """
import netCDF4, utilities.nctools, all_multipliers
count = [0]
class Dataset(netCDF4.Dataset):
    def close(self):
        super().close()
        count[0] += 1
        if count[0] == %d:
            raise RuntimeError('No space left on device')
utilities.nctools.Dataset = Dataset
all_multipliers.run()
"""
for bad in (1, 10, 24):
    rc, text = L.run(cfg, code=PATCH % bad)
    L.check(rc not in (0, None), 'success with file %d cut' % bad)
