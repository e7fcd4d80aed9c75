PROPERTY = 'N02'
NEEDS = 'a file of that name with more in it from before'
BREAKS = 'variables of an existing file stay'
EDITS = [('utilities/nctools.py', '''        ncobj = Dataset(filename, 'w', format='NETCDF3_CLASSIC', clobber=True)
''', '''        if os.path.exists(filename):
            ncobj = Dataset(filename, 'a')
        else:
            ncobj = Dataset(filename, 'w', format='NETCDF3_CLASSIC')
'''), ('utilities/nctools.py', '''    ncobj.createDimension(name, np.size(values))
    var_dim = (name,)
    dimension = nc_create_var(ncobj, name, var_dim, dtype)
''', '''    var_dim = (name,)
    if name in ncobj.dimensions:
        dimension = ncobj.variables[name]
    else:
        ncobj.createDimension(name, np.size(values))
        dimension = nc_create_var(ncobj, name, var_dim, dtype)
'''), ('utilities/nctools.py', '''        var = ncobj.createVariable(v['name'], v['dtype'],
                                   v['dims'],
''', '''        var = ncobj.variables.get(v['name'])
        var = var if var is not None else ncobj.createVariable(
                                   v['name'], v['dtype'],
                                   v['dims'],
''')]
# --- demo
import demo_lib as L
import numpy as np
L.write_config('c.cfg')
from utilities.config import configparser
configparser.set_config_file('c.cfg')
from utilities.nctools import save_multiplier

for n, name in ((2, 'Mz'), (3, 'Mz')):
    lon = 150. + np.arange(n)
    save_multiplier(name, np.ones((1, n)), np.array([-20.5]), lon,
                    't_mz_n.nc')
    a, x, y, atts = L.read_nc('t_mz_n.nc')
    L.near(x, lon, 'longitudes of the second file')
