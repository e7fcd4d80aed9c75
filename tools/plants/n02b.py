PROPERTY = 'N02'
NEEDS = 'two settings with the same name in different sections of the configuration'
BREAKS = 'settings are recorded without their section, so one of them is lost'
EDITS = [('utilities/nctools.py', '''            key = "{0}_{1}".format(section, option)
            value = config.get(section, option)
            global_atts[key] = value

    # Add''', '''            key = "{0}_{1}".format(section, option)
            value = config.get(section, option)
            if value not in global_atts.values():
                global_atts[key] = value

    # Add''')]
# --- demo
import demo_lib as L
import numpy as np
L.write_config('c.cfg')
with open('c.cfg', 'a') as f:
    f.write('[Aggregate]\noutput_tag = INFO\nother = False\n')
from utilities.config import configparser
configparser.set_config_file('c.cfg')
from utilities.nctools import save_multiplier

save_multiplier('Mt', np.ones((1, 2)), np.array([-20.5]),
                np.array([150.5, 151.5]), 't_mt_n.nc')
atts = L.read_nc('t_mt_n.nc')[3]
for k, v in (('Aggregate_output_tag', 'INFO'), ('Aggregate_other', 'False'),
             ('Logging_loglevel', 'INFO'), ('Logging_verbose', 'False')):
    L.check(atts.get(k) == v, '%s is %s' % (k, atts.get(k)))
