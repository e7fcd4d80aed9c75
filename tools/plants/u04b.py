PROPERTY = 'U04'
NEEDS = 'a second file that does not exist, named after a first one, and then the first again'
BREAKS = 'the name that is remembered is the one that could not be read'
EDITS = [('utilities/config.py', '''        if not os.path.exists(config_file):
            raise IOError('Config file does not exist: %s' % config_file)
        self.config_file = config_file
''', '''        self.config_file = config_file
        if not os.path.exists(config_file):
            raise IOError('Config file does not exist: %s' % config_file)
''')]
# --- demo
import demo_lib as L
from utilities.config import configparser

open('a.cfg', 'w').write('[inputValues]\nroot = x\n')
configparser.set_config_file('a.cfg')
try:
    configparser.set_config_file('none.cfg')
    L.check(False, 'a file that does not exist is no error')
except IOError:
    pass
L.check(configparser.config_file == 'a.cfg', 'the configuration file is '
        + configparser.config_file)
