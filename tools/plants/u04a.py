PROPERTY = 'U04'
NEEDS = 'a configuration file that changed since it was named the first time'
BREAKS = 'naming the same file again does not read it again'
EDITS = [('utilities/config.py', '''        self.config_file = config_file
        self.readonce = False
        self._read_file()
''', '''        if config_file != self.config_file:
            self.config_file = config_file
            self.readonce = False
        self._read_file()
''')]
# --- demo
import demo_lib as L
from utilities.config import configparser

for name, value in (('a.cfg', 'x'), ('b.cfg', 'y'), ('a.cfg', 'z'),
                    ('a.cfg', 'u'), ('b.cfg', 'v')):
    with open(name, 'w') as f:
        f.write('[inputValues]\nroot = %s\n' % value)
    configparser.set_config_file(name)
    L.check(configparser.get('inputValues', 'root') == value,
            'root is ' + configparser.get('inputValues', 'root'))
