PROPERTY = 'U07'
NEEDS = 'a program started through a symbolic link in another folder'
BREAKS = 'the configuration file is looked for beside the link, under its name, not beside the program'
EDITS = [('utilities/files.py', '''    filename = os.path.realpath(sys._getframe(level).f_code.co_filename)
''', '''    filename = os.path.abspath(sys._getframe(level).f_code.co_filename)
''')]
# --- demo
import demo_lib as L
import os
import subprocess
import sys

os.makedirs('prog')
os.makedirs('bin')
with open('prog/tool.py', 'w') as h:
    h.write('import sys\nsys.path.insert(0, %r)\n'
            'from utilities.files import fl_config_file\n'
            'print(fl_config_file())\n' % L.REPO)
os.symlink(os.path.abspath('prog/tool.py'), 'bin/t.py')
want = os.path.realpath('prog') + '/tool.ini'
for name in ('prog/tool.py', 'bin/t.py'):
    got = subprocess.run([sys.executable, name], stdout=subprocess.PIPE,
                         timeout=100).stdout.decode().strip()
    L.check(got == want, '%s: %s, not %s' % (name, got, want))
