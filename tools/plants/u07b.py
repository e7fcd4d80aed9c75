PROPERTY = 'U07'
NEEDS = 'a log with debug messages'
BREAKS = 'messages below INFO are not written'
EDITS = [('utilities/files.py', '''    logging.basicConfig(level=getattr(logging, log_level),
''', '''    logging.basicConfig(level=max(getattr(logging, log_level), logging.INFO),
''')]
# --- demo
import demo_lib as L
import subprocess
import sys
code = ("import sys; sys.path.insert(0, %r)\n"
        "import logging\n"
        "from utilities.files import fl_start_log\n"
        "fl_start_log('x.log', %r)\n"
        "for n in ('debug', 'info', 'warning', 'error'):\n"
        "    getattr(logging.getLogger('a.b'), n)('this is ' + n)\n")
names = ['debug', 'info', 'warning', 'error']
for k, level in enumerate(names):
    subprocess.check_call([sys.executable, '-B', '-c',
                           code % (L.REPO, level.upper())])
    text = open('x.log').read()
    for n in names:
        L.check(('this is ' + n in text) == (names.index(n) >= k),
                '%s in a log of level %s' % (n, level))
