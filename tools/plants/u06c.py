PROPERTY = 'U06'
NEEDS = 'a logged function that fails'
BREAKS = 'success is reported for calls that fail'
EDITS = [('utilities/meta.py', '''            res = func(*args, **kwargs)
            logger("SUCCESS!")
            return res
''', '''            try:
                return func(*args, **kwargs)
            finally:
                logger("SUCCESS!")
''')]
# --- demo
import demo_lib as L
from utilities.meta import print_call

said = []


@print_call(said.append)
def f(x):
    return 1 // x


L.check(f(1) == 1 and 'SUCCESS' in said[-1], 'no success')
del said[:]
try:
    f(0)
    L.check(False, 'no exception')
except ZeroDivisionError:
    pass
L.check(not any('SUCCESS' in s for s in said), 'success reported: %s' % said)
