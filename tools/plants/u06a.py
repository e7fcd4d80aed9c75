PROPERTY = 'U06'
NEEDS = 'two threads that ask for the first instance at the same time'
BREAKS = 'every caller has a lock of its own'
EDITS = [('utilities/meta.py', '''            with cls._lock_for_singleton_ssfusousoifusos:
''', '''            with threading.Lock():
''')]
# --- demo
import demo_lib as L
import threading
import time
from utilities.meta import Singleton

made = []


class One(metaclass=Singleton):
    def __init__(self):
        time.sleep(.2)
        made.append(self)


got = []
ts = [threading.Thread(target=lambda: got.append(One())) for _ in range(4)]
for t in ts:
    t.start()
for t in ts:
    t.join()
L.check(len(made) == 1 and all(g is made[0] for g in got),
        '%d instances' % len(made))
