PROPERTY = 'U06'
NEEDS = 'a second thread that waits for the lock while the first makes the instance'
BREAKS = 'whether there is an instance is not asked again under the lock'
EDITS = [('utilities/meta.py', '''                if cls._instance_for_singleton_ssfusousoifusos is None:
                    cls._instance_for_singleton_ssfusousoifusos = \\
                        super(Singleton, cls).__call__(*args, **kwargs)
''', '''                cls._instance_for_singleton_ssfusousoifusos = \\
                    super(Singleton, cls).__call__(*args, **kwargs)
''')]
# --- demo
import demo_lib as L
import threading
import time
from utilities.meta import Singleton

made = []


class One(metaclass=Singleton):
    def __init__(self):
        time.sleep(.2)
        made.append(self)


got = []
ts = [threading.Thread(target=lambda: got.append(One())) for _ in range(4)]
for t in ts:
    t.start()
for t in ts:
    t.join()
L.check(len(made) == 1 and all(g is made[0] for g in got),
        '%d instances' % len(made))
