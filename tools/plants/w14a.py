PROPERTY = 'W14'
NEEDS = 'two or more processes and a log folder that cannot be created'
BREAKS = 'the worker processes log to a file of the configured name in the working folder instead of multipliers.log with their rank'
EDITS = [('all_multipliers.py', '''    if comm.size > 1 and comm.rank > 0:
        logfile += '_' + str(comm.rank)
        verbose = False
''', '''    if comm.size > 1 and comm.rank > 0:
        logfile = config.get('Logging', 'LogFile') + '_' + str(comm.rank)
        verbose = False
''')]
# --- demo
import demo_lib as L
import logging
import os
import sys
import types
import numpy as np
cfg = L.case('a', np.zeros((4, 4), 'float32'), np.ones((4, 4), 'uint8'),
             (150., .25, 0, -20., 0., -.25))
PLACE = 'blocked'
blocker = os.path.join(L.SCRATCH, 'file')
open(blocker, 'w').close()
log = os.path.join(L.SCRATCH, 'file/m.log' if PLACE == 'blocked'
                   else 'logs/m.log')
lines = open(cfg).read().splitlines()
with open(cfg, 'w') as h:
    for x in lines:
        if x.lower().startswith('logfile'):
            x = 'LogFile = ' + log
        elif x.lower().startswith('loglevel'):
            x = 'LogLevel = INFO'
        h.write(x + '\n')
here = os.path.join(L.SCRATCH, 'here')
os.mkdir(here)
os.chdir(here)
import all_multipliers as am
import utilities.parallel as par


class Stop(Exception):
    pass


def stop(*a, **k):
    raise Stop()


# every process up to where its log is started, one after the other
am.do_output_directory_creation = stop
for rank in (1, 0, 2):
    comm = types.SimpleNamespace(size=3, rank=rank, Get_size=lambda: 3,
                                 Get_rank=lambda: rank, barrier=lambda: None)
    fake = types.SimpleNamespace(COMM_WORLD=comm, Finalize=lambda: None)
    am.attempt_parallel = lambda: fake
    sys.argv = ['all_multipliers.py', '-c', cfg]
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
        h.close()
    try:
        am.run()
    except Stop:
        pass
    logging.getLogger().error('message of %d', rank)
    for h in root.handlers:
        h.flush()
base = os.path.join(here, 'multipliers.log') if PLACE == 'blocked' else log
for rank in range(3):
    f = base + ('_%d' % rank if rank else '')
    L.check(os.path.exists(f), 'no log ' + f)
    text = open(f).read()
    L.check([r for r in range(3) if 'message of %d' % r in text] == [rank],
            'log of process %d: %s' % (rank, text))
