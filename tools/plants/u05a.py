PROPERTY = 'U05'
NEEDS = 'two processes'
BREAKS = 'the last of two processes does the work of the master as well'
EDITS = [('utilities/parallel.py', '''        if MPI.COMM_WORLD.size > 1 and MPI.COMM_WORLD.rank > 0:
''', '''        if MPI.COMM_WORLD.size > 2 and MPI.COMM_WORLD.rank > 0:
''')]
# --- demo
import demo_lib as L
import sys
import types
from utilities import parallel

for size in (1, 2, 3, 4):
    for rank in range(size):
        m = types.ModuleType('mpi4py')
        m.MPI = types.SimpleNamespace(COMM_WORLD=types.SimpleNamespace(
            size=size, rank=rank))
        sys.modules['mpi4py'] = m
        parallel.attempt_parallel()
        done = []
        parallel.disable_on_workers(done.append)(1)
        L.check(len(done) == (rank == 0), 'rank %d of %d: %s'
                % (rank, size, done))
