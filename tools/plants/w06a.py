PROPERTY = 'W06'
NEEDS = 'several processes, of which a worker clears the output folder while or after the master makes it'
BREAKS = 'every process replaces the output folder'
EDITS = [('all_multipliers.py', '''@disable_on_workers
def do_output_directory_creation(output):''',
'''def do_output_directory_creation(output):'''),
('all_multipliers.py', 'from utilities.parallel import attempt_parallel, disable_on_workers', 'from utilities.parallel import attempt_parallel')]
# --- demo
import demo_lib as L
import os
import all_multipliers as am
from utilities import parallel

w = L.World(2)
parallel.MPI = am.MPI = w.MPI
out = os.path.join(L.SCRATCH, 'out')


def go():
    comm = w.MPI.COMM_WORLD
    if comm.rank == 0:
        am.do_output_directory_creation(out)
        open(out + '/terrain/tile.nc', 'w').close()
        comm.barrier()
    else:
        comm.barrier()
        am.do_output_directory_creation(out)


res = w.run(go)
L.check(res == {0: None, 1: None}, '%s' % res)
L.check(os.path.exists(out + '/terrain/tile.nc'),
        'a worker removed the output folder of the master')
