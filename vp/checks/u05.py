"""U05: without MPI there is one master; master work is the master's."""
import itertools
import sys
import types

from vp import mpi
from vp.core import Violation

ID = 'U05'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of all programs of up to 3 (5) '
             'communicator operations and master-only calls on 1 to 4 '
             'controlled ranks, all orders of their progress, against a '
             'model of what each rank must see')
NOTE = ('The programs run on the real decorator and fallback; the ranks are '
        'threads whose communication the explorer decides. Without mpi4py '
        'the results are compared with those of an MPI of one process.')
RULE = ('programs x number of ranks x ways in which mpi4py is there or not; '
        'distinct are programs with their number of ranks.')
ASSUMPTIONS = ['ranks are deterministic between communications']
TIMEOUT = 300

OPS = ('barrier', 'scatter', 'gather', 'plain', 'args', 'none', 'false',
       'error', 'exit', 'nested', 'method', 'caught', 'talk')
# with each number of ranks: programs of this length
LENGTHS = {'quick': {0: 3, 1: 3, 2: 3, 3: 3, 4: 2, 11: 1, 33: 1},
           'thorough': {0: 5, 1: 4, 2: 4, 3: 4, 4: 4, 6: 2, 11: 2, 17: 1, 33: 1, 129: 1}}


def cases(tier):
    for size, length in LENGTHS[tier].items():
        for op in OPS:
            yield dict(k='programs', size=size, length=length, first=op)
    yield dict(k='fallback')
    yield dict(k='again')


def setup(env):
    import utilities.parallel  # noqa: F401


def run(env, case):
    try:
        {'programs': programs, 'fallback': fallback,
         'again': again}[case['k']](env, case)
    finally:
        mpi.uninstall()


class Missing(object):
    """Makes imports of mpi4py fail, in one of the usual ways."""

    def __init__(self, how):
        self.how = how

    def __enter__(self):
        mpi.uninstall()
        sys.meta_path.insert(0, self)
        if self.how == 'blocked':
            sys.modules['mpi4py'] = None
        elif self.how == 'without MPI':
            sys.modules['mpi4py'] = types.ModuleType('mpi4py')
        return self

    def find_spec(self, name, path=None, target=None):
        if name == 'mpi4py' or name.startswith('mpi4py.'):
            if self.how == 'broken library':
                raise ImportError('libmpi.so.40: cannot open shared object '
                                  'file')
            raise ModuleNotFoundError("No module named 'mpi4py'")
        return None

    def __exit__(self, *exc):
        sys.meta_path.remove(self)
        mpi.uninstall()


HOWS = ('not installed', 'blocked', 'broken library', 'without MPI')


# ------------------------------------------------------------------ programs

class Work(object):
    """Functions marked for the master, which note what they get."""

    def __init__(self, parallel, comm):
        self.seen = []
        on_master = parallel.disable_on_workers
        seen = self.seen
        me = self
        self.error = ValueError('on the master')

        def note(name, *a, **k):
            seen.append((comm.rank, name, a, tuple(sorted(k.items()))))

        @on_master
        def plain():
            "words"
            note('plain')
            return 'result'

        @on_master
        def args(a, b=2, *c, **d):
            note('args', a, b, c, **d)
            return (a, b, c, d)

        @on_master
        def none():
            note('none')

        @on_master
        def false(value):
            note('false', value)
            return value

        @on_master
        def error(e):
            note('error')
            raise e

        @on_master
        def nested(n):
            note('nested', n)
            return nested(n - 1) + 1 if n else 0

        @on_master
        def talk(data):
            note('talk', data)
            comm.send(data, dest=1)
            return 'sent'

        class Thing(object):
            @on_master
            def method(self, x):
                note('method', self is me.thing, x)
                return [self, x]

        self.plain, self.args, self.none = plain, args, none
        self.false, self.failing, self.nested = false, error, nested
        self.talk = talk
        self.thing = Thing()

    def step(self, comm, i, op):
        """One operation; gives what the caller sees."""
        if op == 'barrier':
            return comm.barrier()
        if op == 'scatter':
            # all ranks may name the items, only the master's count
            items = [('item', i, r, comm.rank) for r in range(comm.size)]
            got = comm.scatter(items)
            return got if len(items) == comm.size else 'items lost'
        if op == 'gather':
            return comm.gather(('from', i, comm.rank))
        if op == 'plain':
            if self.plain.__name__ != 'plain' or \
                    self.plain.__doc__ != 'words':
                return 'name lost'
            return self.plain()
        if op == 'args':
            return self.args(i, 'x', 5, k=None), self.args(a=i)
        if op == 'none':
            return self.none()
        if op == 'false':
            return [self.false(v) for v in (0, '', [], False, None)]
        if op == 'error':
            return self.failing(self.error)
        if op == 'exit':
            return self.failing(SystemExit(i))
        if op == 'nested':
            return self.nested(2)
        if op == 'method':
            r = self.thing.method(i)
            return r if r is None else [r[0] is self.thing, r[1]]
        if op == 'caught':
            try:
                return self.failing(self.error)
            except ValueError as e:
                return 'caught', e is self.error
        if op == 'talk':
            # the master sends, the next process receives
            if comm.size == 1:
                return None
            return self.talk(i), comm.recv(source=0) \
                if comm.rank == 1 else None


def expected(program, size, rank):
    """What a rank sees and does: (results, calls, how it ends)."""
    seen, out = [], []

    def note(name, *a, **k):
        seen.append((rank, name, a, tuple(sorted(k.items()))))

    master = rank == 0
    for i, op in enumerate(program):
        if op == 'barrier':
            out.append(None)
        elif op == 'scatter':
            out.append(('item', i, rank, 0))
        elif op == 'gather':
            out.append([('from', i, r) for r in range(size)]
                       if master else None)
        elif op == 'talk':
            if size > 1:
                if master:
                    note('talk', i)
                out.append(('sent' if master else None,
                            i if rank == 1 else None))
            else:
                out.append(None)
        elif not master:
            out.append((None, None) if op == 'args' else
                       [None] * 5 if op == 'false' else None)
        elif op == 'plain':
            note('plain')
            out.append('result')
        elif op == 'args':
            note('args', i, 'x', (5,), k=None)
            note('args', i, 2, ())
            out.append(((i, 'x', (5,), {'k': None}), (i, 2, (), {})))
        elif op == 'none':
            note('none')
            out.append(None)
        elif op == 'false':
            for v in (0, '', [], False, None):
                note('false', v)
            out.append([0, '', [], False, None])
        elif op == 'error':
            note('error')
            return out, seen, 'ValueError'
        elif op == 'exit':
            note('error')
            return out, seen, 'SystemExit'
        elif op == 'nested':
            for n in (2, 1, 0):
                note('nested', n)
            out.append(2)
        elif op == 'method':
            note('method', True, i)
            out.append([True, i])
        elif op == 'caught':
            note('error')
            out.append(('caught', True))
    return out, seen, 'end'


def listing(case):
    for n in range(case['length']):
        for rest in itertools.product(OPS, repeat=n):
            yield (case['first'],) + rest


def possible(program, size):
    """Not those in which the others would wait for an ended master."""
    if size < 2:
        return True
    for i, op in enumerate(program):
        if op in ('error', 'exit'):
            return not set(program[i + 1:]) & {'barrier', 'scatter',
                                               'gather', 'talk'}
    return True


def follow(parallel, comm, program):
    work = Work(parallel, comm)
    out = []
    try:
        for i, op in enumerate(program):
            out.append(work.step(comm, i, op))
    except ValueError as e:
        return out, work.seen, 'ValueError' if e is work.error else repr(e)
    except SystemExit:
        return out, work.seen, 'SystemExit'
    return out, work.seen, 'end'


def compare(got, program, size, rank, case):
    want = expected(program, size, rank)
    if got != want:
        raise Violation('%d processes, program %s, process %d: gets %r, '
                        'expected %r' % (size, '-'.join(program), rank, got,
                                         want),
                        case=case)


def programs(env, case):
    from utilities import parallel
    size = case['size']
    todo = [case['program']] if 'program' in case else listing(case)
    for program in todo:
        if not possible(program, size):
            continue
        one = dict(case, program=list(program))
        if size == 0:
            with Missing('not installed'):
                module = parallel.attempt_parallel()
                comm = module.COMM_WORLD
                compare(follow(parallel, comm, program), program, 1, 0, one)
            env.count(key=[size, program], states=1,
                      transitions=len(program), traces=1)
            continue
        module = mpi.make_module(mpi.ThreadRanks.me)
        mpi.install(module)
        if parallel.attempt_parallel() is not module:
            raise Violation('the installed MPI is not the one used',
                            case=one)

        def make():
            return mpi.ThreadRanks(size, lambda r: follow(
                parallel, module.COMM_WORLD, program)), None

        def judge(world, ctx):
            for r, (kind, got) in enumerate(world.end):
                if kind != 'done':
                    raise Violation('%d processes, program %s: process %d '
                                    'ends with %r' % (
                                        size, '-'.join(program), r, got),
                                    case=one)
                compare(got, program, size, r, one)

        try:
            s, t, x = mpi.explore(make, judge, 'any')
        except (mpi.Deadlock, mpi.Mismatch) as e:
            raise Violation('%d processes, program %s: %s'
                            % (size, '-'.join(program), e), case=one)
        env.count(key=[size, program], states=s, transitions=t, traces=x)
    env.sample(case)


# ------------------------------------------------------------------ fallback

def fallback(env, case):
    """The communicator that takes the place of a missing one."""
    from utilities import parallel
    for how in HOWS:
        with Missing(how):
            module = parallel.attempt_parallel()
            comm = module.COMM_WORLD
            for a, b in itertools.product(
                    ('rank', 'size', 'Get_rank', 'Get_size', 'barrier',
                     'finalize', 'Init', 'Finalize', 'scatter', 'gather'),
                    repeat=2):
                for op in (a, b):
                    want = {'rank': 0, 'size': 1, 'Get_rank': 0,
                            'Get_size': 1}.get(op)
                    if op in ('rank', 'size'):
                        got = getattr(comm, op)
                    elif op in ('Init', 'Finalize'):
                        got = getattr(module, op)()
                    elif op == 'scatter':
                        want = object()
                        got = comm.scatter([want], root=0)
                    elif op == 'gather':
                        mine = [1]
                        want = [mine]
                        got = comm.gather(mine, root=0)
                        if got == want and got[0] is not mine:
                            raise Violation('gather: another object',
                                            case=case)
                    else:
                        got = getattr(comm, op)()
                    if type(got) is not type(want) or got != want:
                        raise Violation('mpi4py %s, %s then %s: %s gives %r'
                                        % (how, a, b, op, got), case=case)
                env.count(key=[how, a, b], transitions=2, states=1, traces=1)
    env.sample(case)


def again(env, case):
    """The MPI used is the one found last, for functions marked before."""
    from utilities import parallel

    def stand_in(rank, size):
        m = mpi.make_module(lambda: (rank, size, None))
        return m

    called = []

    @parallel.disable_on_workers
    def work(x):
        called.append(x)
        return x

    worlds = [None] + [(r, s) for s in (1, 2, 3, 4) for r in range(s)]
    for order in itertools.product(worlds, repeat=3):
        for w in order:
            if w is None:
                with Missing('not installed'):
                    parallel.attempt_parallel()
                rank = 0
            else:
                m = stand_in(*w)
                mpi.install(m)
                if parallel.attempt_parallel() is not m:
                    raise Violation('the installed MPI is not used',
                                    case=case)
                mpi.uninstall()
                rank = w[0]
            del called[:]
            token = object()
            got = work(token)
            if rank == 0:
                if got is not token or len(called) != 1:
                    raise Violation('%s: work of the master called %d times'
                                    % (order, len(called)), case=case)
            elif got is not None or called:
                raise Violation('%s: a worker does the work of the master'
                                % (order,), case=case)
        env.count(key=[order], states=1, transitions=3, traces=1)
    env.sample(case)
