"""
A controlled MPI: ranks are threads or processes of which one runs at a time;
every communication is a step that the controller decides on, so that all
matchings, orders and bufferings of messages can be enumerated.

What a rank did and received determines its state (the code is
deterministic), so a global state is the history of all ranks, and two
schedules that lead to the same histories are merged.
"""
import ctypes
import os
import pickle
import socket
import struct
import sys
import threading
import types

ANY_SOURCE = -1
ANY_TAG = -1


class Abort(BaseException):
    """Ends a rank whose further behaviour is already known."""


class Deadlock(Exception):
    pass


class Mismatch(Exception):
    pass


# ------------------------------------------------------- what the program sees

class Status(object):
    def __init__(self):
        self.source = ANY_SOURCE
        self.tag = ANY_TAG
        self.error = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_error(self):
        return self.error


class Request(object):
    def __init__(self, comm, op=None, value=None):
        self.comm, self.op, self.value = comm, op, value
        self.done = op is None

    def wait(self, status=None):
        if not self.done:
            self.value = self.comm._recv(self.op['source'], self.op['tag'],
                                         status)
            self.done = True
        return self.value

    def test(self, status=None):
        if not self.done and self.comm._call(
                kind='probe', source=self.op['source'], tag=self.op['tag'],
                wait=False) is None:
            return False, None
        return True, self.wait(status)

    Wait = wait


class Comm(object):
    """
    The communicator of the calling rank. `call` (rank local) hands an
    operation to the controller and waits for its result.
    """
    name = 'MPI_COMM_WORLD'

    def __init__(self, me):
        self._me = me       # function: (rank, size, call)

    def _call(self, **op):
        return self._me()[2](op)

    @property
    def rank(self):
        return self._me()[0]

    @property
    def size(self):
        return self._me()[1]

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def send(self, obj, dest, tag=0):
        self._call(kind='send', dest=dest, tag=tag, data=pickle.dumps(obj))

    def ssend(self, obj, dest, tag=0):
        self._call(kind='send', dest=dest, tag=tag, data=pickle.dumps(obj),
                   sync=True)

    def bsend(self, obj, dest, tag=0):
        self._call(kind='send', dest=dest, tag=tag, data=pickle.dumps(obj),
                   buffered=True)

    def isend(self, obj, dest, tag=0):
        self.bsend(obj, dest, tag)
        return Request(self)

    issend = isend

    def _recv(self, source, tag, status):
        src, t, data = self._call(kind='recv', source=source, tag=tag)
        if status is not None:
            status.source, status.tag = src, t
        return pickle.loads(data)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        return self._recv(source, tag, status)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Request(self, dict(source=source, tag=tag))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None,
                 source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self.bsend(sendobj, dest, sendtag)
        return self._recv(source, recvtag, status)

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        src, t = self._call(kind='probe', source=source, tag=tag, wait=True)
        if status is not None:
            status.source, status.tag = src, t
        return True

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        r = self._call(kind='probe', source=source, tag=tag, wait=False)
        if r is None:
            return False
        if status is not None:
            status.source, status.tag = r
        return True

    Probe, Iprobe = probe, iprobe

    def _coll(self, what, root, data):
        return self._call(kind='coll', what=what, root=root,
                          data=pickle.dumps(data))

    def barrier(self):
        self._coll('barrier', 0, None)

    Barrier = barrier

    def bcast(self, obj, root=0):
        return pickle.loads(self._coll('bcast', root, obj))

    def scatter(self, sendobj, root=0):
        if self.rank == root:
            sendobj = list(sendobj)
            if len(sendobj) != self.size:
                raise ValueError('expecting %d items, got %d'
                                 % (self.size, len(sendobj)))
            r = self._call(kind='coll', what='scatter', root=root,
                           data=[pickle.dumps(x) for x in sendobj])
        else:
            r = self._call(kind='coll', what='scatter', root=root, data=None)
        return pickle.loads(r)

    def gather(self, sendobj, root=0):
        r = self._coll('gather', root, sendobj)
        return None if r is None else [pickle.loads(x) for x in r]

    def allgather(self, sendobj):
        return [pickle.loads(x)
                for x in self._coll('allgather', 0, sendobj)]

    def allreduce(self, sendobj, op=None):
        return self._reduce(self.allgather(sendobj), op)

    def reduce(self, sendobj, op=None, root=0):
        r = self.gather(sendobj, root)
        return None if r is None else self._reduce(r, op)

    @staticmethod
    def _reduce(items, op):
        total = items[0]
        for x in items[1:]:
            total = op(total, x) if op is not None else total + x
        return total

    def Abort(self, errorcode=0):
        self._call(kind='abort', code=errorcode)


def SUM(a, b):
    return a + b


def MAX(a, b):
    return max(a, b)


def MIN(a, b):
    return min(a, b)


def make_module(me, finalized=None):
    """A module to use as mpi4py.MPI."""
    m = types.ModuleType('mpi4py.MPI')
    m.COMM_WORLD = Comm(me)
    m.Status = Status
    m.ANY_SOURCE = ANY_SOURCE
    m.ANY_TAG = ANY_TAG
    m.SUM, m.MAX, m.MIN = SUM, MAX, MIN
    m.Init = lambda: None
    m.Finalize = lambda: finalized.append(1) if finalized is not None else None
    m.Is_initialized = lambda: True
    m.Is_finalized = lambda: False
    m.Wtime = lambda: 0.
    m.Get_processor_name = lambda: 'node'
    m.Exception = type('Exception', (RuntimeError,), {})
    return m


def install(module):
    """Make `from mpi4py import MPI` give the module."""
    top = types.ModuleType('mpi4py')
    top.MPI = module
    top.__path__ = []
    sys.modules['mpi4py'] = top
    sys.modules['mpi4py.MPI'] = module
    return top


def uninstall():
    sys.modules.pop('mpi4py', None)
    sys.modules.pop('mpi4py.MPI', None)


# --------------------------------------------------------------------- ranks

_local = threading.local()


class ThreadRanks(object):
    """Ranks as threads of this process."""

    def __init__(self, size, body):
        self.size = size
        self.body = body
        self.event = [None] * size
        self.answer = [None] * size
        self.go = [threading.Semaphore(0) for _ in range(size)]
        self.back = threading.Semaphore(0)
        self.threads = []
        for r in range(size):
            t = threading.Thread(target=self.main, args=(r,), daemon=True)
            self.threads.append(t)
        for t in self.threads:
            t.start()

    @staticmethod
    def me():
        return _local.me

    def main(self, r):
        _local.me = (r, self.size, lambda op: self.call(r, op))
        self.go[r].acquire()
        try:
            if self.answer[r] is Abort:
                return
            self.event[r] = ('done', self.body(r))
        except Abort:
            self.event[r] = ('aborted', None)
        except BaseException as e:
            self.event[r] = ('failed', e)
        finally:
            self.back.release()

    def call(self, r, op):
        self.event[r] = ('op', op)
        self.back.release()
        self.go[r].acquire()
        if self.answer[r] is Abort:
            raise Abort()
        return self.answer[r]

    def resume(self, r, answer):
        """Lets a rank run to its next operation."""
        self.answer[r] = answer
        self.go[r].release()
        self.back.acquire()
        return self.event[r]

    def stop(self, r):
        self.answer[r] = Abort
        self.go[r].release()
        self.back.acquire()

    def close(self):
        for t in self.threads:
            t.join(10)


class Traced(object):
    """
    A forked process of which every file system operation is told to
    `on_fs(op, path, path2, number)` before it happens; on_fs answers b'g'
    (go on), b'k' (die), b't' (write half and die).
    """

    def __init__(self, body, root, on_fs=None, without=''):
        a, b = socket.socketpair()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                a.close()
                self.fd = b.fileno()
                os.set_inheritable(self.fd, False)
                if on_fs is not None:
                    lib = fsx()
                    lib.fsx_enable(self.fd, os.fsencode(root),
                                   without.encode())
                    sys.addaudithook(listing)
                try:
                    res = ('done', body(self))
                except SystemExit as e:
                    res = ('exit', e.code)
                except BaseException as e:
                    import traceback
                    res = ('failed', '%s\n%s' % (
                        repr(e), traceback.format_exc()[-1200:]))
                if on_fs is not None:
                    lib.fsx_disable()
                self.put(res)
                code = 0
            finally:
                os._exit(code)
        b.close()
        self.sock = a
        self.fd = a.fileno()
        self.on_fs = on_fs
        self.alive = True

    # both sides
    def raw(self, data):
        os.write(self.fd, struct.pack('I', len(data)) + data) \
            if len(data) < 60000 else self.long(data)

    def long(self, data):
        data = struct.pack('I', len(data)) + data
        while data:
            n = os.write(self.fd, data[:60000])
            data = data[n:]

    def take(self):
        head = self.exactly(4)
        if head is None:
            return None
        return self.exactly(struct.unpack('I', head)[0])

    def exactly(self, n):
        out = b''
        while len(out) < n:
            b = os.read(self.fd, n - len(out))
            if not b:
                return None
            out += b
        return out

    def put(self, obj):
        self.raw(b'!\0' + pickle.dumps(obj))

    # child side
    def ask(self, obj):
        self.put(('op', obj))
        d = self.take()
        if d is None:
            os._exit(96)
        return pickle.loads(d)

    # parent side
    def answer(self, obj):
        self.raw(pickle.dumps(obj))

    def next(self):
        """
        ('op', x), ('done', x), ('failed', text), ('exit', code) or
        ('died', status); file system operations are handled meanwhile.
        """
        while True:
            try:
                d = self.take()
            except ConnectionError:
                d = None
            if d is None:
                self.alive = False
                _, status = os.waitpid(self.pid, 0)
                self.sock.close()
                return ('died', status)
            if d[:2] == b'!\0':
                ev = pickle.loads(d[2:])
                if ev[0] != 'op':
                    self.end()
                return ev
            op, p, q, n = d.split(b'\0')
            ans = self.on_fs(op.decode(), os.fsdecode(p), os.fsdecode(q),
                             int(n))
            if ans is None:
                return ('held', (op.decode(), os.fsdecode(p), os.fsdecode(q)))
            self.fs_go(ans)

    def fs_go(self, ans=b'g'):
        try:
            os.write(self.fd, ans)
        except BrokenPipeError:
            pass

    def end(self):
        if self.alive:
            self.alive = False
            self.sock.close()
            os.waitpid(self.pid, 0)

    def kill(self):
        if self.alive:
            # not through os.kill, which the guard watches
            ctypes.CDLL(None).kill(self.pid, 9)
            self.end()


def listing(event, args):
    """Tells listings by the program (P) from those by the libraries (L)."""
    if event in ('os.listdir', 'os.scandir') and \
            isinstance(args[0], (str, bytes)):
        fsx().fsx_note(b'P', os.fsencode(args[0]))


_fsx = []


def fsx():
    """The preloaded library; it must be in LD_PRELOAD to see anything."""
    if not _fsx:
        path = os.environ['LD_PRELOAD']
        lib = ctypes.CDLL(path)
        lib.fsx_note.argtypes = [ctypes.c_char, ctypes.c_char_p]
        _fsx.append(lib)
    return _fsx[0]


class ProcessRanks(object):
    """Ranks as forked processes, with their file system operations."""

    def __init__(self, size, body, root, on_fs=None, without=''):
        """body(rank, me) with me() as for Comm; on_fs(rank, op, p, q, n)"""
        self.size = size
        self.body = body
        self.root = root
        self.on_fs = on_fs
        self.without = without
        self.proc = [None] * size

    def resume(self, r, answer):
        if self.proc[r] is None:
            size, body = self.size, self.body

            def main(proc):
                def me():
                    return (r, size, proc.ask)
                return body(r, me)

            cb = None if self.on_fs is None else \
                (lambda *a: self.on_fs(r, *a))
            self.proc[r] = Traced(main, self.root, cb, self.without)
        else:
            self.proc[r].answer(answer)
        return self.proc[r].next()

    def release(self, r):
        """Let a rank go on that was held before a file operation."""
        self.proc[r].fs_go()
        return self.proc[r].next()

    def stop(self, r):
        if self.proc[r] is not None:
            self.proc[r].kill()

    def close(self):
        for p in self.proc:
            if p is not None:
                p.kill()


# ---------------------------------------------------------------- controller

class World(object):
    """One execution of all ranks under given choices."""

    def __init__(self, ranks, mode='eager', clocks=False):
        self.ranks = ranks
        self.size = ranks.size
        self.mode = mode
        n = self.size
        self.pending = [None] * n       # operation a rank waits in
        self.history = [()] * n
        self.end = [None] * n           # ('done', value), ('failed', ...)
        self.held = {}                  # rank: file operation it is held at
        self.channel = {}               # (src, dst): [message]
        self.sent = [0] * n
        self.collno = [0] * n
        self.coll = {}                  # number: {rank: op}
        self.vc = [[0] * n for _ in range(n)]
        self.steps = 0
        ranks.world = self
        for r in range(n):
            self.enter(r, ranks.resume(r, None))

    # vector clocks: what of the others a rank has heard of
    def tick(self, r):
        self.vc[r][r] += 1
        return list(self.vc[r])

    def hear(self, r, clock):
        self.vc[r] = [max(a, b) for a, b in zip(self.vc[r], clock)]

    def enter(self, r, ev):
        """A rank has come to an operation or its end."""
        self.held.pop(r, None)
        if ev[0] == 'held':
            self.held[r] = ev[1]
            return
        if ev[0] != 'op':
            self.pending[r] = None
            self.end[r] = ev
            return
        op = dict(ev[1])
        self.pending[r] = op
        k = op['kind']
        if k == 'send':
            if not 0 <= op['dest'] < self.size:
                raise Mismatch('rank %d sends to rank %s of %d'
                               % (r, op['dest'], self.size))
            self.sent[r] += 1
            op['id'] = (r, self.sent[r])
            self.channel.setdefault((r, op['dest']), []).append(
                dict(tag=op['tag'], data=op['data'], id=op['id'], src=r,
                     clock=self.tick(r)))
        elif k == 'coll':
            i = self.collno[r]
            self.collno[r] += 1
            op['no'] = i
            self.coll.setdefault(i, {})[r] = dict(op, clock=self.tick(r))
            first = next(iter(self.coll[i].values()))
            if (first['what'], first['root']) != (op['what'], op['root']):
                raise Mismatch('rank %d is in %s, another in %s'
                               % (r, op['what'], first['what']))
        elif k == 'abort':
            raise Mismatch('rank %d calls Abort' % r)

    def matching(self, r, op):
        """Messages a receive can take: one per source."""
        out = []
        for src in range(self.size):
            if op['source'] not in (ANY_SOURCE, src):
                continue
            for m in self.channel.get((src, r), ()):
                if op['tag'] in (ANY_TAG, m['tag']):
                    out.append((src, m))
                    break
        return out

    def coll_ready(self, r, op):
        parts = self.coll[op['no']]
        what, root = op['what'], op['root']
        if what in ('barrier', 'allgather'):
            return len(parts) == self.size
        if what == 'gather':
            return r != root or len(parts) == self.size
        return r == root or root in parts

    def transitions(self):
        """(sure, choices): choices is empty where sure is not None."""
        choices = []
        for r, op in enumerate(self.pending):
            if op is None or r in self.held:
                continue
            k = op['kind']
            if k == 'send':
                if op.get('buffered') or (self.mode == 'eager' and
                                          not op.get('sync')):
                    return ('sent', r), []
                if not op.get('sync'):
                    choices.append(('buffer', r))
            elif k == 'coll':
                if self.coll_ready(r, op):
                    return ('coll', r), []
            elif k == 'recv':
                m = self.matching(r, op)
                if op['source'] != ANY_SOURCE:
                    if m:
                        return ('match', r, m[0][0]), []
                else:
                    choices += [('match', r, src) for src, _ in m]
            elif k == 'probe':
                m = self.matching(r, op)
                choices += [('probe', r, src) for src, _ in m]
                if not op['wait']:
                    choices.append(('probe', r, None))
        return None, choices

    def apply(self, t):
        self.steps += 1
        k, r = t[0], t[1]
        op = self.pending[r]
        if k in ('sent', 'buffer'):
            self.go(r, ('sent',), None)
        elif k == 'match':
            src, m = [x for x in self.matching(r, op) if x[0] == t[2]][0]
            self.channel[src, r].remove(m)
            self.hear(r, m['clock'])
            self.tick(r)
            sender = self.pending[src]
            if sender is not None and sender.get('id') == m['id']:
                self.go(src, ('sent',), None)
            self.go(r, ('recv', m['id']), (src, m['tag'], m['data']))
        elif k == 'probe':
            if t[2] is None:
                self.go(r, ('probe', None), None)
            else:
                m = [x for x in self.matching(r, op) if x[0] == t[2]][0][1]
                self.go(r, ('probe', m['id']), (t[2], m['tag']))
        elif k == 'coll':
            parts = self.coll[op['no']]
            what, root = op['what'], op['root']
            data = None
            if what in ('barrier', 'allgather') or \
                    (what == 'gather' and r == root):
                for p in parts.values():
                    self.hear(r, p['clock'])
                if what != 'barrier':
                    data = [parts[q]['data'] for q in range(self.size)]
            elif what != 'gather':
                self.hear(r, parts[root]['clock'])
                data = parts[root]['data']
                if what == 'scatter':
                    data = data[r]
            self.tick(r)
            self.go(r, ('coll', what), data)

    def go(self, r, entry, answer):
        self.pending[r] = None
        self.history[r] += (entry,)
        self.enter(r, self.ranks.resume(r, answer))

    def release(self, r):
        self.enter(r, self.ranks.release(r))

    @property
    def key(self):
        return tuple(self.history)

    def finished(self):
        return all(e is not None for e in self.end)

    def leftovers(self):
        out = [m['id'] for c in self.channel.values() for m in c]
        out += ['collective %d (%s) without rank %s'
                % (i, next(iter(p.values()))['what'],
                   sorted(set(range(self.size)) - set(p)))
                for i, p in self.coll.items() if len(p) < self.size]
        return out

    def waiting(self):
        return {r: {k: v for k, v in op.items() if k in
                    ('kind', 'what', 'source', 'dest', 'tag')}
                for r, op in enumerate(self.pending) if op is not None}

    def close(self):
        for r in range(self.size):
            if self.end[r] is None:
                self.ranks.stop(r)
        self.ranks.close()


def explore(make, judge, mode='eager', limit=None):
    """
    All executions: make() gives (ranks, context); judge(world, context) is
    called at the end of each execution. Returns (states, transitions,
    executions); raises Deadlock and Mismatch.
    """
    seen = set()
    todo = [()]
    states = transitions = runs = 0
    while todo:
        prefix = todo.pop()
        ranks, ctx = make()
        w = None
        try:
            try:
                w = World(ranks, mode)
                path = []
                while True:
                    sure, choices = w.transitions()
                    if sure is not None:
                        w.apply(sure)
                        continue
                    if len(path) < len(prefix):
                        t = prefix[len(path)]
                        path.append(t)
                        w.apply(t)
                        if len(path) == len(prefix):
                            transitions += 1
                        continue
                    key = w.key
                    if key in seen:
                        break
                    seen.add(key)
                    states += 1
                    if w.finished():
                        runs += 1
                        if w.leftovers():
                            raise Mismatch('never received: %s'
                                           % w.leftovers())
                        judge(w, ctx)
                        break
                    if not [c for c in choices if c[0] != 'buffer']:
                        raise Deadlock('%s' % w.waiting())
                    for c in choices[1:]:
                        todo.append(tuple(path) + (c,))
                    path.append(choices[0])
                    w.apply(choices[0])
                    transitions += 1
                    prefix = tuple(path)
            except (Deadlock, Mismatch) as e:
                if w is None:
                    raise
                failed = [x[1] for x in w.end if x is not None and
                          x[0] not in ('done', 'aborted')]
                e.args = ('%s after %s%s' % (
                    e, [c for c in path if c[0] != 'buffer'],
                    '; a process failed: %r' % failed[0] if failed else ''),)
                e.path = list(path)
                raise
        finally:
            if w is not None:
                w.close()
            else:
                for r in range(ranks.size):
                    ranks.stop(r)
        if limit is not None and states > limit:
            break
    return states, transitions, runs
