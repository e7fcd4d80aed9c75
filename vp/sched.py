"""
Threads of this process under a controlled scheduler: each waits at every
line (or every instruction) of the code under test, at every operation on a
lock made with threading.Lock or RLock while the scheduler is active, and at
points named by the test. One thread runs at a time; a search runs through
all choices up to a number of preemptions.
"""
import sys
import threading

REAL_LOCK, REAL_RLOCK = threading.Lock, threading.RLock
WAIT = 60.      # seconds after which a thread is taken for blocked elsewhere
current = [None]


class Stop(BaseException):
    pass


class Deadlock(Exception):
    pass


class Lock(object):
    """A lock whose operations the scheduler sees."""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0
        self.real = REAL_RLOCK() if self.reentrant else REAL_LOCK()

    def controlled(self):
        s = current[0]
        return s if s is not None and s.me() is not None else None

    def acquire(self, blocking=True, timeout=-1):
        s = self.controlled()
        if s is None:
            if not self.real.acquire(blocking, timeout):
                return False
            if self.owner is not None and not self.reentrant:
                raise RuntimeError('lock held by a controlled thread')
            return True
        me = s.me()
        if self.reentrant and self.owner == me:
            self.count += 1
            return True
        s.point()
        while self.owner is not None:
            if not blocking:
                return False
            s.block(self)
        self.owner = me
        self.count = 1
        return True

    def release(self):
        s = self.controlled()
        if s is None:
            self.real.release()
            return
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if not self.count:
            self.owner = None
            s.wake(self)
            s.point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    reentrant = True


def install():
    """Locks made from here on can be controlled."""
    threading.Lock = Lock
    threading.RLock = RLock


class Scheduler(object):
    def __init__(self, bodies, files, opcodes=False):
        self.files = tuple(files)
        self.opcodes = opcodes
        self.n = len(bodies)
        self.bodies = bodies
        self.go = [REAL_LOCK() for _ in bodies]
        for g in self.go:
            g.acquire()
        self.back = _Sem()
        self.state = ['ready'] * self.n     # ready, blocked, done
        self.waiting = [None] * self.n
        self.result = [None] * self.n
        self.ids = {}
        self.stop = False
        self.steps = 0

    # in the threads
    def me(self):
        return self.ids.get(threading.get_ident())

    def point(self):
        i = self.me()
        if i is None:
            return
        self.back.release()
        self.go[i].acquire()
        if self.stop:
            raise Stop()

    def block(self, lock):
        i = self.me()
        self.state[i] = 'blocked'
        self.waiting[i] = lock
        self.point()

    def wake(self, lock):
        for i in range(self.n):
            if self.state[i] == 'blocked' and self.waiting[i] is lock:
                self.state[i] = 'ready'
                self.waiting[i] = None

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.files):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        self.local(frame, 'line', None)
        return self.local

    def local(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            self.point()
        return self.local

    def main(self, i):
        self.ids[threading.get_ident()] = i
        self.go[i].acquire()
        try:
            if self.stop:
                return
            sys.settrace(self.trace)
            try:
                self.result[i] = ('returned', self.bodies[i]())
            finally:
                sys.settrace(None)
        except Stop:
            self.result[i] = ('stopped', None)
        except BaseException as e:
            self.result[i] = ('raised', e)
        finally:
            self.state[i] = 'done'
            self.ids.pop(threading.get_ident(), None)
            self.back.release()

    # the controller
    def run(self, prefix, bound):
        """
        One execution: the choices of prefix, then without preemption.
        Returns the alternatives [(position, thread)] and the choices made.
        """
        current[0] = self
        threads = [threading.Thread(target=self.main, args=(i,), daemon=True)
                   for i in range(self.n)]
        for t in threads:
            t.start()
        path = []
        alternatives = []
        last = None
        used = 0
        try:
            while True:
                ready = [i for i in range(self.n) if self.state[i] == 'ready']
                if not ready:
                    if all(s == 'done' for s in self.state):
                        break
                    raise Deadlock('threads wait for each other')
                k = len(path)
                if k < len(prefix):
                    i = prefix[k]
                    if i not in ready:
                        raise RuntimeError('execution is not repeatable')
                else:
                    i = last if last in ready else ready[0]
                    for j in ready:
                        if j != i and used + (last in ready) <= bound:
                            alternatives.append((k, j))
                if last in ready and i != last:
                    used += 1
                path.append(i)
                last = i
                self.steps += 1
                self.go[i].release()
                if not self.back.acquire(WAIT):
                    raise Deadlock('a thread waits for something unknown')
        finally:
            self.stop = True
            for i in range(self.n):
                if self.state[i] != 'done':
                    self.go[i].release()
            for t in threads:
                t.join(WAIT)
            current[0] = None
        return path, alternatives


class _Sem(object):
    """A semaphore of real locks, whatever threading.Lock is."""

    def __init__(self):
        self.lock = REAL_LOCK()
        self.lock.acquire()

    def release(self):
        self.lock.release()

    def acquire(self, timeout):
        return self.lock.acquire(True, timeout)


def explore(make, judge, files, bound, opcodes=False, part=(0, 1)):
    """
    All schedules with up to bound preemptions: make() gives the bodies of
    the threads and a context; judge(results, context, path). Returns
    (executions, steps).
    """
    todo = [()]
    runs = steps = 0
    number = 0
    while todo:
        prefix = todo.pop()
        bodies, ctx = make()
        s = Scheduler(bodies, files, opcodes)
        try:
            path, alternatives = s.run(prefix, bound)
        except Deadlock as e:
            e.args = ('%s (after %d steps, results %s)'
                      % (e, s.steps, s.result),)
            raise
        mine = True
        for k, j in alternatives:
            item = tuple(path[:k]) + (j,)
            if not prefix:
                # the first choices are shared out
                number += 1
                if number % part[1] != part[0]:
                    continue
            todo.append(item)
        runs += 1
        steps += s.steps
        if mine:
            judge(s.result, ctx, path)
    return runs, steps
