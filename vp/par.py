"""
Runs of the program on several processes under a controlled MPI, with all
file system operations of all processes and what orders them.
"""
import os

from . import mpi, prog
from .core import Violation

MUTATING = 'CWXTUMDNA'


class FsEvent(object):
    __slots__ = ('rank', 'index', 'op', 'path', 'path2', 'vc', 'n', 'stems')

    def __init__(self, rank, index, op, path, path2, vc, n):
        self.rank, self.index, self.op = rank, index, op
        self.path, self.path2, self.vc, self.n = path, path2, vc, n

    def before(self, other):
        """Whether communication puts this before the other."""
        return other.vc[self.rank] > self.vc[self.rank]

    def __repr__(self):
        return '%d:%s %s' % (self.rank, self.op, os.path.basename(self.path))


def inside(a, b):
    return b.startswith(a + os.sep)


def conflict(e, f):
    """Whether the order of two operations can matter."""
    if e.op not in MUTATING and f.op not in MUTATING:
        return False
    if 'X' in (e.op, f.op):
        return False
    for p in (e.path, e.path2):
        for q in (f.path, f.path2):
            if not p or not q:
                continue
            if p == q:
                return True
            for a, x, b, y in ((p, e, q, f), (q, f, p, e)):
                # a directory is made, removed, moved or listed
                if inside(a, b):
                    if x.op in 'MDUNA':
                        return True
                    if x.op in 'LPR' and y.op in 'CMUDN' and \
                            os.path.dirname(b) == a:
                        # a library lists a folder for the companions of
                        # the file it opens
                        return x.op != 'L' or any(
                            os.path.basename(b).startswith(st)
                            for st in x.stems)
    return False


class Execution(object):
    def __init__(self):
        self.events = []
        self.counts = {}
        self.path = []
        self.choices = []       # alternatives met: (position, transition)


def execute(size, body, root, prefix=(), holds=(), traced=True, spy=None,
            without='SRLP'):
    """
    One execution with given matchings and given file operations held back:
    holds is a set of (rank, index, other, otherindex): the operation of a
    rank waits until the other has done one of its own. With a fifth item
    it waits until the other has done it and then reached its next message.
    """
    ex = Execution()
    ranks = None

    def on_fs(r, op, p, q, n):
        if spy is not None:
            spy(r, op, p, q, n)
        i = ex.counts.get(r, 0)
        for h in holds:
            a, x, b, y = h[:4]
            if (a, x) == (r, i) and (r, i) not in ex.released and \
                    (len(h) > 4 or ex.counts.get(b, 0) <= y):
                ex.released.add((r, i))
                ex.held[r] = (op, p, q, n)
                return None
        ex.counts[r] = i + 1
        w = ranks.world
        ex.events.append(FsEvent(r, i, op, p, q, tuple(w.vc[r]), n))
        return b'g'

    ex.released = set()
    ex.held = {}
    ranks = mpi.ProcessRanks(size, body, root, on_fs if traced else None,
                             'WX' if spy is None else without)
    w = None
    try:
        w = mpi.World(ranks, 'eager')
        while True:
            sure, choices = w.transitions()
            if sure is not None:
                w.apply(sure)
                continue
            done = [r for r in w.held if holds_done(ex, holds, r)]
            if done or (w.held and not choices):
                r = min(done or w.held)
                op, p, q, n = ex.held.pop(r)
                i = ex.counts.get(r, 0)
                ex.counts[r] = i + 1
                ex.events.append(FsEvent(r, i, op, p, q, tuple(w.vc[r]), n))
                w.release(r)
                continue
            if w.finished():
                break
            if not choices:
                raise mpi.Deadlock('%s' % w.waiting())
            k = len(ex.path)
            if k < len(prefix):
                t = prefix[k]
            else:
                t = choices[0]
                for c in choices[1:]:
                    ex.choices.append((tuple(ex.path), c))
            ex.path.append(t)
            w.apply(t)
        if w.leftovers():
            raise mpi.Mismatch('never received: %s' % w.leftovers())
        ex.end = list(w.end)
        ex.key = w.key
        return ex
    except (mpi.Deadlock, mpi.Mismatch) as e:
        failed = [] if w is None else \
            [x[1] for x in w.end if x is not None and x[0] != 'done']
        raise Violation('%d processes wait for each other or send in vain: %s'
                        '%s' % (size, e, '; ' + str(failed[0]) if failed
                                else ''))
    finally:
        if w is not None:
            w.close()
        else:
            ranks.close()


def holds_done(ex, holds, r):
    for h in holds:
        a, x, b, y = h[:4]
        if (a, x) == (r, ex.counts.get(r, 0)) and \
                (ex.counts.get(b, 0) <= y or len(h) > 4 and b in ex.held):
            return False
    return True


def races(ex):
    """Pairs of conflicting operations that nothing orders."""
    for e in ex.events:
        if e.op == 'L':
            e.stems = {
                os.path.splitext(os.path.basename(x.path))[0]
                for x in ex.events if x.rank == e.rank and
                x.vc == e.vc and x.op in 'RCS' and os.path.dirname(x.path) == e.path}
    # only paths touched by more than one rank, or directories, matter
    out = []
    by = {}
    for e in ex.events:
        by.setdefault(e.rank, []).append(e)
    ranks = sorted(by)
    touched = {}
    for e in ex.events:
        for p in (e.path, e.path2):
            if p:
                touched.setdefault(p, set()).add(e.rank)
    dirs = {e.path for e in ex.events if e.op in 'MDNALP'}
    many = {p for p, r in touched.items() if len(r) > 1}
    listed = {e.path for e in ex.events if e.op in 'LPR'}

    def relevant(e):
        if e.path in many or (e.path2 and e.path2 in many):
            return True
        if e.op in 'MDNA':
            return True
        d = os.path.dirname(e.path)
        if e.op in 'CUMDN' and d in listed:
            return True
        if e.op in 'LPR':
            return e.path in listed
        while len(d) > 1:
            if d in dirs:
                return True
            d = os.path.dirname(d)
        return False

    first = {}
    for r in ranks:
        seen = set()
        keep = []
        for e in by[r]:
            # several writes to a file between two communications are one
            k = (e.op, e.path, e.path2, e.vc)
            if k in seen or not relevant(e):
                continue
            seen.add(k)
            keep.append(e)
        first[r] = keep
    pos = {id(e): n for n, e in enumerate(ex.events)}
    for a in ranks:
        for b in ranks:
            if a >= b:
                continue
            for e in first[a]:
                for f in first[b]:
                    if conflict(e, f) and not e.before(f) and \
                            not f.before(e):
                        out.append((e, f) if pos[id(e)] < pos[id(f)]
                                   else (f, e))
    return out


def program(cfg):
    """A process of an MPI run of the program."""
    def body(rank, me):
        module = mpi.make_module(me)
        mpi.install(module)
        prog.run(cfg)
        return None
    return body


def all_runs(size, body, root, judge, reset, bound=1, limit=10 ** 6,
             brief=False, part=(0, 1), about=None):
    """
    Every matching of messages, and for each the reversal of up to `bound`
    races on files: the second operation first, and the process of the first
    one goes on after the other has reached its next message, or at once.
    reset() is called before each execution, judge(ex) after.
    about(path): only races about such files and folders are reversed.
    Returns the number of executions and of races met.
    """
    todo = [((), frozenset(), 0)]
    done = {((), frozenset())}
    n = met = events = 0
    while todo:
        prefix, holds, depth = todo.pop(0)
        reset()
        ex = execute(size, body, root, prefix, holds)
        n += 1
        events += len(ex.events)
        judge(ex)
        if not holds:
            for path, c in ex.choices:
                item = (path + (c,), frozenset())
                if item not in done:
                    done.add(item)
                    todo.append(item + (0,))
        rs = races(ex)
        if about is not None:
            rs = [(e, f) for e, f in rs
                  if about(e.path) and about(f.path)]
        met += len(rs)
        if depth < bound:
            seen = set()
            last = {}
            for e, f in rs:
                last[e if e.op == 'P' else f] = (e, f)
            for e, f in rs:
                k = (e.rank, e.op, e.path, f.rank, f.op, f.path)
                if brief and 'P' in (e.op, f.op):
                    # a listing and the first and last of the files made
                    k = (e.rank, e.op, f.rank, f.op,
                         e.path if e.op == 'P' else f.path,
                         (e, f) in (last.get(e), last.get(f)))
                if k in seen:
                    continue
                seen.add(k)
                late = holds | {(e.rank, e.index, f.rank, f.index)}
                for h in (late, late | {(f.rank, f.index + 1, e.rank,
                                         e.index, 1)}):
                    item = (tuple(ex.path), h)
                    if item not in done:
                        done.add(item)
                        # the first reversals are shared between the parts
                        if holds or len(done) % part[1] == part[0]:
                            todo.append(item + (depth + 1,))
        if n >= limit:
            break
    return n, met, events
