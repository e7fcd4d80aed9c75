"""U06: singletons and logged calls."""
import inspect
import itertools
import os

from vp import core, sched
from vp.core import Violation

ID = 'U06'
LEVEL = 'model_checking'
TECHNIQUE = ('exploration of all schedules of threads through the real '
             'singleton under a controlled scheduler, preempting at every '
             'line (and every bytecode instruction) up to a number of '
             'preemptions, and enumeration of all call shapes of logged '
             'functions')
NOTE = ('Stateless search over the real code: each state is an execution '
        'prefix. 2 threads with up to 3 (thorough: 5) preemptions between '
        'lines and 1 (3) between instructions, 3 threads with 1 (3) between '
        'lines. Logged calls: all signatures of up to 3 parameters of all '
        'kinds times all ways to call them.')
RULE = ('schedules of classes with ordinary, false, empty and failing '
        'instances; signatures x arguments x outcomes. Distinct are the '
        'cases.')
ASSUMPTIONS = ['a thread may be interrupted between any two instructions']
TIMEOUT = 600

KINDS = ('plain', 'false', 'empty', 'equal', 'args', 'failing', 'nested')


def cases(tier):
    deep = tier == 'thorough'
    for kind in KINDS:
        for i in range(4):
            yield dict(k='threads', kind=kind, n=2, calls=2, by='lines',
                       bound=3 if not deep else 5, part=[i, 4])
    for kind in ('plain', 'false') if not deep else KINDS:
        for i in range(2 if not deep else 8):
            yield dict(k='threads', kind=kind, n=3, calls=1, by='lines',
                       bound=1 if not deep else 3,
                       part=[i, 2 if not deep else 8])
            yield dict(k='threads', kind=kind, n=2, calls=1, by='opcodes',
                       bound=1 if not deep else 3,
                       part=[i, 2 if not deep else 8])
    yield dict(k='classes')
    for n in range(4 if not deep else 5):
        yield dict(k='calls', n=n)


def setup(env):
    sched.install()
    import utilities.meta  # noqa: F401


def make_class(kind, log):
    """A singleton class; log gets an entry for each construction."""
    from utilities.meta import Singleton

    def __init__(self, *args, **kw):
        s = sched.current[0]
        log.append(('init', args, kw))
        if s is not None:
            s.point()
        if kind == 'failing' and len(log) == 1:
            raise ValueError('first')
        if kind == 'nested':
            self.part = part()
            if self.part is not part():
                raise RuntimeError('two parts')
        self.value = (args, kw)
        if s is not None:
            s.point()
        self.ready = True

    body = {'__init__': __init__}
    part = Singleton('Part', (object,), {})
    if kind == 'false':
        body['__bool__'] = lambda self: False
    elif kind == 'empty':
        body['__len__'] = lambda self: 0
    elif kind == 'equal':
        body['__eq__'] = lambda self, other: True
        body['__hash__'] = lambda self: 1
    return Singleton('K', (object,), body)


def run(env, case):
    if case['k'] == 'threads':
        threads(env, case)
    elif case['k'] == 'classes':
        classes(env, case)
    else:
        calls(env, case)


def threads(env, case):
    kind, n = case['kind'], case['n']

    def make():
        log = []
        k = make_class(kind, log)

        def body(i):
            def go():
                out = []
                for c in range(case['calls']):
                    try:
                        if kind == 'args':
                            obj = k(i, c=c)
                        else:
                            obj = k()
                        # another thread must not see it half made
                        out.append((id(obj), obj, getattr(obj, 'ready',
                                                          False)))
                    except ValueError:
                        out.append((None, 'failed', True))
                return out
            return go
        return [body(i) for i in range(n)], log

    def judge(results, log, path):
        seen = []
        failed = 0
        for r in results:
            if r[0] != 'returned':
                raise Violation('%s, schedule %s: a thread ends with %r'
                                % (kind, brief(path), r[1]), case=case)
            for x in r[1]:
                failed += x[0] is None
                if x[0] is not None:
                    seen.append(x)
        want = 2 if kind == 'failing' else 1
        if failed != want - 1:
            raise Violation('%s: %d callers got the error, schedule %s'
                            % (kind, failed, brief(path)), case=case)
        if len(log) != want:
            raise Violation('%s: constructed %d times, schedule %s'
                            % (kind, len(log), brief(path)), case=case)
        if len({x[0] for x in seen}) != 1:
            raise Violation('%s: callers got %d instances, schedule %s'
                            % (kind, len({x[0] for x in seen}), brief(path)),
                            case=case)
        if not all(x[2] for x in seen):
            raise Violation('%s: a caller got an unfinished instance, '
                            'schedule %s' % (kind, brief(path)), case=case)
        if kind == 'args' and seen[0][1].value not in [
                (x[1], x[2]) for x in log]:
            raise Violation('arguments of the construction', case=case)

    files = (os.path.join(core.REPO, 'utilities'),)
    try:
        runs, steps = sched.explore(make, judge, files, case['bound'],
                                    case['by'] == 'opcodes', case['part'])
    except sched.Deadlock as e:
        raise Violation('%s: %s' % (kind, e), case=case)
    env.count(key=case, evaluations=runs, states=runs, transitions=steps,
              traces=runs)
    env.sample(dict(case, executions=runs, steps=steps))


def brief(path):
    return ''.join('%d' % i for i in path)


def classes(env, case):
    """Several classes, one after the other, and classes of classes."""
    from utilities.meta import Singleton
    for kinds in itertools.product(KINDS[:5], repeat=2):
        logs = [[], []]
        ks = [make_class(k, log) for k, log in zip(kinds, logs)]
        for order in itertools.product((0, 1), repeat=4):
            got = {0: set(), 1: set()}
            for c in order:
                got[c].add(id(ks[c]()))
            for c in set(order):
                if len(got[c]) != 1 or len(logs[c]) != 1:
                    raise Violation('classes %s, calls %s' % (kinds, order),
                                    case=case)
            if set(order) == {0, 1} and got[0] == got[1]:
                raise Violation('two classes share an instance', case=case)
            env.count(key=[kinds, order])

    class Base(object, metaclass=Singleton):
        pass

    class Derived(Base):
        pass

    for order in itertools.product((Base, Derived), repeat=3):
        for k in order:
            if type(k()) is not k or k() is not k():
                raise Violation('derived class: %s gives a %s'
                                % (k.__name__, type(k()).__name__), case=case)
        env.count(key=[k.__name__ for k in order])


P, D, V, KO, KD, KW = 'p', 'd', 'v', 'ko', 'kd', 'kw'


def signatures(n):
    """All signatures of n parameters, as text."""
    for kinds in itertools.product((P, D, V, KO, KD, KW), repeat=n):
        order = [(P, D, V, KO, KD, KW).index(k) for k in kinds]
        rank = [{0: 0, 1: 1, 2: 2, 3: 3, 4: 3, 5: 4}[o] for o in order]
        if rank != sorted(rank) or kinds.count(V) > 1 or \
                kinds.count(KW) > 1:
            continue
        text = []
        if any(k in (KO, KD) for k in kinds) and V not in kinds:
            star = min(i for i, k in enumerate(kinds) if k in (KO, KD))
        else:
            star = None
        for i, k in enumerate(kinds):
            if i == star:
                text.append('*')
            text.append({P: 'a%d', D: 'a%d="d%d"', V: '*a%d', KO: 'a%d',
                         KD: 'a%d="k%d"', KW: '**a%d'}[k] %
                        ((i, i) if k in (D, KD) else (i,)))
        yield ', '.join(text)


class Val(object):
    """An argument; its text says which."""

    def __init__(self, n):
        self.n = n

    def __str__(self):
        return '<%s>' % self.n
    __repr__ = __str__

    def __bool__(self):
        return False

    def __eq__(self, other):
        raise AssertionError('arguments are compared')
    __hash__ = None


def calls(env, case):
    from utilities.meta import print_call
    n = case['n']
    for sig in signatures(n):
        for outcome in ('value', 'none', 'error', 'exit'):
            text = 'def func(%s):\n    "words"\n    return done(locals())' \
                % sig
            got = []

            def done(where):
                got.append(where)
                if outcome == 'error':
                    raise error
                if outcome == 'exit':
                    raise leave
                return result if outcome == 'value' else None

            error, leave, result = KeyError('x'), SystemExit(3), Val('r')
            space = {'done': done}
            exec(text, space)
            func = space['func']
            messages = []
            wrapped = print_call(messages.append)(func)
            if wrapped.__name__ != 'func' or wrapped.__doc__ != 'words':
                raise Violation('name or description of a logged function '
                                'changed', case=case)
            none = print_call(None)(func)
            for npos in range(n + 2):
                names = ['a%d' % i for i in range(n)] + ['other']
                for r in range(len(names) + 1):
                    for chosen in itertools.combinations(names, r):
                        args = tuple(Val('p%d' % i) for i in range(npos))
                        kw = {k: Val(k) for k in chosen}
                        one_call(env, case, sig, outcome, func, wrapped, none,
                                 args, kw, got, messages,
                                 (error, leave, result))
    env.sample(case)


def one_call(env, case, sig, outcome, func, wrapped, none, args, kw, got,
             messages, ends):
    error, leave, result = ends
    what = 'def func(%s) called with %s, %s (%s)' % (sig, args, kw, outcome)

    def outcome_of(f):
        del got[:]
        del messages[:]
        try:
            return 'returned', f(*args, **kw)
        except (Exception, SystemExit) as e:
            return 'raised', e

    kind, value = outcome_of(func)
    where = flat(got)
    for f, logged in ((wrapped, True), (none, False)):
        k, v = outcome_of(f)
        log = [str(m) for m in messages]
        if isinstance(value, TypeError):
            # a call that is not possible
            if k != 'raised' or not isinstance(v, TypeError) or got:
                raise Violation('%s: %s %r' % (what, k, v), case=case)
            if any('SUCCESS' in m.upper() for m in log):
                raise Violation('%s: reports success' % what, case=case)
            env.count()
            continue
        if k != kind or v is not value:
            raise Violation('%s: %s %r' % (what, k, v), case=case)
        if flat(got) != where or len(got) != 1:
            raise Violation('%s: the function gets %s' % (what, got),
                            case=case)
        if not logged:
            if log:
                raise Violation('%s: logged' % what, case=case)
            continue
        good = [m for m in log if 'SUCCESS' in m.upper()]
        if len(good) != (kind == 'returned'):
            raise Violation('%s: messages %s' % (what, log), case=case)
        text = ''.join(m for m in log if m not in good)
        if 'func' not in text:
            raise Violation('%s: messages %s do not name it' % (what, log),
                            case=case)
        for a in bound(func, args, kw):
            if a not in text:
                raise Violation('%s: messages %s do not report %s'
                                % (what, log, a), case=case)
        env.count(key=[sig, outcome, len(args), sorted(kw)],
                  nontrivial=bool(args or kw))


def flat(got):
    """Which objects arrived as which arguments."""
    out = []
    for where in got:
        for k, v in sorted(where.items()):
            if isinstance(v, tuple):
                out.append((k, [id(x) for x in v]))
            elif isinstance(v, dict):
                out.append((k, sorted((a, id(b)) for a, b in v.items())))
            else:
                out.append((k, id(v)))
    return out


def bound(func, args, kw):
    b = inspect.signature(func).bind(*args, **kw)
    b.apply_defaults()
    out = []
    for k, v in b.arguments.items():
        if isinstance(v, tuple):
            out += [str(x) for x in v]
        elif isinstance(v, dict):
            out += [str(x) for x in v.values()]
        else:
            out.append('%s=%s' % (k, v))
    return out
