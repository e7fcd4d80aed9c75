"""W09: a run after an interrupted run gives the results of a clean run."""
import hashlib
import os
import shutil

from vp import mpi, par, prog, util
from vp.core import Violation

ID = 'W09'
LEVEL = 'fault_enumeration'
TECHNIQUE = ('enumeration of all crash points: before every file system '
             'operation of a run and its libraries (traced in libc) the state '
             'of the file system is kept, and the program is run again from '
             'every different state, also with torn writes')
NOTE = ('The crash states are those a killed process leaves; some are made '
        'by really killing it and must agree. Torn states: the file last '
        'written empty or cut in half. The results after the repeated run are '
        'compared with those of a clean run: names of all files, arrays, '
        'positions, attributes and mosaics. Thorough also interrupts the '
        'repeated run, and runs on several processes.')
RULE = ('runs (tiles, results of an earlier run there or not, processes) x '
        'points of interruption x torn variants. Non-trivial: states that '
        'differ from all earlier ones.')
ASSUMPTIONS = ['a crash loses no data written before it, other than from the '
               'file written last']
TIMEOUT = 800
PRELOAD = True

LAYOUTS = {'one': (2, 2, ()), 'two': (2, 4, ()), 'hole': (2, 6, (1,))}


def cases(tier):
    if tier == 'thorough':
        # a capped run gets through a part of every kind
        for i in range(24):
            for layout, old in (('one', 0), ('two', 1), ('hole', 0),
                                ('one', 1), ('two', 0)):
                yield dict(layout=layout, old=old, torn=1, writes=1,
                           part=[i, 24])
            for p in (2, 3):
                yield dict(layout='two', old=p % 2, torn=1, writes=1, p=p,
                           part=[i, 24])
            for j in (3 * i, 3 * i + 1, 3 * i + 2):
                yield dict(layout='one', old=0, torn=0, writes=0, twice=1,
                           part=[j, 72])
    else:
        for i in range(8):
            yield dict(layout='one', old=0, torn=1, writes=0, part=[i, 8])
        for i in range(4):
            yield dict(layout='two', old=1, torn=0, writes=0, part=[i, 4],
                       every=6)
        for i in range(2):
            yield dict(layout='two', old=0, torn=0, writes=0, p=2,
                       part=[i, 2], every=9)


def setup(env):
    util.stub_git()
    import all_multipliers  # noqa: F401, before the processes are forked


def state(folder):
    """Content of the output folder and the log folder."""
    return {k: v for k, v in util.tree(folder).items()
            if k.split(os.sep)[0] not in ('in', 'old')}


def digest(st):
    h = hashlib.blake2b(digest_size=12)
    for k in sorted(st):
        h.update(repr((k, st[k])).encode())
    return h.digest()


def restore(folder, st):
    for d in os.listdir(folder):
        if d in ('in', 'old'):
            continue
        p = os.path.join(folder, d)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.remove(p)
    for k in sorted(st):
        p = os.path.join(folder, k)
        if st[k] is None:
            os.makedirs(p, exist_ok=True)
    for k, v in st.items():
        if isinstance(v, bytes):
            with open(os.path.join(folder, k), 'wb') as f:
                f.write(v)


def interrupted(case, folder, inp, start, kill_at=None):
    """
    States before each operation of a run: [(operation, state)]. With kill_at
    the process is ended at that operation instead, and nothing returned.
    """
    restore(folder, start)
    out = []
    seen = {digest(start)}
    count = [0]
    written = [None]

    def on_fs(op, p, q, n):
        if op in 'CWXTUMDNA':
            if kill_at is not None:
                if count[0] == kill_at:
                    return b'k'
            else:
                st = state(folder)
                d = digest(st)
                if d not in seen:
                    seen.add(d)
                    out.append((count[0], '%s %s' % (op, p), st, written[0]))
            count[0] += 1
            if op in 'CWT':
                written[0] = os.path.relpath(p, folder)
        return b'g'

    without = 'SRLP' if case['writes'] else 'SRLPW'
    if case.get('p'):
        par.execute(case['p'], par.program(inp.cfg), folder,
                    spy=lambda r, *a: on_fs(*a), without=without)
        return out
    pr = mpi.Traced(lambda proc: prog.run(inp.cfg), folder, on_fs, without)
    end = pr.next()
    if kill_at is None and end[0] != 'done':
        raise Violation('run ends with %s' % (end,), case=case)
    if kill_at is not None and end[0] != 'died':
        raise RuntimeError('process not ended: %s' % (end,))
    return out


def torn(st, path, few=False):
    """Variants of a state with the file written last cut."""
    if path is None or not isinstance(st.get(path), bytes) or not st[path]:
        return
    n = len(st[path])
    for k in ([n // 2] if few else sorted({0, n // 2, n - 1})):
        yield 'cut to %d of %d' % (k, n), dict(st, **{path: st[path][:k]})


def again(case, folder, inp, st, want, inputs, what):
    restore(folder, st)
    pr = mpi.Traced(lambda proc: prog.run(inp.cfg), folder)
    end = pr.next()
    if end[0] != 'done':
        raise Violation('the run after %s ends with %s' % (what, end),
                        case=case)
    prog.same_results(prog.read_results(inp.out), want, 'run after ' + what,
                      case=case)
    if util.tree(os.path.join(folder, 'in')) != inputs:
        raise Violation('inputs changed by the run after ' + what, case=case)


def run(env, case):
    folder = env.tmp()
    rows, cols, empty = LAYOUTS[case['layout']]
    dem = util.generic(rows, cols, 1, 1, 900).astype('float32')
    for t in empty:
        dem[:, 2 * t:2 * t + 2] = 0
    cl = util.generic_classes(rows, cols, util.TABLE, 1).astype('int32')
    gt = (145., .5, 0., -16., 0., -.5)
    inp = prog.Inputs(folder, dem, cl, gt)
    inputs = util.tree(os.path.join(folder, 'in'))
    os.chdir(folder)
    end = mpi.Traced(lambda proc: prog.run(inp.cfg), folder).next()
    if end[0] != 'done':
        raise Violation('run ends with %s' % (end,), case=case)
    prog.judge_run(inp.out, prog.ref_run(dem, cl, gt, .01), case=case)
    want = prog.read_results(inp.out)
    start = {}
    if case['old']:
        # results of an earlier run of another region
        start = state(folder)
        for k, v in list(start.items()):
            if 'e145.0' in k:
                start[k.replace('e145.0', 'e99.0')] = v
            if v is not None and k.endswith(('.nc', '.tif')):
                start[k] = v[:-3] + b'old'
        start['out/e145.0s16.0_dem.img'] = b'old'
        start['out/e145.0s16.0.img'] = b'old'

    points = interrupted(case, folder, inp, start)
    i, n = case['part']
    every = case.get('every', 1)
    chosen = [p for k, p in enumerate(points) if k % n == i and
              (k // n) % every == 0]
    for k, (number, op, st, last) in enumerate(chosen):
        what = 'an interruption before operation %d (%s)' % (number, op)
        if util.tree(os.path.join(folder, 'in')) != inputs:
            raise Violation('inputs changed', case=case)
        if k == 0 and not case.get('p'):
            # the state is that of a process ended there
            interrupted(case, folder, inp, start, number)
            got = state(folder)
            if {x: len(y) if y is not None else None
                    for x, y in got.items()} != \
                    {x: len(y) if y is not None else None
                     for x, y in st.items()}:
                raise RuntimeError('not the state of a killed process')
            env.count(traces=1, evaluations=0)
        again(case, folder, inp, st, want, inputs, what)
        env.count(key=[case['layout'], case['old'], case.get('p'), number])
        if case['torn']:
            for text, cut in torn(st, last, not case['writes']):
                again(case, folder, inp, cut, want, inputs,
                      '%s, %s %s' % (what, last, text))
                env.count(key=[case['layout'], case['old'], case.get('p'),
                               number, text])
        if case.get('twice'):
            second = interrupted(case, folder, inp, st)
            for number2, op2, st2, last2 in second:
                again(case, folder, inp, st2, want, inputs, '%s and one of '
                      'the next run before operation %d (%s)'
                      % (what, number2, op2))
                env.count(key=[case['layout'], number, number2])
    env.sample(dict(case, points=len(points),
                    operations=[p[1] for p in points[:3]]))
