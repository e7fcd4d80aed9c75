"""W10: unusable inputs end the run with an error."""
import itertools
import os
import shutil
import subprocess
import sys

import numpy as np

from vp import core, mpi, prog, util
from vp.core import Violation

ID = 'W10'
LEVEL = 'fault_enumeration'
TECHNIQUE = ('enumeration of all faults of each input and of all pairs, of '
             'all missing settings, and of each input failing at each of its '
             'accesses during the run (traced in libc)')
NOTE = ('Faults: missing, empty, cut at several lengths, garbage, another '
        'format, a folder, no permission, a dangling link, a table without '
        'one of its columns or with a wrong line, a configuration with a '
        'wrong line. A run must end '
        'with an exception or non-zero status; where a fault leaves the data '
        'intact or comes after the last access, the results must be those of '
        'the good inputs. Multipliers left by a failed run must be right, '
        'too. Exit statuses are those of the real script.')
RULE = ('inputs x faults, alone and in pairs; settings removed; lines x how '
        'they are wrong; accesses x '
        'faults. Non-trivial: all.')
ASSUMPTIONS = ['settings not given by the user are those of the default '
               'configuration of the program, here empty']
TIMEOUT = 200
PRELOAD = True

FILES = ('cfg', 'dem', 'lc', 'table')
FAULTS = ('missing', 'empty', 'head', 'half', 'tail', 'garbage', 'binary',
          'folder', 'noaccess', 'dangling', 'other')
# the beginning of a table is a table
PARTIAL = ('head', 'half', 'tail')
# columns of the table that are gone
COLUMNS = ('CATEGORY', 'ROUGHNESS_LENGTH_m', 'SHIELDING', 'ROUGHNESS',
           'CATEGORY,', 'header')
# lines that are wrong: the n-th class
ROWS = ('fields', 'word', 'unit', 'class', 'shield', 'quote')
LINES = ('twice', 'section twice', 'no section', 'no value', 'open')
SETTINGS = (('inputValues', 'root'), ('inputValues', 'upwind_length'),
            ('inputValues', 'terrain_data'), ('inputValues', 'terrain_table'),
            ('inputValues', 'dem_data'), ('Output', 'output_dir'),
            ('Logging', 'LogFile'), ('Logging', 'LogLevel'),
            ('Logging', 'Verbose'), ('inputValues', None), ('Output', None),
            ('Logging', None))
VALUES = (('upwind_length', ''), ('upwind_length', 'far'),
          ('dem_data', ''), ('terrain_data', ''), ('terrain_table', ''),
          ('dem_data', 'None'), ('terrain_data', 'in'), ('dem_data', '/'),
          ('terrain_table', '/'))


def cases(tier):
    deep = tier == 'thorough'
    for f in FILES:
        for x in FAULTS:
            if f == 'table' and x in PARTIAL:
                continue
            yield dict(k='one', faults=[[f, x]])
            if deep or x in ('missing', 'garbage'):
                yield dict(k='script', faults=[[f, x]])
    for x in COLUMNS:
        yield dict(k='one', faults=[['table', x]])
        if deep or x == 'SHIELDING':
            yield dict(k='mpi', faults=[['table', x]], p=2)
    for x in ROWS:
        for n in range(len(util.TABLE)) if deep else (0, 4, 7):
            yield dict(k='row', row=x, n=n)
    for x in LINES:
        for n in range(16) if deep else (0, 3, 6, 9, 12):
            yield dict(k='line', line=x, n=n)
    for s in SETTINGS:
        yield dict(k='setting', setting=list(s))
    for v in VALUES:
        yield dict(k='value', value=list(v))
    for p in (2, 3) if deep else (2,):
        for f in ('dem', 'lc', 'table'):
            for x in FAULTS if deep else ('missing', 'garbage'):
                if f == 'table' and x in PARTIAL:
                    continue
                yield dict(k='mpi', faults=[[f, x]], p=p)
    two = ('missing', 'garbage', 'head') if not deep else FAULTS
    for a, b in itertools.combinations(FILES, 2):
        for x, y in itertools.product(two, two):
            if b == 'table' and y in PARTIAL:
                continue
            yield dict(k='one', faults=[[a, x], [b, y]])
    for f in ('dem', 'lc', 'table', 'cfg'):
        for x in FAULTS if deep else ('missing', 'half', 'garbage'):
            if f == 'table' and x in PARTIAL:
                continue
            yield dict(k='during', file=f, fault=x)


def setup(env):
    util.stub_git()
    import all_multipliers  # noqa: F401


def break_file(path, how):
    data = open(path, 'rb').read()
    if how in COLUMNS:
        lines = data.decode().split('\n')
        if how == 'header':
            lines = [x for x in lines if not x.startswith('CATEGORY')]
        elif how.endswith(','):
            # the first column with all its values
            lines = [x.split(',', 1)[-1] for x in lines]
        else:
            lines = [x.replace(how, 'OTHER') if x.startswith('CATEGORY')
                     else x for x in lines]
        with open(path, 'w') as f:
            f.write('\n'.join(lines))
        return
    if how == 'noaccess':
        os.chmod(path, 0)
        return
    os.remove(path)
    if how == 'missing':
        return
    if how == 'dangling':
        os.symlink('nowhere', path)
        return
    if how == 'folder':
        os.mkdir(path)
        return
    new = {'empty': b'', 'head': data[:20], 'half': data[:len(data) // 2],
           'tail': data[:-max(1, len(data) // 40)],
           'garbage': b'garbage\n' * (len(data) // 8 + 1),
           'binary': bytes((i * 73 + 41) % 256 for i in range(len(data))),
           'other': None}[how]
    if how == 'other':
        if path.endswith('.tif'):
            new = b'ncols 2\nnrows x\nxllcorner a\n'
        else:
            new = open(os.path.join(os.path.dirname(path), 'dem.tif'),
                       'rb').read() if os.path.exists(os.path.join(
                           os.path.dirname(path), 'dem.tif')) else b'II*\0' * 9
    with open(path, 'wb') as f:
        f.write(new)


def break_row(path, how, n):
    lines = open(path).read().split('\n')
    k = [i for i, x in enumerate(lines) if x[:1].isdigit()][n]
    c, rest = lines[k].split(',', 1)
    desc, z, s = rest.rsplit(',', 2)
    lines[k] = {
        'fields': ','.join((c, desc, 'more', z, s)),
        'word': ','.join((c, desc, 'rough', s)),
        'unit': ','.join((c, desc, z + ' m', s)),
        'class': ','.join(('c' + c, desc, z, s)),
        'shield': ','.join((c, desc, z, 'S' + s)),
        'quote': ','.join((c, '"' + desc, z, s))}[how]
    with open(path, 'w') as f:
        f.write('\n'.join(lines))


def break_line(path, how, n):
    lines = open(path).read().split('\n')
    full = [i for i, x in enumerate(lines) if '=' in x]
    k = full[n % len(full)]
    name = lines[k].split('=')[0].strip()
    section = [x for x in lines[:k] if x.startswith('[')][-1]
    if how == 'twice':
        lines.insert(k + 1, name + ' = other')
    elif how == 'section twice':
        lines.insert(k + 1, section)
    elif how == 'no section':
        lines = [x for x in lines if x != section]
        lines.insert(0, name + ' = other')
    elif how == 'no value':
        lines[k] = name
    else:
        lines.insert(k, '[' + section[1:-1])
    with open(path, 'w') as f:
        f.write('\n'.join(lines))


def inputs(folder):
    dem = util.generic(4, 2, 1, 1, 900).astype('float32')
    cl = util.generic_classes(4, 2, util.TABLE, 1).astype('int32')
    return prog.Inputs(folder, dem, cl, (145., .5, 0., -16., 0., -.5))


def path_of(inp, f):
    return {'cfg': inp.cfg, 'dem': inp.dem, 'lc': inp.lc,
            'table': inp.table}[f]


def body(cfg):
    def go(proc):
        # no values from the file in the source folder
        from utilities.config import configparser
        configparser.clear()
        prog.run(cfg)
    return go


def judge(case, end, inp, want, what):
    """The end of a run with a fault, and what it leaves."""
    if end[0] == 'died':
        raise Violation('%s: the process is killed (%s)' % (what, end[1]),
                        case=case)
    bad = end[0] == 'failed' or (end[0] == 'exit' and
                                 end[1] not in (0, None))
    if not os.path.isdir(inp.out):
        if not bad:
            raise Violation('%s: no results and no error' % what, case=case)
        return bad
    if not bad:
        prog.same_results(prog.read_results(inp.out), want,
                          what + ': run without error', case=case)
        return bad
    # what there is must be right
    for sub in util.SUBS:
        d = os.path.join(inp.out, sub)
        for f in os.listdir(d) if os.path.isdir(d) else ():
            k = sub + '/' + f
            v, _ = util.read_nc(os.path.join(d, f))
            name = util.SUBS[sub].capitalize()
            if name not in v:
                continue
            if k not in want:
                raise Violation('%s: leaves %s' % (what, k), case=case)
            try:
                util.same(v[name], want[k][1], 1e-6, '%s: %s' % (what, k),
                          case)
            except Violation:
                # created and not yet filled
                if not np.isnan(np.array(v[name], float)).all():
                    raise
    return bad


def clean(folder, inp, case):
    end = mpi.Traced(body(inp.cfg), folder).next()
    if end[0] != 'done':
        raise Violation('run with good inputs ends with %s' % (end,),
                        case=case)
    want = prog.read_results(inp.out)
    shutil.rmtree(inp.out)
    return want


def restore(inp, good):
    for p, data in good.items():
        if os.path.islink(p):
            os.remove(p)
        elif os.path.isdir(p):
            shutil.rmtree(p)
        elif os.path.exists(p):
            os.chmod(p, 0o644)
        with open(p, 'wb') as f:
            f.write(data)


def run(env, case):
    folder = env.tmp()
    inp = inputs(folder)
    os.chdir(folder)
    k = case['k']
    if not hasattr(env, 'want'):
        env.want = clean(folder, inp, case)
    want = env.want
    if k in ('one', 'script', 'mpi'):
        for f, x in sorted(case['faults'], key=lambda v: v[0] == 'dem'):
            break_file(path_of(inp, f), x)
        what = ', '.join('%s %s' % tuple(x) for x in case['faults'])
        if k == 'script':
            pr = subprocess.run(
                [sys.executable, os.path.join(core.REPO,
                                              'all_multipliers.py'),
                 '-c', inp.cfg], cwd=folder, stdin=subprocess.DEVNULL,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                env={a: b for a, b in os.environ.items()
                     if a != 'LD_PRELOAD'})
            end = ('exit', pr.returncode)
            judge(case, end, inp, want, 'script with ' + what)
        elif k == 'mpi':
            several(case, folder, inp, want, what)
        else:
            end = mpi.Traced(body(inp.cfg), folder).next()
            judge(case, end, inp, want, what)
        env.count(key=case)
        env.sample(dict(case, end=str(end[:1]) if k != 'mpi' else ''))
        return
    if k in ('row', 'line'):
        (break_row if k == 'row' else break_line)(
            inp.table if k == 'row' else inp.cfg, case[k], case['n'])
        end = mpi.Traced(body(inp.cfg), folder).next()
        what = '%s %s with "%s"' % (k, case['n'], case[k])
        bad = judge(case, end, inp, want, what)
        env.count(key=case, nontrivial=bad)
        env.sample(dict(case, error=bad))
        return
    if k in ('setting', 'value'):
        lines = open(inp.cfg).read().split('\n')
        new, inside = [], False
        for line in lines:
            if line.startswith('['):
                inside = k == 'setting' and line == '[%s]' % \
                    case['setting'][0]
                if inside and case['setting'][1] is None:
                    continue
            name = line.split('=')[0].strip()
            if inside and case['setting'][1] in (None, name):
                continue
            if k == 'value' and name == case['value'][0]:
                line = '%s = %s' % tuple(case['value'])
            new.append(line)
        with open(inp.cfg, 'w') as f:
            f.write('\n'.join(new))
        end = mpi.Traced(body(inp.cfg), folder).next()
        what = 'setting %s' % (case.get('setting') or case.get('value'))
        bad = judge(case, end, inp, want, what)
        env.count(key=case)
        if not bad and not (k == 'setting' and
                            case['setting'][1] in ('root', 'LogLevel',
                                                   'Verbose')):
            raise Violation('run without an error with ' + what, case=case)
        return
    # during the run: each access in turn
    target = path_of(inp, case['file'])
    good = {path_of(inp, f): open(path_of(inp, f), 'rb').read()
            for f in FILES}
    n = 0
    while True:
        restore(inp, good)
        if os.path.isdir(inp.out):
            shutil.rmtree(inp.out)
        count = [0]
        hit = [None]

        def on_fs(op, p, q, x):
            if op in 'RS' and p == target:
                if count[0] == n:
                    hit[0] = op
                    break_file(target, case['fault'])
                count[0] += 1
            return b'g'

        end = mpi.Traced(body(inp.cfg), folder, on_fs, 'WXLP').next()
        what = '%s %s at access %d (%s)' % (case['file'], case['fault'], n,
                                            hit[0])
        if hit[0] is None:
            break
        judge(case, end, inp, want, what)
        env.count(key=[case, n])
        n += 1
    if n == 0 and case['file'] != 'cfg':
        raise Violation('%s is never read' % case['file'], case=case)


def several(case, folder, inp, want, what):
    """A process must fail; that the others then wait is up to MPI."""
    def program(rank, me):
        module = mpi.make_module(me)
        mpi.install(module)
        prog.run(inp.cfg)

    ranks = mpi.ProcessRanks(case['p'], program, folder)
    w = None
    try:
        w = mpi.World(ranks, 'eager')
        while not w.finished():
            sure, choices = w.transitions()
            if sure is None and not choices:
                break
            w.apply(sure or choices[0])
        ends = [e for e in w.end if e is not None and
                (e[0] in ('failed', 'died') or
                 (e[0] == 'exit' and e[1] not in (0, None)))]
        if ends:
            judge(case, ends[0], inp, want, what)
        else:
            judge(case, ('done', None), inp, want, what)
    except mpi.Mismatch:
        pass
    finally:
        if w is not None:
            w.close()
        else:
            ranks.close()
