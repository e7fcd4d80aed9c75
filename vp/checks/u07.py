"""U07: file helpers return what is in the files."""
import hashlib
import io
import itertools
import json
import logging
import os
import subprocess
import sys
import time

import numpy as np

from vp import core, prog
from vp.core import Violation

ID = 'U07'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of small arrays, file sizes around the '
             'multiples of the read size, and explicit-state exploration of '
             'sequences of saving, loading and logging and of chains of '
             'calls against a model of the files and of the stack')
NOTE = ('Every state is reached with the real helpers on real files in a '
        'scratch folder and compared with a model of the contents.')
RULE = ('arrays x formats x delimiters x headers x places; sizes x read '
        'sizes x names; sequences of logs with levels and modes. Distinct '
        'are those combinations.')
ASSUMPTIONS = ['the log that is judged is the first one of its process, as '
               'in the program']
TIMEOUT = 300

VALUES = (0., -0., 1., -1.5, 1. / 3, np.nan, np.inf, -np.inf, 5e-324,
          1.7976931348623157e308, 123456789.12345679, 2. ** 53 + 2)
SHAPES = [(1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1),
          (2, 3), (3, 2), (3, 3)]
DELIMITERS = (',', ' ', '\t', ';', '|', ', ')
FORMATS = ('%.18e', '%.17g', '%s', '%.3f', '%d')
HEADERS = ('', 'a,b', 'LON LAT', 'x\ny', '%', '1,2', '# note')
PLACES = ('bare', 'folder', 'new', 'deep new', 'relative', 'relative new',
          'again', 'with space', 'dotted')
LEVELS = ('NOTSET', 'DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL')
LOGS = ('new', 'existing', 'new folder', 'deep folder', 'bare', 'relative',
        'no extension', 'no place')


def cases(tier):
    deep = tier == 'thorough'
    for s in SHAPES:
        yield dict(k='arrays', shape=list(s), full=3 if deep else 2)
    for p in PLACES:
        yield dict(k='places', place=p)
    yield dict(k='loading')
    for c in (1, 2, 3, 7, 16, 64) if deep else (1, 2, 3, 16):
        yield dict(k='sizes', chunk=c)
    yield dict(k='sizes', chunk=None)
    yield dict(k='missing')
    yield dict(k='times')
    for level in LEVELS:
        yield dict(k='log', level=level)
    yield dict(k='logs', depth=4 if deep else 3)
    yield dict(k='log texts')
    for start in ('script', 'module', 'link', 'no version', 'spaces'):
        yield dict(k='callers', start=start, depth=4 if deep else 3)
    yield dict(k='fatal', size=4 if deep else 3)


def setup(env):
    import utilities.files  # noqa: F401


def run(env, case):
    old = os.getcwd()
    os.chdir(env.tmp())
    try:
        {'arrays': arrays, 'places': places, 'loading': loading,
         'sizes': sizes, 'missing': missing, 'times': times,
         'log': levels, 'logs': histories, 'log texts': texts,
         'callers': callers, 'fatal': fatal}[
             case['k']](env, case)
    finally:
        prog.reset_logging()
        os.chdir(old)


# -------------------------------------------------------------------- arrays

def fillings(shape, full):
    n = int(np.prod(shape))
    if n <= full:
        for v in itertools.product(VALUES, repeat=n):
            yield np.array(v).reshape(shape)
    else:
        for start in range(len(VALUES)):
            for step in (0, 1, 5):
                yield np.array([VALUES[(start + step * i) % len(VALUES)]
                                for i in range(n)]).reshape(shape)


def through(fmt, v):
    """The value a text in this format stands for."""
    return float(fmt % v)


def same(got, want):
    got = np.asarray(got)
    return (got.shape == want.shape and got.dtype.kind == 'f' and
            got.astype('f8').tobytes() == want.tobytes()) or (
                got.shape == want.shape and
                all((np.isnan(a) and np.isnan(b)) or
                    (a == b and np.signbit(a) == np.signbit(b))
                    for a, b in zip(got.ravel(), want.ravel())))


def arrays(env, case):
    from utilities.files import fl_load_file, fl_save_file
    shape = tuple(case['shape'])
    for data in fillings(shape, case['full']):
        small = np.size(data) <= 2
        for delimiter in DELIMITERS if small else DELIMITERS[:3]:
            for fmt in FORMATS:
                if fmt == '%d' and not np.isfinite(data).all():
                    continue
                for header in HEADERS[:4] if np.size(data) > 1 else HEADERS:
                    if np.size(data) == 2 and header and fmt != '%.18e' or \
                            not small and (fmt in ('%.17g', '%s') or
                                           header == 'LON LAT'):
                        continue
                    one_array(env, case, fl_save_file, fl_load_file, data,
                              delimiter, fmt, header)
    # other kinds of numbers, saved with the defaults
    for kind in ('f4', 'i4', 'i8', 'u1', 'list'):
        data = np.arange(int(np.prod(shape))).reshape(shape)
        fl_save_file('k', data.tolist() if kind == 'list' else
                     data.astype(kind))
        got = fl_load_file('k')
        if not same(got, np.squeeze(data.astype('f8'))):
            raise Violation('%s %s is read back as %s' % (kind, data, got),
                            case=case)
        env.count(key=[shape, kind])
    env.sample(case)


def one_array(env, case, save, load, data, delimiter, fmt, header):
    what = '%s, delimiter %r, format %s, header %r' % (
        data.tolist(), delimiter, fmt, header)
    before = data.copy()
    save('t', data, header=header, delimiter=delimiter, fmt=fmt)
    if data.tobytes() != before.tobytes():
        raise Violation('saving changes the array: %s' % what, case=case)
    got = load('t', delimiter=delimiter)
    want = np.squeeze(np.array([through(fmt, v) for v in data.ravel()])
                      .reshape(data.shape))
    if not same(got, want):
        raise Violation('%s is read back as %s' % (what, got), case=case)
    with io.open('t') as h:
        lines = h.read().split('\n')
    if header:
        n = header.count('\n') + 1
        top = '\n'.join(x.lstrip('%').lstrip() for x in lines[:n])
        if header.lstrip('%') not in top or not all(
                x.startswith('%') for x in lines[:n]):
            raise Violation('header of %s is %r' % (what, lines[:n]),
                            case=case)
        # the same, passing over the header
        if not same(load('t', delimiter=delimiter, skiprows=n), want):
            raise Violation('%s, passing over %d lines' % (what, n),
                            case=case)
    env.count(key=[data.tobytes().hex(), data.shape, delimiter, fmt, header])


def loading(env, case):
    """Comments, rows passed over and other delimiters in files of others."""
    from utilities.files import fl_load_file
    rows = ['1,2', '3,4', '5,6']
    for comments in ('%', '#', '!', '//'):
        for where in itertools.product((0, 1), repeat=4):
            for tail in (0, 1):
                for skip in range(3):
                    lines, values, number = [], [], 0
                    for i, r in enumerate(rows):
                        if where[i]:
                            lines.append(comments + ' words, words')
                        lines.append(r + (comments + 'end' if tail else ''))
                    if where[3]:
                        lines.append(comments)
                    for number, text in enumerate(lines):
                        if number >= skip and not text.startswith(comments):
                            values.append([float(x) for x in text.split(
                                comments)[0].split(',')])
                    with open('c', 'w') as h:
                        h.write('\n'.join(lines) + '\n')
                    got = fl_load_file('c', comments=comments,
                                       skiprows=skip)
                    if not same(got, np.squeeze(np.array(values))):
                        raise Violation('%r passing over %d: %s'
                                        % (lines, skip, got), case=case)
                    env.count(key=[comments, where, tail, skip])
    # rows of different lengths: refused, or none is lost
    for lengths in itertools.product((1, 2, 3), repeat=4):
        if len(set(lengths)) == 1:
            continue
        with open('c', 'w') as h:
            for i, n in enumerate(lengths):
                h.write(','.join('%d' % (10 * i + j) for j in range(n)) +
                        '\n')
        try:
            got = fl_load_file('c')
        except (ValueError, IndexError):
            got = None
        if got is not None and (len(got) != 4 or not all(
                float(10 * i + j) in got[i] for i, n in enumerate(lengths)
                for j in range(n))):
            raise Violation('rows of %s columns are read as %s'
                            % (lengths, got), case=case)
        env.count(key=lengths)
    for text in ('1,2\n', '1,2', '1,,2\n', '1,x\n', ' 1 , 2 \n'):
        for source in ('name', 'handle', 'lines'):
            with open('c', 'w') as h:
                h.write(text)
            if source == 'name':
                got = fl_load_file('c')
            elif source == 'handle':
                with open('c') as h:
                    got = fl_load_file(h)
            else:
                got = fl_load_file(iter(text.splitlines()))
            want = []
            for x in text.strip('\n').split(','):
                try:
                    want.append(float(x))
                except ValueError:
                    want.append(np.nan)
            if not same(got, np.array(want)):
                raise Violation('%r is read as %s' % (text, got), case=case)
            env.count(key=[text, source])
    env.sample(case)


def places(env, case):
    from utilities.files import fl_load_file, fl_save_file
    place = case['place']
    here = os.getcwd()
    os.mkdir('old')
    name = {'bare': 'a.txt', 'folder': here + '/old/a.txt',
            'new': here + '/n/a.txt', 'deep new': here + '/n/m/o/a.txt',
            'relative': 'old/a.txt', 'relative new': 'x/y/a.txt',
            'again': 'old/b.txt', 'with space': 'a b/c d.txt',
            'dotted': './old/../p.q/a.b.csv'}[place]
    if place == 'again':
        fl_save_file(name, np.ones((20, 5)), header='old')
    for i, data in enumerate((np.array([[1., 2.], [3., 4.]]),
                              np.array([[5., 6., 7.]]),
                              np.array([8.]))):
        fl_save_file(name, data)
        got = fl_load_file(name)
        if not same(got, np.squeeze(data)):
            raise Violation('saved %s as %s: read back %s'
                            % (data.tolist(), name, got), case=case)
        found = sorted(os.path.join(d, f) for d, _, fs in os.walk(here)
                       for f in fs)
        if found != [os.path.realpath(name)]:
            raise Violation('saving %s leaves files %s' % (name, found),
                            case=case)
        env.count(key=[place, i], states=1, transitions=1, traces=1)
    # a place that cannot be
    fl_save_file('plain', np.array([1.]))
    try:
        fl_save_file('plain/x', np.array([1.]))
    except (IOError, OSError):
        pass
    else:
        raise Violation('saved below a file', case=case)
    if not same(fl_load_file('plain'), np.array(1.)):
        raise Violation('file replaced by a folder', case=case)
    env.count(key=[place, 'below a file'])
    env.sample(case)


# --------------------------------------------------------------- file facts

PATTERNS = (b'\0', b'a', b'\n', b'\r\n', b'\x1a\xff', b'abc\0', bytes(
    bytearray(range(256))))


def contents(n):
    for p in PATTERNS:
        yield (p * (n // len(p) + 1))[:n]


def facts(env, case, name, data, **kw):
    from utilities.files import fl_get_stat, fl_mod_date, fl_size
    got = fl_get_stat(name, **kw)
    st = os.stat(name)
    want = (os.path.dirname(name), os.path.basename(name),
            hashlib.md5(data).hexdigest(), time.ctime(st.st_mtime))
    if tuple(got) != want:
        raise Violation('%s of %d bytes %s: %s, expected %s'
                        % (name, len(data), kw, got, want), case=case)
    if fl_size(name) != len(data):
        raise Violation('size of %s: %s, not %d'
                        % (name, fl_size(name), len(data)), case=case)
    date = time.strftime('%Y-%m-%d %H:%M:%S', time.localtime(st.st_mtime))
    if fl_mod_date(name) != date:
        raise Violation('date of %s: %s, not %s'
                        % (name, fl_mod_date(name), date), case=case)
    env.count(key=[name, len(data), sorted(kw.items()),
                   hashlib.md5(data).hexdigest()])


def write(name, data):
    with open(name, 'wb') as h:
        h.write(data)


def sizes(env, case):
    chunk = case['chunk']
    if chunk is None:
        c = 2 ** 16
        for n in (0, 1, c - 1, c, c + 1, 2 * c - 1, 2 * c, 2 * c + 1,
                  3 * c, 5 * c + 3):
            for data in contents(n):
                write('f', data)
                facts(env, case, 'f', data)
        for c in (2 ** 16 + 1, 2 ** 17, 10 ** 6):
            for n in (2 ** 16 - 1, 2 ** 16, 2 ** 16 + 1, c - 1, c, c + 1,
                      2 * c, 2 * c + 1):
                for data in contents(n):
                    write('f', data)
                    facts(env, case, 'f', data, chunk_whole=c)
        # names
        os.makedirs('d e/f')
        for name in ('a', 'a b', '.hidden', 'x.tar.gz', u'\xe9\u4e2d', 'd e/x',
                     'd e/f/y.z', './a', 'd e/../a', os.getcwd() + '/abs'):
            write(name, b'one')
            facts(env, case, name, b'one')
            write(name, b'other')
            facts(env, case, name, b'other')
        os.symlink('abs', 'link')
        facts(env, case, 'link', b'other')
    else:
        for n in range(3 * chunk + 2):
            for data in contents(n):
                write('f', data)
                facts(env, case, 'f', data, chunk_whole=chunk)
    env.sample(case)


def missing(env, case):
    from utilities.files import fl_get_stat, fl_mod_date, fl_size
    write('file', b'x')
    os.symlink('nowhere', 'dangling')
    os.symlink('loop', 'loop')
    for name in ('no', 'no/no', 'file/x', 'dangling', 'loop', '',
                 os.getcwd() + '/no', 'n' * 300):
        for f in (fl_get_stat, fl_mod_date, fl_size):
            try:
                got = f(name)
            except IOError:
                pass
            except Exception as e:
                raise Violation('%s of %r raises %r' % (f.__name__, name, e),
                                case=case)
            else:
                raise Violation('%s of %r, which does not exist, is %s'
                                % (f.__name__, name, got), case=case)
            env.count(key=[f.__name__, name])
    if sorted(os.listdir('.')) != ['dangling', 'file', 'loop']:
        raise Violation('asking for files leaves %s' % os.listdir('.'),
                        case=case)
    env.sample(case)


def times(env, case):
    from utilities.files import fl_get_stat, fl_mod_date
    write('f', b'x')
    zone = os.environ.get('TZ')
    try:
        for tz in ('UTC', 'Australia/Canberra', 'EST+5EDT', 'XXX-9:30'):
            os.environ['TZ'] = tz
            time.tzset()
            for t in (0, 1, 86399, 86400, 951782400, 1330473599,
                      1583020799, 1700000000, 2000000000, 1700000000.9):
                os.utime('f', (5, t))
                os.stat('f')
                want = time.ctime(t)
                if fl_get_stat('f')[3] != want:
                    raise Violation('time %s in %s: %s, not %s'
                                    % (t, tz, fl_get_stat('f')[3], want),
                                    case=case)
                for fmt in (None, '%Y-%m-%dT%H:%M:%S', '%d/%m/%y', '%s'):
                    got = fl_mod_date('f') if fmt is None else \
                        fl_mod_date('f', dateformat=fmt)
                    want = time.strftime(fmt or '%Y-%m-%d %H:%M:%S',
                                         time.localtime(t))
                    if got != want:
                        raise Violation('time %s in %s: %s, not %s'
                                        % (t, tz, got, want), case=case)
                env.count(key=[tz, t])
    finally:
        if zone is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = zone
        time.tzset()
    env.sample(case)


# ---------------------------------------------------------------------- logs

NUMBER = {k: getattr(logging, k) for k in LEVELS}
MESSAGES = [(5, 'fine'), (10, 'debug'), (15, 'between'), (20, 'info'),
            (30, 'warning'), (35, 'more'), (40, 'error'), (50, 'critical'),
            (60, 'beyond')]


def start(case, name, level, **kw):
    from utilities.files import fl_start_log
    prog.reset_logging()
    out = fl_start_log(name, level, **kw)
    if out is not logging.getLogger():
        raise Violation('starting a log gives %r' % (out,), case=case)


def speak(tag, who=None):
    for n, m in MESSAGES:
        logging.getLogger(who).log(n, '%s-%s-%%s' % (tag, m), 7)


def heard(tag, level):
    return ['%s-%s-7' % (tag, m) for n, m in MESSAGES if n >= level]


def said(name):
    """The messages of ours in a log, in order."""
    with open(name) as h:
        lines = h.read().splitlines()
    return [x.split(': ', 1)[-1] for x in lines if x.endswith('-7')], lines


def levels(env, case):
    level = case['level']
    for place, new, stamp, verbose, tty, who in itertools.product(
            LOGS, (True, False, None), (False, True), (False, True),
            (False, True), (None, 'utilities.files')):
        if tty and not verbose or stamp and place == 'no place':
            continue
        prog.reset_logging()
        base = env.tmp()
        os.chdir(base)
        os.mkdir('old')
        old = []
        name = {'new': base + '/old/n.log', 'existing': base + '/old/e.log',
                'new folder': base + '/a/n.log',
                'deep folder': base + '/a/b/c/n.log', 'bare': 'n.log',
                'relative': 'old/n.log', 'no extension': base + '/old/n',
                'no place': base + '/old/e.log/n.log'}[place]
        with open('old/e.log', 'w') as h:
            h.write('x: earlier-7\n')
        if place == 'existing' and not stamp:
            old = ['earlier-7'] if new is False else []
        kw = {} if new is None else dict(newlog=new)
        if stamp:
            kw['datestamp'] = True
        if verbose:
            kw['verbose'] = True
        screen = Screen(tty)
        before = time.time()
        outs = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = screen
        try:
            start(case, name, level, **kw)
            speak('m', who)
        finally:
            sys.stdout, sys.stderr = outs
        files = [name]
        if stamp:
            b, e = os.path.splitext(name)
            files = ['%s.%s.%s' % (b, time.strftime(
                '%Y%m%d%H%M', time.localtime(t)), e.lstrip('.'))
                for t in (before, time.time())]
        if place == 'no place':
            # where no folder can be: in the working folder
            files = ['n.log']
        found = [f for f in files if os.path.isfile(f)]
        what = 'log %s of level %s, %s' % (name, level, kw)
        if not found:
            raise Violation('%s: there is no such file, only %s'
                            % (what, prog_files(base)), case=case)
        got, lines = said(found[0])
        want = old + heard('m', NUMBER[level])
        if got != want:
            raise Violation('%s: messages %s, expected %s'
                            % (what, got, want), case=case)
        if place != 'no place' and place != 'existing' or stamp:
            if said('old/e.log')[0] != ['earlier-7']:
                raise Violation('%s: another log is changed' % what,
                                case=case)
        shown = [x.split(': ', 1)[-1] for x in ''.join(
            screen.text).splitlines() if x.endswith('-7')]
        if shown != (heard('m', NUMBER[level]) if verbose and tty else []):
            raise Violation('%s: the screen shows %s' % (what, shown),
                            case=case)
        env.count(key=[level, place, new, stamp, verbose, tty, who],
                  states=1, transitions=len(MESSAGES) + 1, traces=1)
    env.sample(case)


def prog_files(base):
    return sorted(os.path.relpath(os.path.join(d, f), base)
                  for d, _, fs in os.walk(base) for f in fs)


class Screen(object):
    def __init__(self, tty):
        self.tty, self.text = tty, []

    def isatty(self):
        return self.tty

    def write(self, text):
        self.text.append(text)

    def flush(self):
        pass


def histories(env, case):
    """Runs one after the other, each starting a log."""
    base = env.tmp()
    os.chdir(base)
    ops = [(f, new, level) for f in ('a.log', 'logs/b.log')
           for new in (True, False) for level in ('INFO', 'ERROR')]
    for n in range(1, case['depth'] + 1):
        for seq in itertools.product(ops, repeat=n):
            model = {}
            for f in ('a.log', 'logs/b.log'):
                if os.path.exists(f):
                    os.remove(f)
            for i, (f, new, level) in enumerate(seq):
                start(case, f, level, newlog=new)
                for m in (20, 40):
                    logging.getLogger('x').log(m, 'r%d-%d-7', i, m)
                mine = ['r%d-%d-7' % (i, m) for m in (20, 40)
                        if m >= NUMBER[level]]
                model[f] = ([] if new else model.get(f, [])) + mine
            prog.reset_logging()
            for f in ('a.log', 'logs/b.log'):
                got = said(f)[0] if os.path.exists(f) else None
                if got != model.get(f):
                    raise Violation('logs %s: %s has %s, expected %s'
                                    % (seq, f, got, model.get(f)), case=case)
            env.count(key=seq, states=1, transitions=n, traces=1)
    env.sample(case)


def texts(env, case):
    """What the messages are made of."""
    values = ['plain', '100%', 'two\nlines', '', u'\xe9', '%s', ' x ']
    for v in values:
        for args in ((), (1,)):
            base = env.tmp()
            os.chdir(base)
            start(case, 't.log', 'INFO')
            log = logging.getLogger()
            if args:
                log.info('value %s end', v)
            else:
                log.info(v)
            try:
                raise KeyError('inner')
            except KeyError:
                log.exception('failed')
            prog.reset_logging()
            with io.open('t.log', encoding='utf-8') as h:
                text = h.read()
            if (v if not args else 'value %s end' % v) not in text:
                raise Violation('message %r is not in the log' % v,
                                case=case)
            if 'failed' not in text or 'KeyError' not in text or \
                    'inner' not in text:
                raise Violation('an exception is not in the log', case=case)
            env.count(key=[v, args])
    env.sample(case)


def fatal(env, case):
    """The lines of a traceback are logged and the program ends."""
    from utilities.files import fl_log_fatal_error
    alphabet = ['Traceback (most recent call last):', '  File "x", line 1',
                '\ttabs', '', '100% %s %d', u'caf\xe9']
    for n in range(case['size'] + 1):
        for lines in itertools.product(alphabet, repeat=n):
            for level in ('CRITICAL', 'INFO') if n < 3 else ('ERROR',):
                start(case, 'fatal.log', level)
                keep = list(lines)
                try:
                    fl_log_fatal_error(keep)
                except SystemExit:
                    pass
                else:
                    raise Violation('the program goes on after the fatal '
                                    'error %s' % keep, case=case)
                if keep != list(lines):
                    raise Violation('the lines %s are changed' % (lines,),
                                    case=case)
                prog.reset_logging()
                with io.open('fatal.log') as h:
                    got = h.read().splitlines()
                got = [x.split(': ', 1)[1] for x in got]
                want = [x.lstrip() for x in lines]
                if got[len(got) - n:] != want:
                    raise Violation('fatal error %s: log has %s'
                                    % (want, got), case=case)
                env.count(key=[lines, level], states=1, transitions=1,
                          traces=1)
    env.sample(case)


# ------------------------------------------------------------------- callers

MODULE = '''
import sys
from utilities import files
%(version)s


def %(name)s_step(chain, mods):
    if not chain:
        out = {}
        for n in range(1, len(mods['depth']) + 1):
            out['path %%d' %% n] = files.fl_module_path(n)
            out['name %%d' %% n] = files.fl_module_name(n)
            out['version %%d' %% n] = files.fl_program_version(n)
            out['config %%d' %% n] = files.fl_config_file('.ini', 'p_', n + 1)
        out['path'] = files.fl_module_path()
        out['name'] = files.fl_module_name()
        out['version'] = files.fl_program_version()
        out['config'] = [files.fl_config_file(), files.fl_config_file('.log'),
                         files.fl_config_file('.x', 'pre.'),
                         files.fl_config_file(prefix='q')]
        return out
    return mods[chain[0]](chain[1:], mods)
'''
MAIN = '''
import itertools
import json
import os
import sys
sys.path[:0] = [os.environ['VP_CODE'], os.environ['VP_MODS']]
import one
from sub import two_x
from utilities import files
%(version)s
mods = {'one': one.one_step, 'two': two_x.two_step}
out = []
for n in range(1, %(depth)d + 1):
    for chain in itertools.product(('one', 'two'), repeat=n):
        mods['depth'] = chain
        out.append([chain, mods[chain[0]](chain[1:], mods)])
out.append([[], {
    'path': files.fl_module_path(), 'name': files.fl_module_name(),
    'version': files.fl_program_version(),
    'version 1': files.fl_program_version(1), 'path 1':
    files.fl_module_path(1), 'name 1': files.fl_module_name(1),
    'config': [files.fl_config_file(), files.fl_config_file('.log'),
               files.fl_config_file('.x', 'pre.'),
               files.fl_config_file(prefix='q')],
    'config 1': files.fl_config_file('.ini', 'p_', 2)}])
print(json.dumps(out))
'''


def callers(env, case):
    """Where the callers at every depth of every chain of calls are."""
    base = os.path.realpath(env.tmp())
    kind = case['start']
    mods = os.path.join(base, 'mods')
    os.makedirs(os.path.join(mods, 'sub'))
    places = {'one': [mods, 'one', '.py'],
              'two': [mods + '/sub', 'two_x', '.py']}
    version = {'one': '1.0 one', 'two': '', 'main': '3.3'}
    with open(os.path.join(mods, 'one.py'), 'w') as h:
        h.write(MODULE % dict(name='one', version="__version__ = '1.0 one'"))
    with open(os.path.join(mods, 'sub', '__init__.py'), 'w') as h:
        h.write("__version__ = 'sub'\n")
    with open(os.path.join(mods, 'sub', 'two_x.py'), 'w') as h:
        h.write(MODULE % dict(name='two', version=''))
    folder = os.path.join(base, 'a b.c' if kind == 'spaces' else 'prog')
    os.mkdir(folder)
    name = {'spaces': 'my prog.v2.py', 'no version': 'noext'}.get(
        kind, 'main.py')
    if kind == 'no version':
        version['main'] = ''
    main = os.path.join(folder, name)
    with open(main, 'w') as h:
        h.write(MAIN % dict(depth=case['depth'], version="__version__ = '3.3'"
                            if version['main'] else ''))
    places['main'] = [folder] + list(os.path.splitext(name))
    cmd, cwd = [main], base
    if kind == 'link':
        os.symlink(main, os.path.join(base, 'other.py'))
        cmd = ['other.py']
    elif kind == 'module':
        cmd, cwd = ['-m', 'main'], folder
    elif kind == 'spaces':
        cmd, cwd = [name], folder
    p = subprocess.run([sys.executable] + cmd, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=200,
                       env=dict(os.environ, VP_CODE=core.REPO, VP_MODS=mods))
    if p.returncode:
        raise Violation('a program that asks for its callers fails: %s'
                        % p.stderr.decode(errors='replace')[-600:], case=case)
    for chain, got in json.loads(p.stdout.decode()):
        frames = list(chain[::-1]) + ['main']
        # run as a module there are frames of the interpreter above
        top = kind != 'module'
        want = {}
        for n in range(1, (len(chain) or 1) + 1):
            folder, stem, ext = places[frames[n - 1]]
            want['path %d' % n] = [folder, stem, ext]
            want['name %d' % n] = stem
            want['version %d' % n] = version[frames[n - 1]]
            want['config %d' % n] = folder + '/p_' + stem + '.ini'
        want['path'] = places[frames[0]]
        want['name'] = places[frames[0]][1]
        if top:
            folder, stem, ext = places['main']
            want['version'] = version['main']
            want['config'] = [folder + '/' + x for x in (
                stem + '.ini', stem + '.log', 'pre.' + stem + '.x',
                'q' + stem + '.ini')]
        for k, v in want.items():
            if got[k] != v:
                raise Violation('called through %s: %s is %s, expected %s'
                                % (chain, k, got[k], v), case=case)
        env.count(key=[kind, chain], evaluations=len(want), states=1,
                  transitions=len(frames), traces=1)
    env.sample(case)
