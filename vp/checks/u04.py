"""U04: the configuration file named is the one in effect."""
import itertools
import os
import subprocess
import sys

from vp import core
from vp.core import Violation

ID = 'U04'
LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of all sequences of naming, changing '
             'and deleting configuration files and reading settings, the '
             'implementation stepped together with a model')
NOTE = ('The model is a dictionary of settings and of file contents; its '
        'states are explored breadth first to the bounded depth, each '
        'transition is done by the real configuration object, starting from '
        'the same sequence, and all settings compared in each state. The '
        'default file and the files of the working directory are observed in '
        'new processes.')
RULE = ('sequences of operations over four files; distinct are the model '
        'states (settings in effect, contents of the files).')
ASSUMPTIONS = ['files are changed only between the operations']
TIMEOUT = 300

# contents of the files: variants by number
FILES = {
    'a': ['[inputValues]\nroot = a0\nupwind_length = 0.5\n'
          '[Logging]\nVerbose = True\n',
          '[inputValues]\nroot = a1\ndem_data = \u00e9 x.tif\n'],
    'b': ['[inputValues]\nroot = b0\n[Output]\noutput_dir = o b\n',
          '[Output]\noutput_dir = other\n[Extra]\nroot = e\n'],
    'c': ['', '[Logging]\nverbose = False\nroot = low\n'],
    'no': [None, '[inputValues]\nroot = now\n'],
}
PARSED = {
    ('a', 0): {('inputValues', 'root'): 'a0',
               ('inputValues', 'upwind_length'): '0.5',
               ('Logging', 'verbose'): 'True'},
    ('a', 1): {('inputValues', 'root'): 'a1',
               ('inputValues', 'dem_data'): '\u00e9 x.tif'},
    ('b', 0): {('inputValues', 'root'): 'b0',
               ('Output', 'output_dir'): 'o b'},
    ('b', 1): {('Output', 'output_dir'): 'other', ('Extra', 'root'): 'e'},
    ('c', 0): {},
    ('c', 1): {('Logging', 'verbose'): 'False', ('Logging', 'root'): 'low'},
    ('no', 1): {('inputValues', 'root'): 'now'},
}
ALL = sorted({k for v in PARSED.values() for k in v})
OPS = [('set', f) for f in sorted(FILES)] + \
    [('write', f) for f in sorted(FILES)]


def cases(tier):
    depth = 5 if tier == 'thorough' else 4
    for first in OPS:
        yield dict(k='sequences', first=list(first), depth=depth)
    for k in ('default', 'cwd', 'script', 'users'):
        yield dict(k=k)


def write(folder, f, n):
    path = os.path.join(folder, f + '.cfg')
    text = FILES[f][n]
    if text is None:
        if os.path.exists(path):
            os.remove(path)
        return
    with open(path, 'w', encoding='utf-8') as h:
        h.write(text)


class Model(object):
    def __init__(self):
        self.values = {}
        self.number = {f: 0 for f in FILES}

    def apply(self, op):
        """Whether the operation succeeds."""
        k, f = op
        if k == 'write':
            self.number[f] = 1 - self.number[f]
            return True
        if FILES[f][self.number[f]] is None:
            return False
        self.values = merged(self.values, PARSED[f, self.number[f]])
        return True

    @property
    def key(self):
        return (tuple(sorted(self.values.items())),
                tuple(sorted(self.number.items())))


def merged(a, b):
    a = dict(a)
    a.update(b)
    return a


def compare(parser, model, what, case):
    for section, name in ALL:
        want = model.values.get((section, name))
        got = parser.get(section, name) \
            if parser.has_option(section, name) else None
        if got != want:
            raise Violation('%s: setting %s of %s is %r instead of %r'
                            % (what, name, section, got, want), case=case)
    if model.values.get(('Logging', 'verbose')) is not None:
        if parser.getboolean('Logging', 'Verbose') != \
                (model.values['Logging', 'verbose'] == 'True'):
            raise Violation(what + ': boolean setting', case=case)
    if ('inputValues', 'upwind_length') in model.values and \
            float(parser.get('inputValues', 'upwind_length')) != .5:
        raise Violation(what + ': number setting', case=case)


def run(env, case):
    folder = env.tmp()
    if case['k'] != 'sequences':
        return processes(env, case, folder)
    from utilities import config
    parser = config.configparser
    seen = set()
    frontier = [(tuple(case['first']),)]
    for depth in range(1, case['depth'] + 1):
        new = []
        for seq in frontier:
            # the model and the implementation, along the same operations
            parser.clear()
            model = Model()
            file_ = getattr(parser, 'config_file', None)
            for f in FILES:
                write(folder, f, 0)
            for op in seq:
                ok = model.apply(op)
                if op[0] == 'write':
                    write(folder, op[1], model.number[op[1]])
                    continue
                try:
                    parser.set_config_file(
                        os.path.join(folder, op[1] + '.cfg'))
                    done = True
                except IOError:
                    done = False
                if ok:
                    file_ = os.path.join(folder, op[1] + '.cfg')
                if getattr(parser, 'config_file', file_) != file_:
                    raise Violation('%s: the configuration file is %r'
                                    % (seq, parser.config_file), case=case)
                if done != ok:
                    raise Violation(
                        '%s: naming file %s %s' % (seq, op[1], 'succeeds' if
                                                   done else 'fails'),
                        case=case)
            compare(parser, model, str(seq), case)
            if config.configparser is not parser:
                raise Violation('another configuration object', case=case)
            env.count(transitions=1, traces=1)
            key = model.key
            if key not in seen or depth < 3:
                if key not in seen:
                    env.count(key=repr(key), evaluations=0, states=1)
                seen.add(key)
                new += [seq + (op,) for op in OPS]
        frontier = new
    env.sample(dict(case, states=len(seen)))


def processes(env, case, folder):
    """The configuration as new processes see it."""
    k = case['k']
    top = core.REPO
    write(folder, 'a', 0)
    with open(os.path.join(folder, 'multiplier_conf.cfg'), 'w') as f:
        f.write('[inputValues]\nroot = cwd\n')
    code = ('import sys\nsys.path.insert(0, %r)\n'
            'from utilities.config import configparser as c\n' % top)
    if k == 'users':
        # every module that reads settings sees the same ones
        code += ('c.set_config_file(%r)\n'
                 'import all_multipliers, terrain.terrain_mult\n'
                 'import shielding.shield_mult\n'
                 'seen = [m.config.get("inputValues", "root") for m in '
                 '(all_multipliers, terrain.terrain_mult, '
                 'shielding.shield_mult) if hasattr(m, "config") and '
                 'hasattr(m.config, "get")]\n'
                 'print(set(seen) <= {"a0"})\n'
                 % os.path.join(folder, 'a.cfg'))
        want = 'True'
    elif k == 'script':
        code += ('c.set_config_file("a.cfg")\n'
                 'import os\nos.chdir("/")\n'
                 'print(c.get("inputValues", "root"), '
                 'c.has_option("Output", "output_dir"))\n')
        want = 'a0 True'
    else:
        code += 'print(c.get("inputValues", "root"))\n'
        import configparser
        d = configparser.RawConfigParser()
        d.read(os.path.join(top, 'multiplier_conf.cfg'))
        want = d.get('inputValues', 'root')
    r = subprocess.run([sys.executable, '-B', '-c', code],
                       cwd='/' if k == 'default' else folder,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True)
    if r.stdout.strip().split('\n')[-1] != want or r.returncode:
        raise Violation('%s: %r (%s) instead of %r'
                        % (k, r.stdout, r.stderr[-400:], want), case=case)
    env.count(key=case)
