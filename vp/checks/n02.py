"""N02: multiplier files are complete and describe themselves."""
import itertools
import os

import numpy as np

from vp import util
from vp.core import Violation

ID = 'N02'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of multipliers, directions, shapes, all '
             'patterns of missing cells, previous contents of the file, and '
             'of all small descriptions of dimensions and variables with '
             'every possible omission; every file read back in full')
NOTE = ('All 2^4 (2^6) patterns of missing cells, all 24 files of a tile, all '
        'descriptions of up to 3 dimensions and 3 variables over all subsets '
        'of dimensions, every key left out, every rank mismatch. Git really '
        'runs, and is also made to fail in each way it can.')
RULE = ('multipliers x directions x shapes x no-data patterns in '
        'save_multiplier, with all kinds of previous files; dimension counts '
        'x variables over dimension subsets x faults in nc_save_grid. '
        'Non-trivial: some cell missing, an earlier file, or several '
        'variables.')
ASSUMPTIONS = ['nothing else writes to the file meanwhile']
TIMEOUT = 120

NAMES = {'Mz': 'terrain', 'Ms': 'shielding', 'Mt': 'topographic'}
BEFORE = ('none', 'junk', 'large', 'other', 'netcdf4')
VALUES = (1.0, 0.1, 1.7100001, -3.5, 1e-30, 123456.789)


def cases(tier):
    deep = tier == 'thorough'
    for name in NAMES:
        for d in util.DIRS:
            yield dict(k='direction', name=name, d=d)
    for rows, cols in ((1, 1), (1, 2), (2, 1), (2, 2)) + \
            (((1, 5), (2, 3), (3, 2)) if deep else ((1, 3),)):
        yield dict(k='missing', shape=[rows, cols])
    for shape in ([70, 130], [300, 260], [1300, 3], [3, 1300]):
        yield dict(k='large', shape=shape)
    for b in BEFORE:
        yield dict(k='before', before=b)
    for git in ('tag', 'error', 'absent', 'elsewhere'):
        yield dict(k='git', git=git)
    yield dict(k='settings')
    for nd in range(1, 5 if deep else 4):
        for nv in range(0, 4 if deep else 3):
            yield dict(k='grid', nd=nd, nv=nv)
    yield dict(k='grid', nd=1, nv=5)
    yield dict(k='grid', nd=1, nv=7)
    yield dict(k='faults')
    yield dict(k='create')
    yield dict(k='options')


class Git(object):
    """What the git command does."""

    def __init__(self, how):
        import subprocess
        self.real = subprocess
        self.how = how
        self.cwd = []

    def __getattr__(self, name):
        return getattr(self.real, name)

    def check_output(self, *a, **k):
        self.cwd.append(k.get('cwd'))
        if self.how == 'error':
            raise self.real.CalledProcessError(128, 'git')
        if self.how == 'absent':
            raise OSError(2, 'git')
        return b'v2.0-3-gabcdef\n'


def git(how):
    from utilities import nctools
    g = Git(how)
    if hasattr(nctools, 'subprocess'):
        nctools.subprocess = g
    return g


def setup(env):
    from utilities import nctools
    env.subprocess = getattr(nctools, 'subprocess', None)


def judge(path, name, d, data, lat, lon, case, settings=None):
    from netCDF4 import Dataset
    want = np.array(data, 'float32')
    ds = Dataset(path)
    ds.set_auto_mask(False)
    try:
        if set(ds.variables) != {'lat', 'lon', name, 'crs'} or \
                list(ds.dimensions) != ['lat', 'lon']:
            raise Violation('variables %s, dimensions %s in the file'
                            % (sorted(ds.variables), list(ds.dimensions)),
                            case=case)
        for axis, values, unit, std in (
                ('lat', lat, 'degrees_north', 'latitude'),
                ('lon', lon, 'degrees_east', 'longitude')):
            v = ds.variables[axis]
            if v.dimensions != (axis,) or v.dtype != np.float64 or \
                    not np.array_equal(v[:], np.array(values, float)):
                raise Violation('%s is %s instead of %s'
                                % (axis, v[:], values), case=case)
            if v.units != unit or v.standard_name != std or \
                    tuple(np.atleast_1d(v.actual_range)) != \
                    (min(values), max(values)):
                raise Violation('attributes of %s: %s' % (axis, v.__dict__),
                                case=case)
        v = ds.variables[name]
        raw = v[:]
        if v.dimensions != ('lat', 'lon') or raw.dtype != np.float32:
            raise Violation('%s is %s %s' % (name, v.dimensions, raw.dtype),
                            case=case)
        if float(v._FillValue) != -9999:
            raise Violation('no-data value %r' % v._FillValue, case=case)
        raw = np.array(raw)
        raw[raw == -9999] = np.nan
        util.same(raw, want, 0, 'values read back', case)
        ok = want[~np.isnan(want)]
        if ok.size:
            rng = np.atleast_1d(v.actual_range)
            if not (len(rng) == 2 and
                    abs(float(rng[0]) - ok.min()) <= 1e-6 * abs(ok.min()) and
                    abs(float(rng[1]) - ok.max()) <= 1e-6 * abs(ok.max())):
                raise Violation('range %s of %s' % (rng, ok), case=case)
        c = ds.variables['crs']
        if c.dimensions != () or \
                c.grid_mapping_name != 'latitude_longitude' or \
                abs(c.semi_major_axis - 6378137) > .5 or \
                not 298.2 < c.inverse_flattening < 298.3:
            raise Violation('coordinate system %s' % c.__dict__, case=case)
        # the multiplier says which variable is its coordinate system
        if getattr(v, 'grid_mapping', None) != 'crs' or \
                c.longitude_of_prime_meridian != 0:
            raise Violation('%s refers to %r as its coordinate system %s' % (
                name, getattr(v, 'grid_mapping', None), c.__dict__),
                case=case)
        for x, axis in (('lat', 'Y'), ('lon', 'X')):
            x = ds.variables[x]
            if getattr(x, 'axis', None) != axis or \
                    not getattr(x, 'long_name', ''):
                raise Violation('coordinates described by %s' % x.__dict__,
                                case=case)
        a = ds.__dict__
        for text, where in ((NAMES[name], 'Abstract'),
                            (' in %s direction' % d, 'Abstract'),
                            (name, 'title')):
            if text not in str(a.get(where)):
                raise Violation('%s is %r' % (where, a.get(where)), case=case)
        from utilities.config import configparser as config
        for t in (config.get('inputValues', 'terrain_data'),
                  config.get('inputValues', 'dem_data')):
            if t not in str(a.get('Inputs')):
                raise Violation('Inputs is %r' % a.get('Inputs'), case=case)
        for section in config.sections():
            for option in config.options(section):
                v = config.get(section, option)
                if a.get('%s_%s' % (section, option)) != v:
                    raise Violation('setting %s %s is %r instead of %r' % (
                        section, option,
                        a.get('%s_%s' % (section, option)), v), case=case)
        for k in ('Git_version', 'Python_version', 'Created_on',
                  'Conventions'):
            if not str(a.get(k, '')):
                raise Violation('no attribute ' + k, case=case)
        return a
    finally:
        ds.close()


def previous(path, how):
    from netCDF4 import Dataset
    if how == 'junk':
        open(path, 'w').write('junk' * 5000)
    elif how in ('large', 'other', 'netcdf4'):
        ds = Dataset(path, 'w', format='NETCDF4' if how == 'netcdf4'
                     else 'NETCDF3_CLASSIC')
        n = 300 if how == 'large' else 2
        ds.createDimension('lat', n)
        ds.createDimension('lon', n)
        v = ds.createVariable('Ms' if how != 'other' else 'old', 'f',
                              ('lat', 'lon'))
        v[:] = 7
        ds.setncattr('leftover', 'x')
        ds.close()


def run(env, case):
    from utilities import nctools
    if env.subprocess is not None:
        nctools.subprocess = env.subprocess
    folder = env.tmp()
    util.use_table(folder, dem='some_dem.tif', terrain='some_lc.tif')
    k = case['k']
    lat, lon = [-10.125, -10.375], [145.0001, 145.2501, 145.5001]

    if k == 'direction':
        name, d = case['name'], case['d']
        data = util.generic(2, 3, len(d))
        for stem in ('e145.5s10.25', 'e0.0s-1.5', 'e_x_n', 'a.b.c'):
            for top in (folder, os.path.join(folder, 'a.b_s')):
                os.makedirs(top, exist_ok=True)
                path = os.path.join(top, '%s_%s_%s.nc'
                                    % (stem, name.lower(), d))
                nctools.save_multiplier(name, data, lat, lon, path)
                judge(path, name, d, data, lat, lon, case)
                env.count(key=[name, d, stem, top != folder])
        if set(os.listdir(folder)) - {'table.csv', 'test.cfg', 'a.b_s'} != \
                {s + '_%s_%s.nc' % (name.lower(), d) for s in
                 ('e145.5s10.25', 'e0.0s-1.5', 'e_x_n', 'a.b.c')}:
            raise Violation('files %s' % os.listdir(folder), case=case)
    elif k == 'missing':
        git('tag')
        rows, cols = case['shape']
        la, lo = [-10 - .1 * i for i in range(rows)], \
            [100 + .1 * i for i in range(cols)]
        base = np.array(VALUES[:rows * cols]).reshape(rows, cols)
        path = os.path.join(folder, 'e1_mz_n.nc')
        for dtype in (float, 'float32'):
            for mask in itertools.product((0, 1), repeat=rows * cols):
                data = base.astype(dtype)
                data[np.array(mask).reshape(rows, cols) == 1] = np.nan
                keep = data.copy()
                nctools.save_multiplier('Mz', data, la, lo, path)
                judge(path, 'Mz', 'n', data, la, lo, case)
                util.same(data, keep, 0, 'data handed over', case)
                # -9999 given by the caller is no data as well
                nctools.save_multiplier(
                    'Mz', np.where(np.isnan(data), -9999, data).astype(dtype)
                    if not all(mask) else data, la, lo, path)
                v, _ = util.read_nc(path)
                util.same(v['Mz'], np.array(data, 'float32'), 0,
                          'values with -9999', case)
                env.count(key=[case, str(dtype), mask], evaluations=2,
                          nontrivial=any(mask))
    elif k == 'large':
        git('tag')
        rows, cols = case['shape']
        la, lo = [-10 - .1 * i for i in range(rows)], \
            [100 + .1 * i for i in range(cols)]
        path = os.path.join(folder, 'e1_mt_ne.nc')
        for n in range(3):
            data = util.generic(rows, cols, n)
            data[0 if n else -1, -1] = -.5
            data[-1 if n else 0, 0] = 7.5
            data[n * 30 % rows:, n * 100:n * 100 + 40] = np.nan
            nctools.save_multiplier('Mt', data, la, lo, path)
            judge(path, 'Mt', 'ne', data, la, lo, case)
            env.count(key=[case, n])
    elif k == 'before':
        for how in BEFORE[1:] if case['before'] == 'none' else \
                [case['before']]:
            path = os.path.join(folder, 'e1_ms_sw.nc')
            previous(path, how)
            data = util.generic(2, 3)
            if case['before'] == 'none':
                os.remove(path) if os.path.exists(path) else None
            nctools.save_multiplier('Ms', data, lat, lon, path)
            a = judge(path, 'Ms', 'sw', data, lat, lon, case)
            if 'leftover' in a:
                raise Violation('attributes of the earlier file', case=case)
            # the same content as without an earlier file
            other = os.path.join(folder, 'sub', 'e1_ms_sw.nc')
            os.makedirs(os.path.dirname(other), exist_ok=True)
            nctools.save_multiplier('Ms', data, lat, lon, other)
            if os.path.getsize(path) != os.path.getsize(other):
                raise Violation('size of the file differs after ' + how,
                                case=case)
            env.count(key=[case, how])
    elif k == 'git' and case['git'] == 'elsewhere':
        # the data are kept in a repository of their own
        import subprocess
        os.chdir(folder)
        ids = ['-c', 'user.name=x', '-c', 'user.email=x@y']
        for a in (['init', '-q'], ['commit', '-q', '--allow-empty', '-m',
                                   'x'], ['tag', '-a', 'data-9', '-m', 'x']):
            if subprocess.call(['git'] + ids + a, stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL):
                env.skip('git does not work here')
                return
        path = os.path.join(folder, 'e1_mt_e.nc')
        data = util.generic(2, 3)
        nctools.save_multiplier('Mt', data, lat, lon, path)
        a = judge(path, 'Mt', 'e', data, lat, lon, case)
        if 'data-9' in str(a['Git_version']):
            raise Violation('Git_version %r is that of the data, not of the '
                            'code' % a['Git_version'], case=case)
        env.count(key=case)
    elif k == 'git':
        g = git(case['git'])
        path = os.path.join(folder, 'e1_mt_e.nc')
        os.chdir(folder)
        data = util.generic(2, 3)
        nctools.save_multiplier('Mt', data, lat, lon, path)
        a = judge(path, 'Mt', 'e', data, lat, lon, case)
        if case['git'] == 'tag' and g.cwd:
            if 'v2.0-3-gabcdef' not in str(a['Git_version']):
                raise Violation('Git_version %r' % a['Git_version'],
                                case=case)
        env.count(key=case)
    elif k == 'settings':
        from utilities.config import configparser as config
        git('tag')
        path = os.path.join(folder, 'e1_mz_w.nc')
        for extra in ('', '[Extra]\none = 1\ntwo words = a = b % c\n',
                      '[Other]\nx = \u00e9\n',
                      '[Odd]\nnothing =\nx = a;b ; c, "d" # e\ny = %s\n'
                      % ('long ' * 2000), '[Odd]\nx = 1e-05\nz = 007\n'
                      'lines = one\n   two\n\n   three\n',
                      '[Extra]\n%s_a = 1\n%s_b = 2\n' % (
                          'a_long_name_of_an_option' * 2,
                          'a_long_name_of_an_option' * 2)):
            cfg = os.path.join(folder, 'more.cfg')
            util.write_config(cfg, folder, 'd.tif', 'l.tif', 't', folder)
            with open(cfg, 'a', encoding='utf-8') as f:
                f.write(extra)
            config.set_config_file(cfg)
            data = util.generic(2, 3)
            nctools.save_multiplier('Mz', data, lat, lon, path)
            judge(path, 'Mz', 'w', data, lat, lon, case)
            env.count(key=[case, extra])
        for s in ('Extra', 'Other', 'Odd'):
            config.remove_section(s)
    elif k == 'grid':
        grid(env, case, folder)
    elif k == 'create':
        create(env, case, folder)
    elif k == 'options':
        options(env, case, folder)
    else:
        faults(env, case, folder)
    env.sample(case)


DTYPES = [('d', float), ('f', 'float32'), ('i', 'int32')]


def dims_vars(nd, subsets, n):
    sizes = (2, 3, 1, 4)
    dims = {i: dict(name='d%d' % i, dtype=DTYPES[(i + n) % 3][0],
                    values=np.arange(sizes[i]) + 10 * i,
                    atts={'units': 'u%d' % i, 'long_name': 'dim %d' % i})
            for i in range(nd)}
    variables = {}
    for j, sub in enumerate(subsets):
        shape = tuple(sizes[i] for i in sub)
        dt = DTYPES[(j + n) % 3]
        vals = None if len(shape) == 0 else \
            (np.arange(int(np.prod(shape))).reshape(shape) + 100 * j + .5
             ).astype(dt[1])
        variables[j] = dict(name='v%d' % j, dims=tuple('d%d' % i
                                                       for i in sub),
                            values=vals, dtype=dt[0],
                            atts={'units': 'w%d' % j, 'n': j})
    return dims, variables


def grid(env, case, folder):
    from netCDF4 import Dataset
    from utilities import nctools
    nd, nv = case['nd'], case['nv']
    subs = [s for r in range(nd + 1)
            for s in itertools.combinations(range(nd), r)]
    path = os.path.join(folder, 'g.nc')
    n = 0
    for chosen in itertools.product(subs, repeat=nv):
        for opts in ({}, dict(nodata=-1), dict(keepfileopen=True),
                     dict(datatitle='t')):
            n += 1
            dims, variables = dims_vars(nd, chosen, n)
            gatts = {'one': 'x', 'two': n}
            r = nctools.nc_save_grid(path, dims, variables, gatts=gatts,
                                     **opts)
            if opts.get('keepfileopen'):
                if r is None:
                    raise Violation('file not kept open', case=case)
                r.close()
            ds = Dataset(path)
            ds.set_auto_mask(False)
            if list(ds.dimensions) != ['d%d' % i for i in range(nd)] or \
                    set(ds.variables) != {'d%d' % i for i in range(nd)} | \
                    {'v%d' % j for j in range(nv)}:
                raise Violation('file has %s %s' % (list(ds.dimensions),
                                                    sorted(ds.variables)),
                                case=case)
            for group in (dims, variables):
                for d in group.values():
                    v = ds.variables[d['name']]
                    if d['values'] is not None and \
                            not np.array_equal(v[:], d['values']):
                        raise Violation('%s is %s instead of %s' % (
                            d['name'], v[:], d['values']), case=case)
                    for a, b in d['atts'].items():
                        if a not in v.ncattrs() or v.getncattr(a) != b:
                            raise Violation('attribute %s of %s'
                                            % (a, d['name']), case=case)
                    if 'dims' in d:
                        if v.dimensions != d['dims'] or \
                                v.getncattr('_FillValue') != \
                                opts.get('nodata', -9999):
                            raise Violation('%s: %s' % (d['name'], v),
                                            case=case)
            want = dict(gatts)
            if 'datatitle' in opts:
                want['title'] = 't'
            if ds.__dict__ != want:
                raise Violation('attributes %s' % ds.__dict__, case=case)
            ds.close()
            env.count(key=[case, chosen, sorted(opts)], nontrivial=nv > 1)


def held(path):
    """Whether this process has a file open."""
    for fd in os.listdir('/proc/self/fd'):
        try:
            if os.readlink('/proc/self/fd/' + fd) == path:
                return True
        except OSError:
            pass
    return False


def create(env, case, folder):
    """Single dimensions and variables."""
    from netCDF4 import Dataset
    from utilities import nctools
    if not hasattr(nctools, 'nc_create_var') or \
            not hasattr(nctools, 'nc_create_dim'):
        env.skip('nc_create_var or nc_create_dim is gone')
        return
    path = os.path.join(folder, 'c.nc')
    descriptions = (None, {}, {'units': 'm'}, {'units': 'm', 'n': 3,
                                               'x': 1.5})
    for sizes in ((1,), (2,), (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), ()):
        shape = tuple(sizes)
        n = int(np.prod(shape))
        for values in ('none', 'zero', 'ones', 'count', 'list'):
            for dt, kind in DTYPES:
                for atts in descriptions:
                    for kw in ({}, {'fill_value': 7}):
                        ds = Dataset(path, 'w', format='NETCDF3_CLASSIC')
                        names = tuple('d%d' % i for i in range(len(shape)))
                        for i, m in enumerate(shape):
                            nctools.nc_create_dim(
                                ds, names[i], np.arange(m) + 10 * i, dt,
                                atts)
                        data = {'none': None, 'zero': np.zeros(shape),
                                'ones': np.ones(shape)}.get(
                            values, np.arange(n).reshape(shape) + 2.)
                        if values == 'list':
                            data = data.tolist()
                        what = 'variable of %s values %s, attributes %s' % (
                            dt, data, atts)
                        try:
                            v = nctools.nc_create_var(
                                ds, 'v', names, dt, data=data, atts=atts,
                                **kw)
                        except Exception as e:
                            raise Violation('%s: %r' % (what, e), case=case)
                        if v is None or v.name != 'v':
                            raise Violation('%s: %r' % (what, v), case=case)
                        ds.close()
                        ds = Dataset(path)
                        ds.set_auto_mask(False)
                        want = dict(atts or {})
                        for i, m in enumerate(shape):
                            x = ds.variables[names[i]]
                            if x[:].tolist() != [10 * i + j for j in
                                                 range(m)] or \
                                    x.dtype != np.dtype(kind) or \
                                    x.__dict__ != want:
                                raise Violation('%s: dimension %s' % (
                                    what, x), case=case)
                        x = ds.variables['v']
                        if kw:
                            want['_FillValue'] = 7
                        if data is not None and not np.array_equal(
                                x[...], np.array(data, kind)) or \
                                x.dtype != np.dtype(kind) or \
                                x.dimensions != names or \
                                x.__dict__ != want:
                            raise Violation('%s: read back %s' % (
                                what, x[...]), case=case)
                        ds.close()
                        env.count(key=[shape, values, dt, atts, kw])


def options(env, case, folder):
    """Without data, kept open, compressed, of fewer digits."""
    from netCDF4 import Dataset
    from utilities import nctools
    path = os.path.join(folder, 'o.nc')
    for write, keep, zlib, level, lsd, own, title in itertools.product(
            (True, False), (True, False), (True, False), (1, 9),
            (None, 1), (None, 2), (None, '', 'the title')):
        dims, variables = dims_vars(2, [(0, 1), (1,)], 1)
        for v in variables.values():
            v['dtype'] = 'd'
            v['values'] = np.asarray(v['values'], float) + .12345
            if own is not None and v['name'] == 'v1':
                v['least_significant_digit'] = own
        r = nctools.nc_save_grid(path, dims, variables, writedata=write,
                                 keepfileopen=keep, zlib=zlib, nodata=-5.,
                                 complevel=level, lsd=lsd, datatitle=title)
        what = 'data %s, open %s, lsd %s %s' % (write, keep, lsd, own)
        if keep:
            if r is None or not r.isopen():
                raise Violation('%s: the file is not kept open' % what,
                                case=case)
            r.variables['v1'][:] = np.array([1., 2., 3.][:len(
                r.variables['v1'])])
            r.setncattr('more', 'm')
            r.close()
        elif r is not None or held(path):
            raise Violation('%s: the file stays open' % what, case=case)
        ds = Dataset(path)
        ds.set_auto_mask(False)
        for v in variables.values():
            got = ds.variables[v['name']][:]
            digits = own if own is not None and v['name'] == 'v1' else lsd
            want = v['values'] if write else np.full(v['values'].shape, -5.)
            tol = 0 if digits is None or not write else .5 * 10. ** -digits
            if keep and v['name'] == 'v1':
                want, tol = np.array([1., 2., 3.][:want.size]), tol
            if got.shape != want.shape or np.abs(got - want).max() > tol:
                raise Violation('%s: %s is %s, expected %s' % (
                    what, v['name'], got.tolist(), want.tolist()), case=case)
        for d in dims.values():
            if not np.array_equal(ds.variables[d['name']][:], d['values']):
                raise Violation('%s: dimension %s' % (what, d['name']),
                                case=case)
        want = {'title': title} if title else {}
        if keep:
            want['more'] = 'm'
        if ds.__dict__ != want:
            raise Violation('%s: attributes %s' % (what, ds.__dict__),
                            case=case)
        ds.close()
        env.count(key=[write, keep, zlib, level, lsd, own, title])


def faults(env, case, folder):
    from utilities import nctools
    path = os.path.join(folder, 'f.nc')

    def fails(kind, dims, variables, p=path, what=''):
        try:
            nctools.nc_save_grid(p, dims, variables, gatts={})
        except kind:
            if held(p):
                raise Violation('%s: the file stays open' % what, case=case)
            env.count(key=[case, what])
            return
        except Exception as e:
            raise Violation('%s: %r instead of %s' % (what, e, kind.__name__),
                            case=case)
        raise Violation('%s is accepted' % what, case=case)

    for nd, chosen in ((1, [(0,)]), (2, [(0, 1)]), (2, [(0, 1), ()]),
                       (3, [(0, 1), (1, 2), (0, 1, 2)])):
        dims, variables = dims_vars(nd, chosen, 0)
        for group, what in ((dims, 'dimension'), (variables, 'variable')):
            for i in group:
                keys = sorted(group[i])
                for r in (1, 2):
                    for gone in itertools.combinations(keys, r):
                        d2, v2 = dims_vars(nd, chosen, 0)
                        for key in gone:
                            del (d2 if group is dims else v2)[i][key]
                        fails(KeyError, d2, v2, what='%s %d of %d without %s'
                              % (what, i, len(group), gone))
        for i in variables:
            for shape in ((), (2,), (2, 3), (2, 3, 1), (1, 1, 1, 1)):
                d2, v2 = dims_vars(nd, chosen, 0)
                if len(shape) == len(v2[i]['dims']):
                    continue
                v2[i]['values'] = np.ones(shape)
                fails(ValueError, d2, v2, what='variable %d of shape %s over '
                      '%s' % (i, shape, v2[i]['dims']))
        for p in (os.path.join(folder, 'no', 'f.nc'), folder):
            fails(IOError, dims, variables, p, 'path %s' % (
                os.path.relpath(p, folder)))
