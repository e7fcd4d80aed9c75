"""Multiplier files for the conversion, written without the program."""
import os

import numpy as np

from . import util
from .core import Violation


def write_nc(path, name, values, lon0, lat0, res):
    """A multiplier file as the program writes it; NaN is no data."""
    from netCDF4 import Dataset
    rows, cols = values.shape
    ds = Dataset(path, 'w', format='NETCDF3_CLASSIC')
    ds.createDimension('lat', rows)
    ds.createDimension('lon', cols)
    for axis, vals, unit, std in (
            ('lat', [lat0 - (i + .5) * res for i in range(rows)],
             'degrees_north', 'latitude'),
            ('lon', [lon0 + (j + .5) * res for j in range(cols)],
             'degrees_east', 'longitude')):
        v = ds.createVariable(axis, 'd', (axis,))
        v[:] = np.array(vals)
        v.units = unit
        v.standard_name = std
        v.long_name = std.capitalize()
        v.axis = {'lat': 'Y', 'lon': 'X'}[axis]
    v = ds.createVariable(name, 'f', ('lat', 'lon'), fill_value=-9999)
    v[:] = np.where(np.isnan(values), -9999, values).astype('float32')
    v.grid_mapping = 'WGS-1984'
    c = ds.createVariable('crs', 'i', ())
    c.grid_mapping_name = 'latitude_longitude'
    c.semi_major_axis = 6378137.0
    c.inverse_flattening = 298.257222101
    c.longitude_of_prime_meridian = 0.0
    ds.Conventions = 'CF-1.6'
    ds.close()


def folders(path):
    for s in ('terrain', 'shielding', 'topographic', 'M3', 'M3_max'):
        os.makedirs(os.path.join(path, s), exist_ok=True)


def file_of(path, tile, sub, d):
    return os.path.join(path, sub, '%s_%s_%s.nc' % (tile, util.SUBS[sub], d))


def write_tile(path, tile, values, lon0, lat0, res, leave_out=()):
    """values: {(sub, direction): array}"""
    folders(path)
    for (sub, d), a in values.items():
        if (sub, d) not in leave_out:
            write_nc(file_of(path, tile, sub, d),
                     util.SUBS[sub].capitalize(), a, lon0, lat0, res)


def values_for(shape, seed, lo=.5, hi=1.7):
    out = {}
    for i, sub in enumerate(sorted(util.SUBS)):
        for j, d in enumerate(util.DIRS):
            out[sub, d] = util.generic(shape[0], shape[1],
                                       seed * 29 + i * 8 + j + 1, lo, hi) \
                .astype('float32').astype(float)
    return out


def product(values, d, missing=()):
    p = None
    for sub in util.SUBS:
        a = values[sub, d]
        if (sub, d) in missing:
            a = np.ones(a.shape)
        p = a if p is None else p * a
    return p


def maximum(products):
    s = np.array([np.where(np.isnan(p), -np.inf, p) for p in products])
    m = s.max(axis=0)
    return np.where(np.isinf(m), np.nan, m)


def converter():
    """(class, function(list of tiles, path))"""
    from utilities import convert
    return convert.Converter


def judge_tile(path, tile, values, lon0, lat0, res, missing=(), case=None,
               what=('M3', 'M3_max'), position=True):
    from .prog import masked
    prods = {d: product(values, d, missing) for d in util.DIRS}
    shape = prods['n'].shape
    gt = (lon0, res, 0, lat0, 0, -res)
    if 'M3' in what:
        p = os.path.join(path, 'M3', tile + '.tif')
        if not os.path.exists(p):
            raise Violation('no M3 raster of tile ' + tile, case=case)
        r = util.Raster(p)
        if r.n != 8 or r.names != util.M3_ORDER:
            raise Violation('bands %s of M3/%s.tif' % (r.names, tile),
                            case=case)
        if r.nodata != [-9999.] * 8:
            raise Violation('no-data values %s of M3/%s.tif'
                            % (r.nodata, tile), case=case)
        if r.shape != shape:
            raise Violation('M3/%s.tif is %s cells instead of %s'
                            % (tile, r.shape, shape), case=case)
        if position and max(abs(a - b) for a, b in zip(r.gt, gt)) > 1e-9:
            raise Violation('M3/%s.tif is at %s instead of %s'
                            % (tile, r.gt, gt), case=case)
        if '4326' not in r.projection and 'WGS 84' not in r.projection:
            raise Violation('projection %r' % r.projection, case=case)
        for b, d in zip(r.bands, util.M3_ORDER):
            if np.isnan(b).any():
                raise Violation('NaN in M3/%s.tif' % tile, case=case)
            util.same(masked(b), prods[d], 4e-7 * np.abs(prods[d]) + 1e-30,
                      'M3 of tile %s, direction %s' % (tile, d), case)
    if 'M3_max' in what:
        p = os.path.join(path, 'M3_max', tile + '.tif')
        if not os.path.exists(p):
            raise Violation('no M3_max raster of tile ' + tile, case=case)
        m = util.Raster(p)
        if m.n != 1 or m.nodata != [-9999.]:
            raise Violation('%d bands, no data %s in M3_max/%s.tif'
                            % (m.n, m.nodata, tile), case=case)
        if m.shape != shape:
            raise Violation('M3_max/%s.tif is %s cells instead of %s'
                            % (tile, m.shape, shape), case=case)
        if position and max(abs(a - b) for a, b in zip(m.gt, gt)) > 1e-9:
            raise Violation('M3_max/%s.tif is at %s instead of %s'
                            % (tile, m.gt, gt), case=case)
        if '4326' not in m.projection and 'WGS 84' not in m.projection:
            raise Violation('projection %r' % m.projection, case=case)
        best = maximum([prods[d] for d in util.DIRS])
        if np.isnan(m.bands[0]).any():
            raise Violation('NaN in M3_max/%s.tif' % tile, case=case)
        util.same(masked(m.bands[0]), best, 4e-7 * np.abs(best) + 1e-30,
                  'M3_max of tile ' + tile, case)
