"""
What the checks share: inputs made in scratch folders, outputs read back.
"""
import itertools
import math
import os
import subprocess

import numpy as np
from osgeo import gdal, osr

from . import ref
from .core import Violation

gdal.UseExceptions()

DIRS = ref.DIRS
M3_ORDER = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']
SUBS = {'terrain': 'mz', 'shielding': 'ms', 'topographic': 'mt'}

_wkt = {}


def wkt(epsg=4326):
    if epsg not in _wkt:
        srs = osr.SpatialReference()
        srs.ImportFromEPSG(epsg)
        _wkt[epsg] = srs.ExportToWkt()
    return _wkt[epsg]


GDAL_TYPE = {'uint8': gdal.GDT_Byte, 'int16': gdal.GDT_Int16,
             'uint16': gdal.GDT_UInt16, 'int32': gdal.GDT_Int32,
             'uint32': gdal.GDT_UInt32, 'float32': gdal.GDT_Float32,
             'float64': gdal.GDT_Float64}
if hasattr(gdal, 'GDT_Int8'):
    GDAL_TYPE['int8'] = gdal.GDT_Int8


def write_raster(path, array, gt, epsg=4326, nodata=None, driver='GTiff'):
    array = np.asarray(array)
    if array.dtype == np.int64:
        array = array.astype(np.int32)
    rows, cols = array.shape
    ds = gdal.GetDriverByName(driver).Create(
        path, cols, rows, 1, GDAL_TYPE[str(array.dtype)])
    ds.SetGeoTransform(gt)
    ds.SetProjection(wkt(epsg))
    band = ds.GetRasterBand(1)
    if nodata is not None:
        band.SetNoDataValue(nodata)
    band.WriteArray(array)
    band.FlushCache()
    band = None
    ds.FlushCache()
    ds = None
    return path


def mem_raster(array, gt, epsg=4326, nodata=None):
    return_ds = gdal.GetDriverByName('MEM').Create(
        '', array.shape[1], array.shape[0], 1, GDAL_TYPE[str(array.dtype)])
    return_ds.SetGeoTransform(gt)
    return_ds.SetProjection(wkt(epsg))
    band = return_ds.GetRasterBand(1)
    if nodata is not None:
        band.SetNoDataValue(nodata)
    band.WriteArray(array)
    return return_ds


class Raster(object):
    def __init__(self, path):
        ds = gdal.Open(path)
        self.gt = ds.GetGeoTransform()
        self.shape = (ds.RasterYSize, ds.RasterXSize)
        self.n = ds.RasterCount
        self.projection = ds.GetProjection()
        self.bands = []
        self.names = []
        self.nodata = []
        for b in range(1, self.n + 1):
            band = ds.GetRasterBand(b)
            self.bands.append(band.ReadAsArray())
            self.names.append(band.GetDescription())
            self.nodata.append(band.GetNoDataValue())
            band = None
        ds = None


def read_nc(path):
    """{name: array with NaN for missing}, {attributes}"""
    from netCDF4 import Dataset
    ds = Dataset(path)
    try:
        out = {}
        for name, var in ds.variables.items():
            a = var[:]
            if np.ma.isMaskedArray(a) and a.dtype.kind == 'f':
                a = a.filled(np.nan)
            out[name] = np.asarray(a)
        return out, {k: ds.getncattr(k) for k in ds.ncattrs()}
    finally:
        ds.close()


def read_multiplier(folder, sub, tile, direction):
    """values, longitudes, latitudes of a multiplier file"""
    kind = SUBS[sub]
    path = os.path.join(folder, sub, '%s_%s_%s.nc' % (tile, kind, direction))
    if os.path.realpath(path) in caught:
        name, values, lon, lat = caught[os.path.realpath(path)]
        if name != kind.capitalize():
            raise Violation('%s saved as %s' % (os.path.basename(path), name))
        return values, lon, lat
    if not os.path.exists(path):
        raise Violation('no file %s/%s' % (sub, os.path.basename(path)))
    v, _ = read_nc(path)
    return v[kind.capitalize()], v['lon'], v['lat']


# ------------------------------------------------------------------ inputs

# class: (roughness length, shielding); odd numbers of all kinds on purpose
TABLE = {1: (2.0, 85), 2: (1.0, 100), 3: (0.8, 88), 4: (0.4, 90),
         5: (0.2, 85), 6: (0.006, 100), 12: (0.02, 95), 205: (0.3, 80)}


def table_text(table, order=None):
    lines = ['# terrain classes',
             'CATEGORY,DESCRIPTION,ROUGHNESS_LENGTH_m,SHIELDING']
    for c in order or sorted(table):
        lines.append('%s,"class %s, made up",%r,%r'
                     % (c, c, table[c][0], table[c][1]))
    return '\n'.join(lines) + '\n'


def write_table(path, table=TABLE, order=None):
    with open(path, 'w') as f:
        f.write(table_text(table, order))
    return path


CONFIG = """[Preprocessing]
settlement_data = s.shp
settlement_cat = SETTLEMENT
land_use_data = l.shp
land_use_cat = MB_CAT16
crop_mask = None
input_topo = True
topo_crop = True
output_shapefile = o.shp
output_rasterized = o.tiff

[inputValues]
root = %(root)s
upwind_length = %(upwind)r
terrain_data = %(terrain)s
terrain_table = %(table)s
dem_data = %(dem)s

[Output]
output_dir = %(output)s

[Logging]
LogFile = %(log)s
LogLevel = %(level)s
Verbose = False
"""


def write_config(path, root, dem, terrain, table, output, upwind=0.01,
                 log=None, level='ERROR'):
    with open(path, 'w') as f:
        f.write(CONFIG % dict(root=root, upwind=upwind, terrain=terrain,
                              table=table, dem=dem, output=output,
                              log=log or os.path.join(root, 'log', 'm.log'),
                              level=level))
    return path


def set_config(path):
    from utilities.config import configparser
    configparser.set_config_file(path)


def use_table(folder, table=TABLE, order=None, **kw):
    """Make a table and a configuration naming it the ones in effect."""
    t = write_table(os.path.join(folder, 'table.csv'), table, order)
    c = write_config(os.path.join(folder, 'test.cfg'), folder,
                     kw.pop('dem', 'dem.tif'), kw.pop('terrain', 'lc.tif'),
                     t, folder, **kw)
    set_config(c)
    return t


def make_tile(folder, name, dem, classes, gt, epsg=4326, nodata=None):
    """The temporary tiles of a working tile, and its result folders."""
    for sub in SUBS:
        os.makedirs(os.path.join(folder, sub), exist_ok=True)
    d = l = None
    if dem is not None:
        d = write_raster(os.path.join(folder, name + '_dem.img'),
                         np.asarray(dem), gt, epsg, nodata, driver='HFA')
    if classes is not None:
        l = write_raster(os.path.join(folder, name + '.img'),
                         np.asarray(classes), gt, epsg, driver='HFA')
    return d, l


def extent(gt, shape, cut=(0, 0, 0, 0)):
    """Extent of a raster less some cells at the north, east, south, west."""
    n, e, s, w = cut
    rows, cols = shape
    return (gt[0] + w * gt[1], gt[3] + n * gt[5],
            gt[0] + (cols - e) * gt[1], gt[3] + (rows - s) * gt[5])


def resolution(target, lat, rows, ratio=1.):
    """
    Cell size in degrees (height, width = ratio * height) for which the
    average cell size of a tile whose top is at a latitude is about target
    metres.
    """
    r = target / 1e5
    for _ in range(30):
        gw = ref.gridwidth(rows, 1, (0, r * ratio, 0, lat, 0, -r))
        r *= target / gw
    return r


# ------------------------------------------------------------- comparisons

def where(a, b, tol):
    """First position at which two arrays (NaN equal to NaN) differ."""
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    if a.shape != b.shape:
        return 'shape %s instead of %s' % (a.shape, b.shape)
    bad = ~((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol))
    if not bad.any():
        return None
    pos = tuple(int(x) for x in np.argwhere(bad)[0])
    return '%r instead of %r at %s (%d of %d cells differ)' % (
        float(a[pos]), float(b[pos]), pos, int(bad.sum()), bad.size)


def same(got, want, tol, what, case=None, key=None):
    d = where(got, want, tol)
    if d is not None:
        raise Violation('%s: %s' % (what, d), key, case)


def generic(rows, cols, seed=0, lo=0., hi=1.):
    """An array of values with no two (sums of few) alike; not random."""
    k = np.arange(1, rows * cols + 1).reshape(rows, cols)
    return lo + (hi - lo) * np.mod((k + 7 * seed) * 0.6180339887498949 +
                                   np.sqrt(k + seed) * 0.4142135623730951, 1.)


def generic_classes(rows, cols, classes, seed=0):
    g = generic(rows, cols, seed)
    c = sorted(classes)
    return np.array(c)[(g * len(c)).astype(int) % len(c)]


# ---------------------------------------------------------------- fast path

class _Sub(object):
    def __init__(self, real):
        self.__dict__['_real'] = real

    def __getattr__(self, name):
        return getattr(self._real, name)

    def check_output(self, *a, **k):
        return b'v0-test'


def stub_git():
    """
    Spares one process per result file: what git says is not looked at by the
    checks that use this (N02 runs the real one).
    """
    import utilities.nctools as n
    if hasattr(n, 'subprocess') and not isinstance(n.subprocess, _Sub):
        n.subprocess = _Sub(subprocess)


def tree(root):
    """{relative path: None for folders, bytes of files}"""
    out = {}
    for top, dirs, files in os.walk(root):
        rel = os.path.relpath(top, root)
        for d in dirs + files:
            p = os.path.join(top, d)
            if os.path.islink(p):
                out[os.path.normpath(os.path.join(rel, d))] = \
                    'link to ' + os.readlink(p)
            elif d in dirs:
                out[os.path.normpath(os.path.join(rel, d))] = None
        for f in files:
            p = os.path.join(top, f)
            if os.path.islink(p):
                continue
            with open(p, 'rb') as h:
                out[os.path.normpath(os.path.join(rel, f))] = h.read()
    return out


# {path: (multiplier, values, longitudes, latitudes)} kept instead of written
caught = {}


def catch_results():
    """
    For bulk enumeration: keep what the modules hand to save_multiplier
    instead of writing (and reading) files, about half of the time of a small
    tile. Checks that use this also run cases with real files, and N01, N02
    and the W checks always do. Where a module does not call save_multiplier
    by this name, its files are read as usual.
    """
    import utilities.nctools
    from shielding import shield_mult
    from terrain import terrain_mult
    from topographic import topo_mult
    real = getattr(utilities.nctools, 'save_multiplier', None)
    if real is None:
        return

    def keep(multiplier_name, multiplier_values, lat, lon, nc_name):
        if not catching[0]:
            return real(multiplier_name, multiplier_values, lat, lon, nc_name)
        caught[os.path.realpath(nc_name)] = (
            multiplier_name, np.array(multiplier_values, 'float32'),
            np.array(lon), np.array(lat))

    for mod in (utilities.nctools, shield_mult, terrain_mult, topo_mult):
        if getattr(mod, 'save_multiplier', None) is real:
            mod.save_multiplier = keep


catching = [True]


def result_files(folder, sub):
    """Names of the files (or caught results) of a result folder."""
    top = os.path.realpath(os.path.join(folder, sub))
    names = set(os.listdir(top)) if os.path.isdir(top) else set()
    for path in caught:
        if os.path.dirname(path) == top:
            names.add(os.path.basename(path))
    return sorted(names)


def forget_results(folder):
    """Delete the results in a folder."""
    caught.clear()
    for sub in SUBS:
        d = os.path.join(folder, sub)
        if os.path.isdir(d):
            for f in os.listdir(d):
                os.remove(os.path.join(d, f))


def product(*args):
    return itertools.product(*args)


def finite(x):
    return not (math.isnan(x) or math.isinf(x))
