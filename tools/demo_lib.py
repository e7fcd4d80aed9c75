"""
Helpers of the demonstrations: small inputs in a scratch folder, runs of the
programs in /repo (the working directory) on them, and results read back.
Everything is written below a temporary folder that is removed at the end.
"""
import atexit
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import types

REPO = os.getcwd()
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import numpy as np  # noqa: E402
from osgeo import gdal, osr  # noqa: E402

gdal.UseExceptions()

SCRATCH = tempfile.mkdtemp(prefix='demo')
atexit.register(shutil.rmtree, SCRATCH, True)
os.chdir(SCRATCH)

DIRS = ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw']
TYPES = {'uint8': gdal.GDT_Byte, 'int16': gdal.GDT_Int16,
         'uint16': gdal.GDT_UInt16, 'int32': gdal.GDT_Int32,
         'float32': gdal.GDT_Float32, 'float64': gdal.GDT_Float64}
TABLE = ((1, 2.0, 85), (2, 1.0, 100), (3, 0.8, 88), (4, 0.4, 90),
         (5, 0.2, 85), (6, 0.006, 100))


def check(ok, text):
    if not ok:
        print('FAILED: ' + text)
        sys.stdout.flush()
        os.chdir('/')
        shutil.rmtree(SCRATCH, True)
        os._exit(1)


def near(a, b, text, tol=1e-4):
    a, b = np.asarray(a, float), np.asarray(b, float)
    check(a.shape == b.shape, '%s: shape %s, expected %s'
          % (text, a.shape, b.shape))
    bad = ~(np.isclose(a, b, rtol=0, atol=tol) | (np.isnan(a) & np.isnan(b)))
    check(not bad.any(), '%s:\n%s\nexpected\n%s' % (text, a, b))


def raster(path, array, gt, nodata=None, epsg=4326, driver='GTiff'):
    array = np.asarray(array)
    if array.dtype == np.int64:
        array = array.astype(np.int32)
    os.makedirs(os.path.dirname(os.path.abspath(path)), exist_ok=True)
    ds = gdal.GetDriverByName(driver).Create(
        path, array.shape[1], array.shape[0], 1, TYPES[str(array.dtype)])
    srs = osr.SpatialReference()
    srs.ImportFromEPSG(epsg)
    ds.SetProjection(srs.ExportToWkt())
    ds.SetGeoTransform(gt)
    band = ds.GetRasterBand(1)
    if nodata is not None:
        band.SetNoDataValue(nodata)
    band.WriteArray(array)
    band.FlushCache()
    band = None
    ds = None
    return path


def read_raster(path):
    ds = gdal.Open(path)
    return (np.array([ds.GetRasterBand(b + 1).ReadAsArray()
                      for b in range(ds.RasterCount)]), ds.GetGeoTransform())


def read_nc(path):
    """values (missing: NaN), longitudes, latitudes, global attributes"""
    from netCDF4 import Dataset
    ds = Dataset(path)
    name = [v for v in ds.variables if v in ('Mz', 'Ms', 'Mt')][0]
    a = np.ma.filled(ds.variables[name][:].astype(float), np.nan)
    lon = np.array(ds.variables['lon'][:])
    lat = np.array(ds.variables['lat'][:])
    atts = {k: ds.getncattr(k) for k in ds.ncattrs()}
    ds.close()
    return a, lon, lat, atts


CONFIG = """[inputValues]
root = %(root)s
upwind_length = %(upwind)r
terrain_data = %(lc)s
terrain_table = %(table)s
dem_data = %(dem)s

[Output]
output_dir = %(out)s

[Logging]
LogFile = %(root)s/log/m.log
LogLevel = INFO
Verbose = False
"""


def write_table(path, table=TABLE):
    with open(path, 'w') as f:
        f.write('# classes\nCATEGORY,DESCRIPTION,ROUGHNESS_LENGTH_m,'
                'SHIELDING\n')
        for c, z, s in table:
            f.write('%s,"class, %s",%r,%r\n' % (c, c, z, s))
    return path


def write_config(path, **kw):
    root = os.path.dirname(os.path.abspath(path))
    kw = dict(dict(root=root, upwind=0.01, lc=root + '/lc.tif',
                   table=root + '/table.csv', dem=root + '/dem.tif',
                   out=root + '/out'), **kw)
    with open(path, 'w') as f:
        f.write(CONFIG % kw)
    return path


def case(name, dem, lc, gt, lc_gt=None, table=TABLE, dem_nodata=None,
         lc_nodata=None, upwind=0.01, **kw):
    """A folder with inputs; returns the configuration file."""
    root = os.path.join(SCRATCH, name)
    os.makedirs(root, exist_ok=True)
    raster(root + '/dem.tif', dem, gt, dem_nodata)
    raster(root + '/lc.tif', lc, lc_gt or gt, lc_nodata)
    write_table(root + '/table.csv', table)
    return write_config(root + '/run.cfg', upwind=upwind, **kw)


def run(cfg, program='all_multipliers.py', args=(), timeout=120, cwd=None,
        code=None):
    """Exit status (None: did not end) and output of a run."""
    try:
        p = subprocess.run(
            [sys.executable, '-B'] +
            ([os.path.join(REPO, program)] if code is None
             else ['-c', 'import sys; sys.path.insert(0, %r)\n' % REPO + code])
            + ['-c', cfg] + list(args), cwd=cwd or SCRATCH, timeout=timeout,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
            env=dict(os.environ, PYTHONPATH=REPO))
    except subprocess.TimeoutExpired:
        return None, 'did not end'
    return p.returncode, p.stdout


def good_run(cfg, **kw):
    rc, text = run(cfg, **kw)
    check(rc == 0, 'the run ended with %s\n%s' % (rc, text[-2000:]))
    return os.path.join(os.path.dirname(cfg), 'out')


def files(out):
    return sorted(os.path.relpath(os.path.join(t, f), out)
                  for t, _, fs in os.walk(out) for f in fs)


def tiles(out):
    return sorted({f.split('_m')[0] for f in os.listdir(out + '/shielding')})


# ------------------------------------------------------ processes as threads

class World(object):
    """
    Ranks are threads; messages between two ranks keep their order. With
    `delay(rank, n)` the n-th send of a rank can be held back (seconds).
    """

    def __init__(self, size):
        self.size = size
        self.local = threading.local()
        self.cond = threading.Condition()
        self.box = {r: [] for r in range(size)}
        self.bar = threading.Barrier(size)
        self.slots = [None] * size
        self.delay = None
        self.count = [0] * size
        world = self

        class Comm(object):
            @property
            def rank(self):
                return world.local.rank

            @property
            def size(self):
                return world.size

            def Get_rank(self):
                return self.rank

            def Get_size(self):
                return self.size

            def send(self, obj, dest, tag=0):
                r = self.rank
                world.count[r] += 1
                if world.delay:
                    import time
                    time.sleep(world.delay(r, world.count[r]))
                with world.cond:
                    world.box[dest].append((r, tag, obj))
                    world.cond.notify_all()

            def recv(self, buf=None, source=-1, tag=-1, status=None):
                mine = world.box[self.rank]
                with world.cond:
                    while True:
                        for k, (s, t, o) in enumerate(mine):
                            if source in (-1, s) and tag in (-1, t):
                                del mine[k]
                                if status is not None:
                                    status.source, status.tag = s, t
                                return o
                        if not world.cond.wait(20):
                            raise RuntimeError('waits for ever')

            def barrier(self):
                world.bar.wait(20)

            def _all(self, obj):
                world.slots[self.rank] = obj
                world.bar.wait(20)
                got = list(world.slots)
                world.bar.wait(20)
                return got

            def scatter(self, sendobj, root=0):
                return self._all(sendobj)[root][self.rank]

            def gather(self, sendobj, root=0):
                got = self._all(sendobj)
                return got if self.rank == root else None

            def bcast(self, obj, root=0):
                return self._all(obj)[root]

        class Status(object):
            source = tag = -1
            error = 0

        self.MPI = types.SimpleNamespace(
            COMM_WORLD=Comm(), Status=Status, ANY_SOURCE=-1, ANY_TAG=-1,
            Init=lambda: None, Finalize=lambda: None)

    def run(self, f, timeout=40):
        """f() on all ranks; {rank: result or exception}, None: no end."""
        res = {}

        def go(r):
            self.local.rank = r
            try:
                res[r] = f()
            except BaseException as e:  # noqa
                res[r] = e
        ts = [threading.Thread(target=go, args=(r,), daemon=True)
              for r in range(self.size)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(timeout)
            if t.is_alive():
                return None
        return res
