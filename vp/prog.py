"""
Whole runs of all_multipliers in a scratch folder, what they leave, and what
the reference model says they should leave.
"""
import logging
import math
import os
import sys

import numpy as np
from osgeo import gdal

from . import ref, util
from .core import Violation


class Inputs(object):
    """Input files of a run in a folder."""

    def __init__(self, folder, dem, classes, gt, table=util.TABLE,
                 upwind=0.01, dem_nodata=None, lc_gt=None, epsg=4326,
                 lc_epsg=None, output=None, out_name='out', fmt='GTiff'):
        self.folder = folder
        os.makedirs(os.path.join(folder, 'in'), exist_ok=True)
        ext = {'GTiff': 'tif', 'HFA': 'img'}[fmt]
        self.dem = util.write_raster(os.path.join(folder, 'in', 'dem.' + ext),
                                     dem, gt, epsg, dem_nodata, driver=fmt)
        self.lc = util.write_raster(os.path.join(folder, 'in', 'lc.' + ext),
                                    classes, lc_gt or gt, lc_epsg or epsg,
                                    driver=fmt)
        self.table = util.write_table(os.path.join(folder, 'in', 'table.csv'),
                                      table)
        self.out = output or os.path.join(folder, out_name)
        self.log = os.path.join(folder, 'log', 'm.log')
        self.cfg = util.write_config(
            os.path.join(folder, 'in', 'run.cfg'), folder, self.dem, self.lc,
            self.table, self.out, upwind, log=self.log)


def reset_logging():
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
        try:
            h.close()
        except Exception:
            pass
    root.setLevel(logging.ERROR)


def run(cfg, extra=()):
    """One serial run in this process."""
    import all_multipliers
    argv = sys.argv
    sys.argv = ['all_multipliers.py', '-c', cfg] + list(extra)
    reset_logging()
    try:
        all_multipliers.run()
    finally:
        sys.argv = argv
        reset_logging()


# ----------------------------------------------------------------- results

def read_results(out):
    """
    {relative path: content} of an output folder: arrays with their position
    for rasters, the list of sources for mosaics, bytes for other files.
    """
    res = {}
    for top, dirs, files in os.walk(out):
        rel = os.path.relpath(top, out)
        for d in dirs:
            res[os.path.normpath(os.path.join(rel, d)) + '/'] = None
        for f in files:
            path = os.path.join(top, f)
            name = os.path.normpath(os.path.join(rel, f))
            if f.endswith('.nc'):
                v, atts = util.read_nc(path)
                kind = [k for k in v if k in ('Mz', 'Ms', 'Mt')]
                atts = {k: str(x) for k, x in atts.items()
                        if k not in ('Created_on',)}
                res[name] = ('nc', v[kind[0]] if kind else None, v['lon'],
                             v['lat'], atts)
            elif f.endswith('.tif'):
                r = util.Raster(path)
                res[name] = ('tif', r.bands, r.gt, r.names, r.nodata)
            elif f.endswith('.vrt'):
                res[name] = ('vrt', read_vrt(path))
            else:
                res[name] = ('file', open(path, 'rb').read())
    return res


def read_vrt(path):
    """Mosaic: sources (absolute) with their position, and the values."""
    import xml.etree.ElementTree as ET
    root = ET.parse(path).getroot()
    bands = []
    for b in root.findall('VRTRasterBand'):
        src = {}
        for s in list(b):
            if not s.tag.endswith('Source'):
                continue
            f = s.find('SourceFilename')
            p = f.text
            if f.get('relativeToVRT') == '1':
                p = os.path.join(os.path.dirname(path), p)
            key = os.path.realpath(p)
            if key in src:
                raise Violation('%s refers to %s twice' % (path, key))
            d = s.find('DstRect')
            src[key] = tuple(round(float(d.get(k)), 4)
                             for k in ('xOff', 'yOff', 'xSize', 'ySize'))
        bands.append(src)
    r = util.Raster(path)
    return bands, r.gt, r.bands, r.shape


def same_results(got, want, what='results', tol=0., skip=(), case=None,
                 attributes=True):
    a = {k for k in got if not any(k.endswith(x) for x in skip)}
    b = {k for k in want if not any(k.endswith(x) for x in skip)}
    if a != b:
        raise Violation('%s: missing %s, not expected %s'
                        % (what, sorted(b - a)[:6], sorted(a - b)[:6]),
                        case=case)
    for k in sorted(a):
        g, w = got[k], want[k]
        if g is None or w is None:
            if g is not w:
                raise Violation('%s: %s is a file or a folder' % (what, k),
                                case=case)
            continue
        if g[0] == 'nc':
            for n, x, y in zip(('values', 'longitudes', 'latitudes'), g[1:4],
                               w[1:4]):
                util.same(x, y, tol, '%s: %s of %s' % (what, n, k), case)
            if attributes and g[4] != w[4]:
                d = [x for x in set(g[4]) | set(w[4])
                     if g[4].get(x) != w[4].get(x)]
                raise Violation('%s: attributes %s of %s' % (what, d, k),
                                case=case)
        elif g[0] == 'tif':
            if g[2:] != w[2:] or len(g[1]) != len(w[1]):
                raise Violation('%s: %s is %s instead of %s'
                                % (what, k, g[2:], w[2:]), case=case)
            for n, (x, y) in enumerate(zip(g[1], w[1])):
                util.same(x, y, tol, '%s: band %d of %s' % (what, n + 1, k),
                          case)
        elif g[0] == 'vrt':
            ga, gg, gb, gs = g[1]
            wa, wg, wb, ws = w[1]
            ga = [{os.path.basename(p): r for p, r in x.items()} for x in ga]
            wa = [{os.path.basename(p): r for p, r in x.items()} for x in wa]
            if ga != wa or gg != wg or gs != ws:
                raise Violation('%s: mosaic %s is %s instead of %s'
                                % (what, k, (ga, gg, gs), (wa, wg, ws)),
                                case=case)
            for x, y in zip(gb, wb):
                util.same(x, y, tol, '%s: mosaic %s' % (what, k), case)
        elif g != w:
            raise Violation('%s: content of %s' % (what, k), case=case)


# --------------------------------------------------------------- reference

def ref_tiles(shape, gt, upwind):
    """[(name, unbuffered limits, buffered limits)], limits x1, x2, y1, y2"""
    rows, cols = shape
    xs = int(math.ceil(round(1. / gt[1], 9)))
    ys = int(math.ceil(round(-1. / gt[5], 9)))
    bx, by = int(upwind / gt[1]), int(upwind / -gt[5])
    out = []
    for x1 in range(0, cols, xs):
        for y1 in range(0, rows, ys):
            x2, y2 = min(x1 + xs, cols), min(y1 + ys, rows)
            name = 'e%ss%s' % (str(gt[0] + x1 * gt[1])[:8],
                               str(-gt[3] - y1 * gt[5])[:7])
            out.append((name, (x1, x2, y1, y2),
                        (max(0, x1 - bx), min(cols, x2 + bx),
                         max(0, y1 - by), min(rows, y2 + by))))
    return out


def ref_run(dem, classes, gt, upwind, table=util.TABLE):
    """
    {tile: {(folder, direction): values}, ...} of all tiles with elevation,
    land cover on the grid of the elevation.
    """
    res = {}
    for name, (x1, x2, y1, y2), (bx1, bx2, by1, by2) in \
            ref_tiles(dem.shape, gt, upwind):
        z = dem[by1:by2, bx1:bx2].astype(float)
        if not (z != 0).any():
            continue
        c = classes[by1:by2, bx1:bx2]
        g = (gt[0] + bx1 * gt[1], gt[1], 0., gt[3] + by1 * gt[5], 0., gt[5])
        gw = ref.gridwidth(z.shape[0], z.shape[1], g)
        cut = (slice(y1 - by1, y2 - by1), slice(x1 - bx1, x2 - bx1))
        tile = {}
        mz = ref.terrain(c.tolist(), table, gw)
        sl, asp = ref.slope_aspect(z.tolist(), g)
        faces = [[9 if a is None else ref.sector(a) for a in line]
                 for line in asp]
        ms = ref.shielding(ref.shielding_init(c.tolist(), table), sl, faces,
                           gw)
        mt = ref.topographic(z.tolist(), gw, tas=g[0] > 143 and g[3] < -40)
        for d in util.DIRS:
            prod = 1.
            for sub, m in (('terrain', mz), ('shielding', ms),
                           ('topographic', mt)):
                if m is None:
                    continue
                a = np.array(m[d], float)[cut]
                tile[sub, d] = a
                prod = prod * a
            tile['M3', d] = prod
        stack = np.array([tile['M3', d] for d in util.DIRS])
        tile['M3_max'] = np.where(
            np.isnan(stack).all(0), np.nan,
            np.nanmax(np.where(np.isnan(stack), -1e9, stack), axis=0))
        tile['lon'] = gt[0] + (np.arange(x1, x2) + .5) * gt[1]
        tile['lat'] = gt[3] + (np.arange(y1, y2) + .5) * gt[5]
        tile['gt'] = (gt[0] + x1 * gt[1], gt[1], 0., gt[3] + y1 * gt[5], 0.,
                      gt[5])
        res[name] = tile
    return res


def expected_files(tiles):
    names = {s + '/' for s in ('terrain', 'shielding', 'topographic', 'M3',
                               'M3_max')}
    for name, tile in tiles.items():
        for sub, kind in util.SUBS.items():
            for d in util.DIRS:
                if (sub, d) in tile:
                    names.add('%s/%s_%s_%s.nc' % (sub, name, kind, d))
        names.add('M3/%s.tif' % name)
        names.add('M3_max/%s.tif' % name)
    if tiles:
        names.add('M3/wind-multipliers.vrt')
        names.add('M3_max/wind-multipliers.vrt')
    return names


def masked(a):
    a = np.array(a, float)
    a[a == -9999] = np.nan
    return a


def judge_run(out, tiles, tol=3e-5, case=None, multipliers=True):
    """Whether an output folder holds what the reference says."""
    names = set()
    for top, dirs, files in os.walk(out):
        rel = os.path.relpath(top, out)
        names.update(os.path.normpath(os.path.join(rel, d)) + '/'
                     for d in dirs)
        names.update(os.path.normpath(os.path.join(rel, f)) for f in files)
    want = expected_files(tiles)
    if names != want:
        raise Violation('output folder: missing %s, not expected %s'
                        % (sorted(want - names)[:5], sorted(names - want)[:5]),
                        case=case)
    for name, tile in tiles.items():
        got = {}
        for sub in util.SUBS:
            for d in util.DIRS:
                if (sub, d) not in tile:
                    continue
                v, lon, lat = util.read_multiplier(out, sub, name, d)
                if multipliers:
                    util.same(v, tile[sub, d], tol, '%s of tile %s, '
                              'direction %s' % (sub, name, d), case)
                util.same(lon, tile['lon'], 1e-9, 'longitudes of ' + name,
                          case)
                util.same(lat, tile['lat'], 1e-9, 'latitudes of ' + name,
                          case)
                got[sub, d] = np.array(v, float)
        r = util.Raster(os.path.join(out, 'M3', name + '.tif'))
        if r.names != util.M3_ORDER or r.n != 8:
            raise Violation('bands %s of M3/%s.tif' % (r.names, name),
                            case=case)
        mx = None
        for band, d in zip(r.bands, util.M3_ORDER):
            prod = np.ones(tile['M3', d].shape)
            for sub in util.SUBS:
                if (sub, d) in got:
                    prod = prod * got[sub, d]
            util.same(masked(band), prod, 1e-6, 'M3 of tile %s, direction %s'
                      % (name, d), case)
            p = np.where(np.isnan(prod), -np.inf, prod)
            mx = p if mx is None else np.maximum(mx, p)
        m = util.Raster(os.path.join(out, 'M3_max', name + '.tif'))
        if m.n != 1:
            raise Violation('%d bands in M3_max/%s.tif' % (m.n, name),
                            case=case)
        mx = np.where(np.isinf(mx), np.nan, mx)
        util.same(masked(m.bands[0]), mx, 1e-6, 'M3_max of tile ' + name,
                  case)
        if min(mx.shape) > 1:   # see finding 1 of DESIGN.md
            for x in (r, m):
                if max(abs(a - b) for a, b in zip(x.gt, tile['gt'])) > 1e-9:
                    raise Violation('tile %s is at %s instead of %s'
                                    % (name, x.gt, tile['gt']), case=case)
    for sub in ('M3', 'M3_max') if tiles else ():
        judge_mosaic(os.path.join(out, sub, 'wind-multipliers.vrt'),
                     [os.path.join(out, sub, n + '.tif') for n in tiles],
                     case)


def judge_mosaic(path, tifs, case=None):
    bands, gt, data, shape = read_vrt(path)
    want = {os.path.realpath(t) for t in tifs}
    # rasters without a position on the map (finding 1) cannot be in it
    flat = {t for t in want if min(util.Raster(t).shape) == 1}
    if not bands:
        raise Violation('no bands in ' + path, case=case)
    for src in bands:
        if set(src) - flat != want - flat:
            raise Violation('%s refers to %s instead of %s'
                            % (os.path.basename(os.path.dirname(path)),
                               sorted(map(os.path.basename, src)),
                               sorted(map(os.path.basename, want))),
                            case=case)
        if flat:
            continue
        for t, rect in src.items():
            r = util.Raster(t)
            pos = ((r.gt[0] - gt[0]) / gt[1], (r.gt[3] - gt[3]) / gt[5],
                   r.shape[1], r.shape[0])
            if max(abs(a - b) for a, b in zip(pos, rect)) > .01:
                raise Violation('mosaic has %s at %s instead of %s'
                                % (os.path.basename(t), rect, pos), case=case)
