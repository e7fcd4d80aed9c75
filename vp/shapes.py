"""
Shapes made of the unit cells of a lattice, for which areas, unions and parts
are sets of cells; and layers of such shapes in files.
"""
import itertools
import os

import fiona
from shapely.geometry import box
from shapely.ops import unary_union

from .core import Violation


def rect(x0, y0, x1, y1):
    return frozenset((x, y) for x in range(x0, x1) for y in range(y0, y1))


def rects(w, h):
    """All rectangles in a lattice of w x h cells, with their cells."""
    return [rect(x0, y0, x1, y1)
            for x0, x1 in itertools.combinations(range(w + 1), 2)
            for y0, y1 in itertools.combinations(range(h + 1), 2)]


def signed(ring):
    return sum(a[0] * b[1] - b[0] * a[1]
               for a, b in zip(ring, ring[1:] + ring[:1])) / 2.


def inside(point, ring):
    """Whether a point is inside a ring, by counting crossings."""
    x, y = point
    odd = False
    for (ax, ay), (bx, by) in zip(ring, ring[1:] + ring[:1]):
        if (ay > y) != (by > y) and \
                x < ax + (y - ay) * (bx - ax) / float(by - ay):
            odd = not odd
    return odd


def geometry(cells, scale=(1., 1.), origin=(0., 0.)):
    """The polygon or polygons of a set of cells."""
    return unary_union([
        box(origin[0] + scale[0] * x, origin[1] + scale[1] * y,
            origin[0] + scale[0] * (x + 1), origin[1] + scale[1] * (y + 1))
        for x, y in sorted(cells)])


def rings_of(geom):
    kind = geom.geom_type
    if kind == 'Polygon':
        if geom.is_empty:
            return []
        return [list(geom.exterior.coords)[:-1]] + [
            list(r.coords)[:-1] for r in geom.interiors]
    if kind in ('MultiPolygon', 'GeometryCollection'):
        return [r for g in geom.geoms for r in rings_of(g)]
    return []


def cells_of(geom, window, scale=(1., 1.), origin=(0., 0.)):
    """
    The cells (x0, y0, x1, y1 window) whose centre a shape covers, and
    whether the shape is exactly those cells.
    """
    rings = [[((x - origin[0]) / scale[0], (y - origin[1]) / scale[1])
              for x, y in r] for r in rings_of(geom)]
    x0, y0, x1, y1 = window
    found = frozenset(
        (x, y) for x in range(x0, x1) for y in range(y0, y1)
        if sum(inside((x + .5, y + .5), r) for r in rings) % 2)
    area = 0.
    for r in rings:
        depth = sum(inside(middle(r), q) for q in rings if q is not r)
        area += abs(signed(r)) * (-1 if depth % 2 else 1)
    exact = abs(area - len(found)) < 1e-9 and all(
        abs(c - round(c)) < 1e-9 for r in rings for p in r for c in p)
    return found, exact


def middle(ring):
    """A point just inside a ring."""
    for a, b in zip(ring, ring[1:] + ring[:1]):
        d = (b[0] - a[0], b[1] - a[1])
        for e in (1e-4, -1e-4):
            p = ((a[0] + b[0]) / 2. - e * d[1], (a[1] + b[1]) / 2. + e * d[0])
            if inside(p, ring):
                return p
    return ring[0]


def check(geom, cells, window, what, case, scale=(1., 1.), origin=(0., 0.)):
    found, exact = cells_of(geom, window, scale, origin)
    if found != cells or not exact:
        raise Violation('%s: the shape is %s (%s), not the cells %s'
                        % (what, geom.wkt[:200], 'exactly' if exact else
                           'not whole cells', sorted(cells)), case=case)


def write_layer(path, schema, features, crs='EPSG:4326', kind='Polygon',
                driver='ESRI Shapefile'):
    """features: (geometry or None, {attribute: value})"""
    from shapely.geometry import mapping
    with fiona.open(path, 'w', driver=driver, crs=crs,
                    schema={'geometry': kind, 'properties': schema}) as out:
        for geom, attr in features:
            out.write({'type': 'Feature',
                       'geometry': None if geom is None else mapping(geom),
                       'properties': attr})
    return path


def read_layer(path):
    """[(geometry or None, {attribute: value})], schema, crs"""
    from shapely.geometry import shape
    with fiona.open(path) as src:
        out = [(None if f['geometry'] is None else shape(f['geometry']),
                dict(f['properties'])) for f in src]
        return out, dict(src.schema['properties']), src.crs.to_string() \
            if hasattr(src.crs, 'to_string') else str(src.crs)


def contents(path):
    """The bytes of all files of a layer."""
    base = os.path.splitext(path)[0]
    out = {}
    for name in sorted(os.listdir(os.path.dirname(path))):
        if os.path.splitext(name)[0] == os.path.basename(base):
            with open(os.path.join(os.path.dirname(path), name), 'rb') as h:
                out[name] = h.read()
    return out
