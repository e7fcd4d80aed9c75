"""U02: geodesic distances and positions."""
import itertools
import math

import numpy as np

from vp.core import Violation

ID = 'U02'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of all pairs of points of a grid of '
             'latitudes and longitude differences, and of azimuths and '
             'distances, against geodesics integrated numerically in space')
NOTE = ('The reference integrates the curve of no sideways acceleration on '
        'the ellipsoid (Runge-Kutta, in three dimensions). It shares no '
        'formula with the program and is singular nowhere. A distance is '
        'right when going it along the azimuth leads to the other point '
        'within 5 cm, with the azimuth there, and no shorter way is '
        'plausible.')
RULE = ('latitudes x latitudes x longitude differences (also over the date '
        'line) x figures of the Earth; azimuths x distances; great circles. '
        'Non-trivial: two different points.')
ASSUMPTIONS = ['points a decimetre to 15000 km apart',
               'latitudes up to 85 degrees']
TIMEOUT = 300

A = 6378137.0
FIGURES = {'WGS84': 1 / 298.257223563, 'sphere': 0., 'flat': 1 / 150.,
           'program': (6378137.0 - 6356752.3142) / 6378137.0}


def cases(tier):
    deep = tier == 'thorough'
    for f in ('WGS84', 'program') if not deep else sorted(FIGURES):
        for lat in lats(tier):
            yield dict(k='pairs', f=f, lat=lat)
            yield dict(k='points', f=f, lat=lat)
    for f in ('WGS84', 'sphere'):
        yield dict(k='circle', f=f)


def lats(tier):
    if tier == 'thorough':
        return (-85., -67., -45., -38.2, -23.4, -16.9, -5., -1e-3, 0., 1e-3,
                .5, 12., 30., 45., 60., 71.3, 85.)
    return (-62., -38.2, -16.9, -1e-3, 0., .5, 45., 80.)


def dlons(tier):
    near = (0., 3e-6, 1e-5, 2.777e-4, .1, 1., 10.)
    far = (60., 100.) if tier != 'thorough' else (35., 60., 89.9, 100., 120.)
    return near + far


def cartesian(lat, lon, f):
    e2 = f * (2 - f)
    n = A / np.sqrt(1 - e2 * np.sin(lat) ** 2)
    return np.array([n * np.cos(lat) * np.cos(lon),
                     n * np.cos(lat) * np.sin(lon),
                     n * (1 - e2) * np.sin(lat)])


def frame(lat, lon):
    """East and north."""
    z = 0 * lat
    return (np.array([-np.sin(lon), np.cos(lon), z]),
            np.array([-np.sin(lat) * np.cos(lon),
                      -np.sin(lat) * np.sin(lon), np.cos(lat)]))


def geodesic(lat, lon, az, s, f, steps=500):
    """End point and direction there, in space; arrays."""
    x = cartesian(lat, lon, f)
    e, n = frame(lat, lon)
    v = np.sin(az) * e + np.cos(az) * n
    w = np.array([1., 1., 1 / (1 - f) ** 2])[:, None] / A ** 2
    h = s / steps

    def acc(x, v):
        g = w * x
        return -(v * w * v).sum(0) / (g * g).sum(0) * g

    for _ in range(steps):
        a1 = acc(x, v)
        v2 = v + h / 2 * a1
        a2 = acc(x + h / 2 * v, v2)
        v3 = v + h / 2 * a2
        a3 = acc(x + h / 2 * v2, v3)
        v4 = v + h * a3
        a4 = acc(x + h * v3, v4)
        x = x + h / 6 * (v + 2 * v2 + 2 * v3 + v4)
        v = v + h / 6 * (a1 + 2 * a2 + 2 * a3 + a4)
    return x, v


def azimuth(v, lat, lon):
    e, n = frame(lat, lon)
    return np.arctan2((v * e).sum(0), (v * n).sum(0))


def turn(a, b):
    """Difference of two angles."""
    return abs(math.remainder(a - b, 2 * math.pi))


def run(env, case):
    from utilities import vincenty
    f = FIGURES[case['f']]
    if case['k'] == 'circle':
        return circles(env, case, f)
    rad = math.radians
    if case['k'] == 'pairs':
        rows = []
        for lat2 in lats(env.tier) + (case['lat'] + 2e-6, case['lat'] + 1e-5, case['lat'] - .01,
                                      case['lat'] + 1.):
            for d in dlons(env.tier):
                for sign in (1, -1):
                    for lon in (0., 133., 179.999, -179.5):
                        lon2 = (lon + sign * d + 540.) % 360. - 180.
                        if abs(lat2) > 85 or (sign < 0 and d == 0):
                            continue
                        rows.append((rad(case['lat']), rad(lon), rad(lat2),
                                     rad(lon2), d, lat2))
        got = []
        keep = []
        for p, l, q, m, d, lat2 in rows:
            try:
                s, a12, a21 = vincenty.vinc_dist(f, A, p, l, q, m)
            except Exception as e:
                raise Violation('distance of %r, %r: %r'
                                % ((case['lat'], math.degrees(l)),
                                   (lat2, math.degrees(m)), e), case=case)
            back = vincenty.vinc_dist(f, A, q, m, p, l)
            what = 'from %r to %r' % ((case['lat'], math.degrees(l)),
                                      (lat2, math.degrees(m)))
            if p == q and d == 0:
                if s != 0 or back[0] != 0:
                    raise Violation('distance %r of a point to itself' % s,
                                    case=case)
                continue
            if not abs(s - back[0]) <= .05:
                raise Violation('distance %s is %r there and %r back'
                                % (what, s, back[0]), case=case)
            if s > 15e6:
                continue
            # the same distance without a figure
            sphere = 6371e3 * 2 * math.asin(math.sqrt(min(1., (
                math.sin((p - q) / 2) ** 2 + math.cos(p) * math.cos(q) *
                math.sin((l - m) / 2) ** 2))))
            if sphere < .1:
                continue
            if not abs(s - sphere) <= .012 * sphere + .02:
                raise Violation('distance %s is %r (about %.3f)'
                                % (what, s, sphere), case=case)
            if s > 1 and not (turn(a12, back[2]) <= 1e-6 + .1 / s and
                              turn(a21, back[1]) <= 1e-6 + .1 / s):
                raise Violation('azimuths %s are %r, back %r'
                                % (what, (a12, a21), back[1:]), case=case)
            got.append((s, a12, a21))
            keep.append((p, l, q, m, what))
        p, l, q, m = np.array([x[:4] for x in keep]).T
        s, a12, a21 = np.array(got).T
        x, v = geodesic(p, l, a12, s, f)
        miss = np.sqrt(((x - cartesian(q, m, f)) ** 2).sum(0))
        end = azimuth(v, q, m)
        for i in range(len(keep)):
            if not miss[i] <= .05:
                raise Violation(
                    'going the distance %r m %s at azimuth %r misses by %.3f '
                    'm' % (s[i], keep[i][4], a12[i], miss[i]), case=case)
            if not turn(end[i] + math.pi, a21[i]) <= 1e-6 + .1 / s[i]:
                raise Violation('azimuth at the end %s is %r instead of %r'
                                % (keep[i][4], a21[i], end[i] + math.pi),
                                case=case)
        env.count(key=None, evaluations=len(keep))
        for i in range(len(keep)):
            env.count(key=[case['f'], keep[i][4]], evaluations=0)
    else:
        rows = [(rad(case['lat']), rad(lon), az, s)
                for lon in (0., -179.9, 146.)
                for az in list(np.linspace(
                    0, 2 * math.pi, 16 if env.tier == 'quick' else 48,
                    endpoint=False)) + [-.3, -1.9, -3.1, 2 * math.pi, 6.9]
                for s in (0., .5, 30., 1e3, 55660., 1e6, 9.9e6, 15e6)]
        p, l, az, s = np.array(rows).T
        x, v = geodesic(p, l, az, s, f)
        for i, row in enumerate(rows):
            what = 'going %g m from %r at azimuth %r' % (
                s[i], (case['lat'], math.degrees(l[i])), az[i])
            try:
                q, m, a21 = vincenty.vinc_pt(f, A, *row)
            except Exception as e:
                raise Violation('%s: %r' % (what, e), case=case)
            miss = np.sqrt(((x[:, i] - cartesian(q, m, f)) ** 2).sum())
            if not miss <= .01:
                raise Violation('%s misses by %.3f m' % (what, miss),
                                case=case)
            if abs(q) < rad(89):
                end = azimuth(v[:, i], np.float64(q), np.float64(m))
                if not turn(end + math.pi, a21) <= 1e-6:
                    raise Violation('%s: reverse azimuth %r instead of %r'
                                    % (what, a21, end + math.pi), case=case)
            env.count(key=[case, i], nontrivial=s[i] > 0)
    env.sample(case)


def circles(env, case, f):
    from utilities import vincenty
    b = A * (1 - f)
    for lon1, lat1, lon2, lat2 in itertools.product(
            (-10., 146.), (-37., 0.2, 60.), (-20., 140., 170.), (-45., 59.)):
        g = vincenty.GreatCircle(A, b, lon1, lat1, lon2, lat2)
        what = 'great circle %s' % ((lon1, lat1, lon2, lat2),)
        s, a12, a21 = vincenty.vinc_dist(f, A, *map(
            math.radians, (lat1, lon1, lat2, lon2)))
        if not abs(g.distance - s) <= .05:
            raise Violation('%s: distance %r instead of %r'
                            % (what, g.distance, s), case=case)
        for n in (2, 3, 4, 7, 12, 53, 120) if lat1 != .2 else (2, 3, 12):
            lons, lats_ = g.points(n)
            lons, lats_ = list(lons), list(lats_)
            if len(lons) != n or len(lats_) != n:
                raise Violation('%s: %d points instead of %d'
                                % (what, len(lons), n), case=case)
            k = np.arange(n) / (n - 1.)
            one = np.ones(n)
            x, _ = geodesic(math.radians(lat1) * one,
                            math.radians(lon1) * one, a12 * one, s * k, f)
            got = cartesian(np.radians(np.array(lats_, float)),
                            np.radians(np.array(lons, float)), f)
            miss = np.sqrt(((x - got) ** 2).sum(0))
            # the end is as far off as the distance
            if not miss.max() <= .1:
                raise Violation('%s: point %d of %d is off by %.3f m'
                                % (what, miss.argmax(), n, miss.max()),
                                case=case)
            env.count(key=[case, lon1, lat1, lon2, lat2, n])
        for n in (1, 0):
            try:
                g.points(n)
            except ValueError:
                continue
            raise Violation('%s: %d points' % (what, n), case=case)
