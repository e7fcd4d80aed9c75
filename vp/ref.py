"""
Reference model of the wind multipliers, written from the documentation (AS/NZS
1170.2, Record 2014/33 and the docs of the repository), cell by cell and
without any of the code under test.

Rows run north to south, columns west to east; a direction is where the wind
comes from.
"""
import math

DIRS = ['n', 'ne', 'e', 'se', 's', 'sw', 'w', 'nw']
# step to the next cell upwind (row, column)
UP = {'n': (-1, 0), 'ne': (-1, 1), 'e': (0, 1), 'se': (1, 1), 's': (1, 0),
      'sw': (1, -1), 'w': (0, -1), 'nw': (-1, -1)}
NAN = float('nan')

A = 6378137.0
F = 1 / 298.257223563
E2 = F * (2 - F)


def is_nan(x):
    return x != x


# ------------------------------------------------------------- cell sizes

def metres(lat, dlon, dlat):
    """Width and height in metres of a cell centred at a latitude."""
    s = math.sin(math.radians(lat))
    w = math.sqrt(1 - E2 * s * s)
    n = A / w
    m = A * (1 - E2) / w ** 3
    return (n * math.cos(math.radians(lat)) * math.radians(dlon),
            m * math.radians(dlat))


def gridwidth(rows, cols, gt):
    """Average of the mean width and the mean height of the cells."""
    xs = ys = 0.
    for i in range(rows):
        x, y = metres(gt[3] + (i + .5) * gt[5], gt[1], -gt[5])
        xs += x
        ys += y
    return .5 * (xs / rows + ys / rows)


# ----------------------------------------------------------------- terrain

def mz_initial(z0):
    return -0.2827 * math.log(0.4554 * math.log(z0) + 3.734) + 1.0762


def upwind_cells(i, j, rows, cols, direction, lag, avg):
    """The cells lag+1 ... lag+avg steps upwind that exist."""
    di, dj = UP[direction]
    out = []
    for k in range(lag + 1, lag + avg + 1):
        a, b = i + k * di, j + k * dj
        if 0 <= a < rows and 0 <= b < cols:
            out.append((a, b))
    return out


def terrain_widths(gw, direction):
    """Averaging and lag distance in cells."""
    if len(direction) == 1:
        return int(round(500. / gw)), int(round(200. / gw))
    return int(500. / (gw * 1.414)), int(200. / (gw * 1.414))


def upwind_average(init, direction, avg, lag):
    rows, cols = len(init), len(init[0])
    out = []
    for i in range(rows):
        line = []
        for j in range(cols):
            cells = upwind_cells(i, j, rows, cols, direction, lag, avg)
            if cells:
                line.append(math.fsum(init[a][b] for a, b in cells) /
                            len(cells))
            else:
                line.append(init[i][j])
        out.append(line)
    return out


def terrain(classes, table, gw):
    """
    {direction: multipliers} of a land cover, None when no class is known.
    table: {class: (roughness length, shielding)}
    """
    known = [[c in table for c in line] for line in classes]
    if not any(any(line) for line in known):
        return None
    init = [[mz_initial(table[c][0]) if c in table else 1. for c in line]
            for line in classes]
    out = {}
    for d in DIRS:
        avg, lag = terrain_widths(gw, d)
        res = upwind_average(init, d, avg, lag)
        out[d] = [[v if k else NAN for v, k in zip(a, b)]
                  for a, b in zip(res, known)]
    return out


# --------------------------------------------------------------- shielding

def shielding_cells(i, j, direction, n):
    """Cells (of an endless plane) that shield (i, j)."""
    di, dj = UP[direction]
    out = []
    if len(direction) == 1:
        si, sj = abs(dj), abs(di)
        for k in range(1, n + 1):
            for s in (-1, 0, 1):
                if s and k < 2:
                    continue
                out.append((i + k * di + s * si, j + k * dj + s * sj))
    else:
        for a in range(1, n + 1):
            for b in range(1, n + 2 - a):
                out.append((i + a * di, j + b * dj))
    return out


def shielding_average(init, direction, n):
    rows, cols = len(init), len(init[0])
    if n < 1:
        return [list(line) for line in init]
    out = []
    for i in range(rows):
        line = []
        for j in range(cols):
            vals = [init[a][b] if 0 <= a < rows and 0 <= b < cols else 1.
                    for a, b in shielding_cells(i, j, direction, n)]
            line.append(math.fsum(vals) / len(vals))
        out.append(line)
    return out


def sector(aspect):
    """Compass sector 1 (north), 2 (north east) ... 8 of an aspect."""
    return int(((aspect + 22.5) % 360) // 45) + 1


def slope_aspect(dem, gt):
    """Slope in degrees and the direction the slope faces, in degrees."""
    rows, cols = len(dem), len(dem[0])

    def z(i, j):
        return dem[min(max(i, 0), rows - 1)][min(max(j, 0), cols - 1)]

    slope, aspect = [], []
    for i in range(rows):
        mx, my = metres(gt[3] + (i + .5) * gt[5], gt[1], -gt[5])
        sl, al = [], []
        for j in range(cols):
            east = ((z(i - 1, j + 1) + 2 * z(i, j + 1) + z(i + 1, j + 1)) -
                    (z(i - 1, j - 1) + 2 * z(i, j - 1) + z(i + 1, j - 1)))
            south = ((z(i + 1, j - 1) + 2 * z(i + 1, j) + z(i + 1, j + 1)) -
                     (z(i - 1, j - 1) + 2 * z(i - 1, j) + z(i - 1, j + 1)))
            gx, gy = east / (8 * mx), south / (8 * my)
            sl.append(math.degrees(math.atan(math.hypot(gx, gy))))
            # faces where the ground falls: (-gx east, +gy north)
            if gx == 0 and gy == 0:
                al.append(None)
            else:
                al.append(math.degrees(math.atan2(-gx, gy)) % 360)
        slope.append(sl)
        aspect.append(al)
    return slope, aspect


def less_conservative(v):
    return v * .9 if v < .9 else v * v


def shield_cell(ms, slope, faces, direction):
    """Slope facing the wind, then conservatism. faces: sector 1..8, 9 none"""
    if is_nan(ms):
        return NAN
    if faces == DIRS.index(direction) + 1:
        if slope >= 12.3:
            ms = 1.
        elif slope > 3.27:
            ms = ms + (1. - ms) * (slope - 3.27) / (12.3 - 3.27)
    return less_conservative(ms)


def shielding_init(classes, table):
    return [[table[c][1] / 100. if c in table else 1. for c in line]
            for line in classes]


def shielding(init, slope, faces, gw):
    n = int(100. / gw)
    out = {}
    for d in DIRS:
        avg = shielding_average(init, d, n)
        out[d] = [[shield_cell(v, s, f, d) for v, s, f in zip(*lines)]
                  for lines in zip(avg, slope, faces)]
    return out


# ------------------------------------------------------------- topography

def wind_lines(rows, cols, direction):
    """The lines of cells of a tile, each from upwind to downwind."""
    di, dj = UP[direction]
    di, dj = -di, -dj
    out = []
    for i in range(rows):
        for j in range(cols):
            if 0 <= i - di < rows and 0 <= j - dj < cols:
                continue
            line = []
            a, b = i, j
            while 0 <= a < rows and 0 <= b < cols:
                line.append((a, b))
                a += di
                b += dj
            out.append(line)
    return out


def hills(profile):
    """(foot, crest) of each maximal strictly rising run."""
    out = []
    k = 0
    n = len(profile)
    while k < n - 1:
        if profile[k + 1] > profile[k]:
            foot = k
            while k < n - 1 and profile[k + 1] > profile[k]:
                k += 1
            out.append((foot, k))
        else:
            k += 1
    return out


def hill_multipliers(profile, foot, crest, sp, beta_shift=0, tie=None):
    """
    Multipliers of one hill along its line. tie, if given, collects the
    margins of the decisions that rounding may turn, to leave such cells out.
    beta_shift: the cell a slope length behind the crest falls exactly on a
    cell, so rounding may give the one before it.
    """
    n = len(profile)
    m = [1.] * n
    h = profile[crest] - profile[foot]
    lu = (crest - foot) * sp / 2.
    slope = h / (2 * lu)
    l1 = max(.36 * lu, .4 * h)
    l2 = 4 * l1
    beta = min(n - 1, crest + (crest - foot) - beta_shift)
    if beta > crest:
        behind = (profile[crest] - profile[beta]) / ((beta - crest) * sp)
        ef = min(3., max(.5, 2.5 - 1.5 * behind / slope))
    else:
        ef = 1.
    if tie is not None and sp != int(sp):
        tie += [slope - .05, slope - .45]
    if slope < .05 or h < 10 or lu < sp:
        return m
    c = h / (3.5 * (10 + l1))
    for k in range(n):
        x = (crest - k) * sp
        if tie is not None:
            tie += [-x / (h / 4) - 1, abs(ef - 1) - .2]
        if x >= 0:
            if x < l2:
                m[k] = min(1.71, 1 + c * (1 - x / l2))
        elif slope > .45 and x > -h / 4 and abs(ef - 1) < .2:
            if -x < ef * l2:
                m[k] = 1 + .71 * (1 - -x / (ef * l2))
        elif -x < ef * l2:
            m[k] = min(1.71, 1 + c * (1 - -x / (ef * l2)))
    return m


def line_multipliers(line, sp, beta_shift=0, tie=None):
    profile = [math.floor(v) for v in line]
    out = [1.] * len(profile)
    for foot, crest in hills(profile):
        m = hill_multipliers(profile, foot, crest, sp, beta_shift, tie)
        out = [max(a, b) for a, b in zip(out, m)]
    return out


def topo_reduce(m):
    if 1 < m < 1.4:
        return m * (1.25 - .25 * m)
    if m >= 1.4:
        return .9 * m
    return m


def smooth(a):
    rows, cols = len(a), len(a[0])
    out = []
    for i in range(rows):
        line = []
        for j in range(cols):
            line.append(math.fsum(
                a[min(max(i + p, 0), rows - 1)][min(max(j + q, 0), cols - 1)]
                for p in (-1, 0, 1) for q in (-1, 0, 1)) / 9)
        out.append(line)
    return out


def topographic(dem, cellsize, tas=False, directions=DIRS, beta_shift=0,
                tie=None):
    """{direction: multipliers}; dem has NaN for cells without elevation."""
    rows, cols = len(dem), len(dem[0])
    out = {}
    for d in directions:
        sp = cellsize * (math.sqrt(2) if len(d) == 2 else 1)
        m = [[None] * cols for _ in range(rows)]
        for cells in wind_lines(rows, cols, d):
            line = [0. if is_nan(dem[i][j]) else dem[i][j] for i, j in cells]
            for (i, j), v in zip(cells, line_multipliers(line, sp, beta_shift,
                                                         tie)):
                v = topo_reduce(v)
                if tas and dem[i][j] > 500:
                    v *= 1 + .00015 * dem[i][j]
                m[i][j] = v
        m = smooth(m)
        out[d] = [[NAN if is_nan(e) else v for v, e in zip(a, b)]
                  for a, b in zip(m, dem)]
    return out
