"""W02: tile buffers reach the configured distance and stop at the raster."""
from vp import grid
from vp.core import Violation

ID = 'W02'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of raster widths and heights, cell sizes '
             'in x and y, origins and buffer distances through the tile grid '
             'against the definition of a buffer')
NOTE = ('All rasters up to 9 x 9 (13 x 13) cells with 1 to 4 cells and half a '
        'cell per degree in each direction, buffer distances between, at and '
        'far beyond whole cells of both directions, and nine grids of real '
        'size. A distance within 1e-9 of a whole number of cells may count '
        'as that number or one less (rounding).')
RULE = ('cell sizes^2 x widths x heights x buffers (x origins). Non-trivial: '
        'a buffer of at least one cell on some side.')
ASSUMPTIONS = ['north-up rasters (as the program requires)']
TIMEOUT = 120


def cases(tier):
    return grid.cases(tier)


def run(env, case):
    folder = env.tmp()
    for gt, rows, cols in grid.grids(case):
        one = dict(one=[gt, rows, cols])
        for up in grid.buffers(gt[1], -gt[5]):
            try:
                tg, tiles = grid.tiles(folder, gt, rows, cols, up)
            except Violation as e:
                raise Violation(str(e), case=one)
            ok = []
            for nx in grid.cells(up, gt[1]):
                for ny in grid.cells(up, -gt[5]):
                    bad = None
                    for name, big, (x1, x2, y1, y2) in tiles:
                        want = (max(0, x1 - nx), min(cols, x2 + nx),
                                max(0, y1 - ny), min(rows, y2 + ny))
                        if big != want:
                            bad = 'tile %s with cells %s has %s instead of ' \
                                '%s with a buffer of %r' % (
                                    name, (x1, x2, y1, y2), big, want, up)
                            break
                    ok.append(bad)
            if None not in ok:
                raise Violation(ok[0], case=one)
            env.count(key=[one, up], nontrivial=any(t[1] != t[2]
                                                    for t in tiles))
            env.sample(dict(raster=one['one'], buffer=up))
