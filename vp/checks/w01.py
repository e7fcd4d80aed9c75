"""W01: tiles partition the elevation raster and have distinct names."""
from vp import grid
from vp.core import Violation

ID = 'W01'
LEVEL = 'exploration'
TECHNIQUE = ('exhaustive enumeration of raster widths and heights, cell sizes '
             'in x and y, origins and buffers through the tile grid; cover of '
             'every cell counted')
NOTE = ('All rasters up to 9 x 9 (13 x 13) cells with 1 to 4 cells and half a '
        'cell per degree in each direction, so up to 81 tiles with all '
        'remainders, buffers up to wider than the raster, and nine grids of '
        'real size. Every cell of the small rasters is looked up in all '
        'tiles; large ones by column and row intervals.')
RULE = ('cell sizes^2 x widths x heights x buffers (x origins). Non-trivial: '
        'more than one tile.')
ASSUMPTIONS = ['north-up rasters (as the program requires)']
TIMEOUT = 120


def cases(tier):
    return grid.cases(tier)


def run(env, case):
    folder = env.tmp()
    for gt, rows, cols in grid.grids(case):
        one = dict(one=[gt, rows, cols])
        for up in grid.buffers(gt[1], -gt[5])[::3]:
            try:
                tg, tiles = grid.tiles(folder, gt, rows, cols, up)
            except Violation as e:
                raise Violation(str(e), case=one)
            names = [t[0] for t in tiles]
            if len(set(names)) != len(names):
                raise Violation('tiles share a name: %s' % sorted(names),
                                case=one)
            wide, high = max(grid.steps(gt[1])), max(grid.steps(-gt[5]))
            owner = {}
            area = 0
            for name, big, (x1, x2, y1, y2) in tiles:
                if not (0 <= x1 < x2 <= cols and 0 <= y1 < y2 <= rows):
                    raise Violation('tile %s has cells %s of %d x %d'
                                    % (name, (x1, x2, y1, y2), cols, rows),
                                    case=one)
                if x2 - x1 > wide or y2 - y1 > high:
                    raise Violation('tile %s is %d x %d cells large'
                                    % (name, x2 - x1, y2 - y1), case=one)
                area += (x2 - x1) * (y2 - y1)
                if rows * cols <= 400:
                    for x in range(x1, x2):
                        for y in range(y1, y2):
                            if (x, y) in owner:
                                raise Violation('cell %s is in tiles %s, %s'
                                                % ((x, y), owner[x, y], name),
                                                case=one)
                            owner[x, y] = name
                want = 'e%ss%s' % (str(gt[0] + x1 * gt[1])[:8],
                                   str(-gt[3] - y1 * gt[5])[:7])
                if name != want and not close(name, gt[0] + x1 * gt[1],
                                              -gt[3] - y1 * gt[5]):
                    raise Violation('tile %s instead of %s' % (name, want),
                                    case=one)
            if area != rows * cols:
                raise Violation('tiles have %d of %d cells'
                                % (area, rows * cols), case=one)
            if rows * cols > 400:
                check_large([t[2] for t in tiles], rows, cols, one)
            env.count(key=[one, up], nontrivial=len(tiles) > 1)
            env.sample(dict(raster=one['one'], buffer=up,
                            tiles=[t[0] for t in tiles][:4]))


def close(name, x, y):
    """The name of a position that differs by rounding errors only"""
    try:
        a, b = name[1:].split('s')
        return name[0] == 'e' and len(a) <= 8 and len(b) <= 7 and \
            abs(float(a) - x) <= 1e-9 + 10. ** -(8 - len(str(int(x))) - 1) \
            and abs(float(b) - y) <= 1e-9 + 10. ** -(7 - len(str(int(y))) - 1)
    except ValueError:
        return False


def check_large(limits, rows, cols, one):
    for i, a in enumerate(limits):
        for b in limits[:i]:
            if max(a[0], b[0]) < min(a[1], b[1]) and \
                    max(a[2], b[2]) < min(a[3], b[3]):
                raise Violation('tiles %s and %s overlap' % (a, b), case=one)
