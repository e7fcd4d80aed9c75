"""Writes /verif/properties.jsonl (kept as a script so it stays readable)."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=(),
      state=()):
    assert len(title) <= 80, (id, len(title))
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': files,
                     'mechanism': [{'name': n, 'where': w} for n, w in mech],
                     'observe_at': list(observe), 'hook_needed': None}}
    if state:
        d['anchors']['state'] = [
            {'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append(d)


AM = 'all_multipliers.py'
TM = 'terrain/terrain_mult.py'
SM = 'shielding/shield_mult.py'
TP = 'topographic/topo_mult.py'
NC = 'utilities/nctools.py'
CV = 'utilities/convert.py'
MR = 'utilities/mpi_runner.py'
PA = 'utilities/parallel.py'
VL = 'utilities/value_lookup.py'

# ---------------------------------------------------------------- workflow
p('W01', 'Tiles partition the elevation raster and have distinct names',
  'Dividing an elevation raster into tiles puts every cell of the raster in '
  'the unbuffered extent of exactly one tile and no tile reaches outside the '
  'raster or is larger than one degree (rounded up to whole cells). Each tile '
  'is named after the position of the top-left corner of its unbuffered '
  'extent (e<longitude>s<southern latitude>, cut to 8 and 7 characters) and '
  'no two tiles share a name.',
  ['inputs', 'configurations'],
  'every raster width and height, cell size (also different in x and y), '
  'origin and buffer distance, including a last tile narrower than the '
  'buffer and a buffer wider than a tile',
  'No test builds a tile grid at all.',
  [AM], [('tile grid steps and limits', 'TileGrid.__init__/tile_grid'),
         ('unbuffered limits and extent',
          'TileGrid.get_gridlimit/get_tile_extent'),
         ('names', 'TileGrid.get_tilename')],
  ['get_tiles(TileGrid(buffer, dem))'])

p('W02', 'Tile buffers reach the configured distance and stop at the raster',
  'The buffered extent of every tile is its unbuffered extent grown by the '
  'configured upwind distance (in whole cells, rounded down) on each of the '
  'four sides independently, cut only where the raster ends. So each cell of '
  'a tile has all existing cells within that distance available, in every '
  'direction.',
  ['inputs', 'configurations'],
  'every raster size, cell size (also different in x and y), origin and '
  'buffer distance, for all tiles: corner, edge and interior',
  'No test builds a tile grid at all.',
  [AM], [('buffered indices', 'TileGrid.tile_grid'),
         ('buffered extent', 'TileGrid.get_tile_extent_buffer')],
  ['get_tiles(TileGrid(buffer, dem))'])

p('W03', 'Working tiles hold exactly the source cells of their extent',
  'The elevation tile cut for an extent has, cell for cell, the elevations of '
  'the source raster at the same positions and the georeference of the '
  'extent; source cells without data become 0. The land-cover tile made for '
  'it has the same grid and in each cell the class of the land-cover cell '
  'nearest to (containing) its centre, also when the land cover has another '
  'resolution, origin, extent or projection, and 0 where there is none.',
  ['inputs', 'configurations'],
  'every tile extent of a raster; integer and floating point data; '
  'land cover finer, coarser, shifted or smaller than the elevation data',
  'The one test for clipping needs a file that is not in the repository; '
  'resampling is tested on one pair of files.',
  [AM], [('cutting the DEM', 'Multipliers.open_dem/cut_dem/clip_dataset'),
         ('resampling the land cover', 'reproject_dataset')],
  ['the .img tiles written to the output folder'])

p('W04', 'Every tile is computed exactly once, whatever the schedule',
  'For every number of processes and tiles, and every order in which the '
  'workers finish, each tile is cut and computed exactly once with its own '
  'elevation data, by one process, and all processes return. No process '
  'waits forever, whether or not sends complete before they are received.',
  ['schedules', 'configurations'],
  'all message orders and interleavings of the master with up to 4 workers '
  '(more or fewer workers than tiles, no tiles, a single process), with '
  'buffered and with synchronous sends',
  'No test runs the distribution of tiles; mpi4py is not even installed.',
  [AM, PA], [('master and worker loops', 'Multipliers.parallelise_on_tiles'),
             ('fallback communicator', 'utilities/parallel.py')],
  ['calls to cut and compute a tile, messages, return of every rank'],
  [('w, p, terminated', 'next tile, workers to stop, workers stopped',
    'Multipliers.parallelise_on_tiles')])

p('W05', 'Every computed tile is converted once and part of the mosaics',
  'After the conversion, each tile that has shielding files has exactly one '
  'M3 and one M3_max raster, written once, for every number of processes and '
  'every schedule. The two wind-multipliers.vrt mosaics refer to the rasters '
  'of all tiles and no others, each at its position; with no tiles the '
  'conversion finishes without mosaics.',
  ['schedules', 'configurations', 'inputs'],
  'all sets of up to 6 tiles and 1 to 4 (thorough: 5) processes, more or '
  'fewer than tiles, all schedules of the collective operations',
  'One test converts one tile in one process.',
  [MR, CV], [('scatter, gather and mosaic', 'parallelise_convert_on_tiles'),
             ('writing one tile', 'Converter.run')],
  ['M3/*.tif, M3_max/*.tif and the two VRT files'])

p('W06', 'A run on many processes gives the same results as a serial run',
  'A complete run on any number of processes leaves the same set of result '
  'files with the same contents as a run on one process, for every schedule. '
  'The output folder is only replaced by one process, before any process '
  'writes into it, and conversion starts only when all tiles are computed.',
  ['schedules', 'configurations'],
  'all message orders for 1 to 4 processes and 1 to 4 tiles, and all '
  'interleavings of file operations with at most 2 (quick: 1) preemptions',
  'No test performs a run, neither serial nor parallel.',
  [AM, MR, PA],
  [('run', 'all_multipliers.run'),
   ('reset of the output folder', 'do_output_directory_creation'),
   ('master-only decorator', 'utilities/parallel.py disable_on_workers'),
   ('barriers', 'all_multipliers.run')],
  ['the output folder after the run'])

p('W07', 'Tiles are skipped if and only if they have no elevation data',
  'A tile whose buffered elevation data are all zero (or have no data) is '
  'skipped: it leaves no multiplier files and no temporary files and does '
  'not disturb the other tiles. Any tile with at least one cell that is not '
  'zero, however small or negative, gets all its multiplier files.',
  ['inputs', 'histories'],
  'all patterns of empty and non-empty tiles, a single non-zero cell at '
  'every position, elevations such as 0.4, -0.4, 7, -1, also in the buffer',
  'No test processes a tile.',
  [AM], [('test for an empty tile', 'Multipliers.multipliers_calculate')],
  ['files in the output folder'])

p('W08', 'A run owns its output folder and nothing else',
  'After a run the output folder holds exactly the folders terrain, '
  'shielding, topographic, M3 and M3_max with the results of this run: '
  'results of earlier runs and temporary files are gone. Inputs and '
  'everything outside the output folder and the log file are left as they '
  'were, and the working directory is unchanged, also with relative paths.',
  ['histories', 'configurations'],
  'all sequences of up to 2 runs (thorough: 3) over different inputs and '
  'settings, absolute and relative paths, prior content of the folder '
  'including nested files and symbolic links',
  'No test performs a run.',
  [AM, SM], [('output folder creation', 'do_output_directory_creation'),
             ('clean-up of temporary tiles',
              'Multipliers.multipliers_calculate, convo_combine')],
  ['directory trees before and after'])

p('W09', 'A run after a crash gives the results of a clean run',
  'If a run is interrupted at any point, a new run with the same '
  'configuration completes and leaves exactly the files and contents that a '
  'run on a clean system leaves. The interrupted run leaves its inputs '
  'untouched.',
  ['crash_points', 'histories'],
  'a crash before and after every file operation of a run (creating, '
  'writing, removing files and folders), also with half-written files, and '
  'a second crash during the repeated run',
  'No test performs a run, let alone interrupts one.',
  [AM, NC, CV], [('output folder creation', 'do_output_directory_creation'),
                 ('unconditional rewriting of results',
                  'nc_save_grid (clobber), Converter.process_tile')],
  ['the output folder after the repeated run'])

p('W10', 'Unusable inputs end the run with an error',
  'When the configuration file, the elevation raster, the land-cover raster '
  'or the terrain table is missing or unreadable, or a required setting is '
  'missing, the run ends with an exception or a non-zero exit status. It '
  'does not report success and never produces multipliers from something '
  'else than the given inputs.',
  ['fault_sequences', 'configurations'],
  'each input missing, empty, truncated, of a wrong format or a directory, '
  'alone and in pairs, before the run and (rasters, table) during it',
  'Tests cover two missing or broken rasters on opening them.',
  [AM, TM, SM, 'utilities/config.py'],
  [('existence and format checks', 'TileGrid.__init__, Multipliers.open_dem, '
    'reproject_dataset, get_terrain_table'),
   ('configuration', '_ConfigParser.set_config_file')],
  ['exception or exit status of the run'])

p('W11', 'Cutting a region into tiles does not change the multipliers',
  'With a buffer at least as long as the upwind reach, the terrain and '
  'shielding multipliers of every cell are the same whether the region is '
  'computed as one tile or cut into tiles at any rows and columns. No seam, '
  'gap or repeated row appears at tile borders.',
  ['inputs', 'configurations'],
  'all cut positions of a small region into 1 to 4 tiles, all buffer sizes '
  'that cover the reach, all directions, and data that differ everywhere',
  'No test computes more than one tile.',
  [AM, TM, SM, NC],
  [('buffers', 'TileGrid.tile_grid'), ('clipping', 'clip_array'),
   ('upwind averages', 'convo, convo_combine')],
  ['terrain/*.nc, shielding/*.nc'])

p('W12', 'The eight wind directions are treated alike',
  'Turning or mirroring the land cover and elevation of a region turns or '
  'mirrors the multipliers with it: the result for the wind direction that '
  'the original direction is turned into has the same values at the turned '
  'positions. This holds for the four quarter turns and the mirror images, '
  'for terrain, shielding and topographic multipliers.',
  ['inputs'],
  'all 8 symmetries of the square times all 8 directions, over all single '
  'cell patterns and structured patterns on small square and rectangular '
  'grids',
  'Tests check each direction against numbers taken from the code, for one '
  'input.',
  [TM, SM, TP, VL, 'topographic/make_path.py'],
  [('direction tables', 'utilities/value_lookup.py'),
   ('direction kernels', 'kern_*'), ('data lines', 'make_path')],
  ['terrain/*.nc, shielding/*.nc, topographic/*.nc'])

p('W13', 'A run that cannot write its results does not report success',
  'If the disk becomes full, or no more files or folders can be created, '
  'from any point of a run on, or the creation of a file or a write to a '
  'multiplier file or mosaic fails once, the run ends with an error or its '
  'results are complete and the same as without the fault. A run after '
  'that, with the fault gone, gives the results of a clean run, and the '
  'inputs are never changed.',
  ['fault_sequences', 'inputs', 'histories'],
  'all file system operations of runs with one to three tiles, with and '
  'without older results, on one and two processes, as the beginning of '
  'each fault',
  'No test makes a write fail.',
  [AM, NC, CV, MR],
  [('output', 'nc_save_grid'), ('products', 'Converter'),
   ('mosaics', 'parallelise_convert_on_tiles'),
   ('intermediate rasters', 'reproject_dataset, clip_dataset')],
  ['exit status, output folder'])

p('W14', 'Each process of a run keeps its own log where it is configured',
  'The master process of a run logs to the configured file and every other '
  'process to that file with an underscore and its rank appended, in a '
  'folder that is created if missing, or to multipliers.log in the working '
  'folder if it cannot be. However the processes interleave, each log holds '
  'the messages of its process from the configured level on and nothing '
  'else, and replaces the log of an earlier run. With the verbose setting or '
  'option the messages of the master also go to its terminal.',
  ['schedules', 'configurations'],
  'all interleavings of file operations of the start of up to five '
  'processes, all places of the log file, levels and verbose settings',
  'No test runs more than one process or looks at a log.',
  [AM, 'utilities/files.py'],
  [('settings', 'run'), ('log', 'fl_start_log')],
  ['log files, terminal'])

# ----------------------------------------------------------------- terrain
p('T01', 'Land-cover classes get the terrain multiplier of their roughness',
  'Each land-cover cell starts from the multiplier of its own class: -0.2827 '
  'ln(0.4554 ln(z0) + 3.734) + 1.0762 with the roughness length z0 that the '
  'configured table gives for the class, whatever the order, number and '
  'numbering of the classes in the table. Cells of classes that are not in '
  'the table have no data in the result and count as 1 (water) for others; '
  'a tile without any known class gets no terrain files.',
  ['inputs', 'configurations'],
  'all maps over an alphabet of known and unknown classes on small grids, '
  'all orders of the table, all land-cover data types',
  'One test for one table and one raster.',
  [TM], [('reclassification', 'terrain_class2mz_orig'),
         ('no-data mask', 'terrain()'), ('table', 'get_terrain_table')],
  ['terrain/*.nc'])

p('T02', 'Terrain multipliers average the upwind cells after the lag',
  'For each of the 8 directions the terrain multiplier of a cell is the mean '
  'of the initial multipliers of the cells straight upwind that lie beyond '
  'the lag distance (200 m) and within the averaging distance (500 m) after '
  'it, converted to whole cells (along the diagonal for the diagonal '
  'directions). Near the edge the cells that exist are averaged, and a cell '
  'with none keeps its initial multiplier, for every tile shape and '
  'resolution.',
  ['inputs', 'configurations'],
  'all grid shapes up to a bound (thin, square, smaller than the lag), all '
  'resolutions that give different cell counts, each cell as the only '
  'different one, all 8 directions',
  'One 2-directional test with one array, one lag and one width.',
  [TM, VL], [('moving average', 'convo'),
             ('neighbour tables', 'ALL_NEIGHB, POINT_R, POINT_C'),
             ('widths', 'terrain()')],
  ['terrain/*.nc'])

# --------------------------------------------------------------- shielding
p('S01', 'Land-cover classes get their configured initial shielding',
  'The initial shielding of a cell is the shielding value (percent) that the '
  'configured table gives for its class, and 1 for classes that are not in '
  'the table; cells without land-cover data have no data. This holds for '
  'every order, number and numbering of the classes, and the grid and '
  'georeference of the land cover are kept.',
  ['inputs', 'configurations'],
  'all maps over an alphabet of known, unknown and no-data classes on small '
  'grids, all orders of the table, several no-data values and data types',
  'One test for one table and one raster.',
  [SM], [('reclassification', 'terrain_class2ms_orig'),
         ('table', 'get_shielding_table')],
  ['the initial shielding raster, shielding/*.nc'])

p('S02', 'Shielding averages only the upwind sector within 100 m',
  'Before slope and conservatism, the shielding of a cell for a direction is '
  'the plain mean of the initial shielding of the cells upwind within 100 m '
  '(n cells): for n, e, s and w the line of 1 to n cells upwind with the '
  'neighbours on both sides from 2 to n, for the diagonal directions the '
  'triangle between the two axes up to n. Cells outside the tile count as '
  'unshielded (1), the cell itself and cells to the side or downwind never '
  'count, and with cells over 100 m the initial value is kept.',
  ['inputs', 'configurations'],
  'resolutions from 1 to 4 cells (thorough: 8) per 100 m and coarser, each '
  'cell as the only shielded one, all directions, all shapes up to a bound',
  'Tests compare kernels of one size with stored numbers.',
  [SM], [('kernels', 'init_kern, init_kern_diag, kern_*'),
         ('averaging', 'blur_image, convo_combine')],
  ['shielding/*.nc'])

p('S03', 'Slopes facing the wind lose shielding; conservatism is removed',
  'For each direction, shielding of cells whose slope faces the wind is '
  'kept up to 3.27 degrees, goes linearly to 1 at 12.3 degrees and is 1 '
  'above; all other cells keep theirs. Then values under 0.9 are multiplied '
  'by 0.9 and others are squared. The result for a direction depends on that '
  'direction only, not on which directions were computed before.',
  ['inputs', 'histories'],
  'all combinations of shielding, slope (below, at, between and above the '
  'limits) and aspect sector with all directions, all orders of directions, '
  'fine and coarse grids',
  'Tests use one or two small arrays for single directions.',
  [SM, VL], [('slope and conservatism', 'combine'),
             ('aspect of a direction', 'DIRE_ASPECT'),
             ('directions one after another', 'convo_combine')],
  ['shielding/*.nc'])

p('S04', 'Slope and aspect follow from the elevations in metres',
  'The slope of a cell is the arctangent of the 3 x 3 weighted elevation '
  'differences over the real cell size in metres at its latitude, and its '
  'aspect is the compass sector (one of eight, 45 degrees wide, centred on '
  'north, north-east and so on) the slope faces. Both do not change when a '
  'constant is added to the elevations, and cells without elevation have no '
  'slope.',
  ['inputs'],
  'all small elevation patterns over a few levels, planes tilted to 64 '
  'directions and several slopes, at several latitudes and resolutions',
  'One test compares one raster with stored results.',
  [SM, 'utilities/get_pixel_size_grid.py'],
  [('gradient', 'get_slope_aspect'), ('sectors', 'reclassify_aspect')],
  ['slope and sector arrays'])

# ------------------------------------------------------------- topographic
p('G01', 'Wind lines cover every cell once and run with the wind',
  'For each direction the lines along which hills are looked for pass every '
  'cell of the tile exactly once, start at the upwind edge and step to the '
  'neighbour downwind. So a hill influences only cells on its own line, and '
  'every cell gets a multiplier, for every tile shape.',
  ['inputs'],
  'all tile shapes up to 8 x 8 (thorough: 12 x 12) and selected large ones, '
  'all 8 directions, all start cells',
  'No test looks at the lines.',
  ['topographic/make_path.py', TP],
  [('line of cells', 'make_path'), ('start cells', 'topomult')],
  ['topographic/*.nc for single hills', 'lines of cells'])

p('G02', 'Every rise on a wind line is one hill, from its foot to its crest',
  'On a line of elevations (in whole metres, rounded down) each maximal run '
  'of strictly rising cells is one hill whose crest is the last and whose '
  'foot is the first cell of the run, including hills that start or end at '
  'the edge, plateaus and shoulders. Flat and falling lines have no hills '
  'and the multiplier is 1; where hills overlap the largest multiplier '
  'applies.',
  ['inputs'],
  'all lines of up to 8 cells (thorough: 9) over 3 or 4 elevations, and '
  'fractional elevations around whole metres',
  'Tests use a handful of fixed profiles.',
  ['topographic/findpeaks.py', 'topographic/multiplier_calc.py'],
  [('crests and feet', 'findpeaks, findvalleys'),
   ('pairing and maximum', 'multiplier_calc')],
  ['the multipliers of a line'])

p('G03', 'Hill multipliers follow the hill shape and stay within 1 to 1.71',
  'A hill of height H and half-slope length Lu on a line gives 1 + H / '
  '(3.5 (10 + L1)) (1 - |x| / L2), at most 1.71, at distance x from the '
  'crest, with L1 = max(0.36 Lu, 0.4 H), L2 = 4 L1 upwind and L2 stretched '
  'by the escarpment factor (0.5 to 3, 1 for a crest at the edge) downwind, '
  'and steep symmetric crests get 1.71 falling linearly. Hills lower than '
  '10 m, flatter than 0.05 or shorter than the cell spacing give 1, and so '
  'does everything beyond L2.',
  ['inputs'],
  'all triangular hills and escarpments over a grid of heights, lengths, '
  'backslopes, positions on the line and cell spacings, with thresholds met '
  'exactly',
  'Tests use a handful of fixed profiles with coarse tolerance.',
  ['topographic/mh.py'],
  [('escarpment factor', 'escarpment_factor'), ('hill shape', 'mh_calc')],
  ['the multipliers of a line'])

p('G04', 'Topographic multipliers are reduced, raised in Tasmania, smoothed',
  'Per direction the hill multipliers M of all cells become M (1.25 - 0.25 '
  'M) between 1 and 1.4 and 0.9 M from 1.4; in Tasmania (east of 143, south '
  'of 40 S) cells above 500 m are multiplied by 1 + 0.00015 E. Then they '
  'are averaged over 3 x 3 cells (at the edge, repeating the edge), and '
  'cells without elevation have no data. Flat land outside Tasmania has '
  'exactly 1 everywhere, and directions do not affect each other.',
  ['inputs', 'configurations'],
  'small elevation grids with hills, flats and missing cells, positions on '
  'all sides of the Tasmania limits, elevations below, at and above 500 m, '
  'integer and float data, all directions',
  'Tests check the two formulas on one array each, and no complete tile.',
  [TP], [('conservatism', 'remove_conservatism'), ('Tasmania', 'tasmania'),
         ('smoothing and output', 'topomult')],
  ['topographic/*.nc'])

# ------------------------------------------------------------------ output
p('N01', 'Result cells keep their value and position on the map',
  'Each multiplier file covers exactly the unbuffered extent of its tile, '
  'with the centre coordinates of its cells from north to south and west to '
  'east, and holds at each coordinate the value computed for the cell at '
  'that position. This holds for every buffer on each side and every tile '
  'size, cell size and origin.',
  ['inputs', 'configurations'],
  'all core sizes and buffers (different on the four sides) up to a bound, '
  'rectangular cells, origins with inexact decimals, and complete files of '
  'all three multipliers',
  'Two tests for one raster and three extents.',
  [NC, TM, SM, TP], [('clipping', 'clip_array'),
                     ('coordinates', 'get_lat_lon'),
                     ('files', 'save_multiplier')],
  ['*.nc'])

p('N02', 'Multiplier files are complete and describe themselves',
  'A saved multiplier file can be read back with the same values (32 bit), '
  'cells without data marked as such with -9999, the coordinate variables, '
  'units and range attributes, the coordinate system variable and a '
  'reference to it, and the '
  'multiplier, direction, inputs and all settings as attributes. Every '
  'variable and attribute given is written, errors in the description of '
  'the data are reported, and an existing file is replaced completely.',
  ['inputs', 'configurations'],
  'all shapes up to a bound, values incl. missing ones, all multipliers and '
  'directions, all numbers of variables and attributes, each required key '
  'missing, with and without git',
  'No test writes a file with these functions.',
  [NC], [('files', 'nc_save_grid, save_multiplier')],
  ['*.nc as read by netCDF4 and GDAL'])

# -------------------------------------------------------------- conversion
p('C01', 'M3 is the product of the three multipliers per direction',
  'The M3 raster of a tile has one band per direction, described by the '
  'direction in the order e, n, ne, nw, s, se, sw, w, with shielding x '
  'terrain x topographic of that direction in each cell, at the position of '
  'the tile. Where any of the three has no data the product has no data '
  '(-9999), and tiles do not influence each other.',
  ['inputs', 'histories'],
  'all small tile shapes, all patterns of missing cells in the three '
  'multipliers, values different in every cell, direction and multiplier, '
  'several tiles in all orders',
  'One test checks only that files exist.',
  [CV], [('product', 'Converter.process_tile')],
  ['M3/*.tif'])

p('C02', 'M3_max is the largest product over the eight directions',
  'The M3_max raster of a tile has one band, at the same position and size '
  'as the M3 raster, with the largest M3 value over the eight directions in '
  'each cell, leaving out directions without data. It has no data (-9999) '
  'where no direction has any.',
  ['inputs'],
  'the maximum at each direction in turn, all patterns of directions '
  'without data, values below and above 1, all small shapes',
  'One test checks only that files exist.',
  [CV], [('maximum', 'Converter.process_max_tile')],
  ['M3_max/*.tif'])

p('C03', 'A missing multiplier file counts as ones in the product',
  'If the file of one multiplier and direction is missing or cannot be opened at '
  'conversion, the product of that direction uses 1 for it and is otherwise '
  'unchanged; all other directions and tiles are as if nothing was missing. '
  'The tile keeps its size and position whichever files are missing, as long '
  'as its shielding file for north is there.',
  ['fault_sequences', 'inputs'],
  'each of the 23 other files missing, all pairs (thorough: triples), whole '
  'multipliers missing, unreadable instead of missing, tiles of any shape',
  'No test has missing files.',
  [CV], [('replacement', 'Converter.process_tile')],
  ['M3/*.tif, M3_max/*.tif'])

# --------------------------------------------------------------- utilities
p('U01', 'Cell sizes in metres are right for every cell',
  'For every geographic raster the cell width and height in metres of each '
  'cell agree with the ellipsoidal (WGS84) distances across the cell at its '
  'latitude, within 0.05 percent. They do not depend on the longitude or on '
  'the shape of the raster, from a single cell to thin and large tiles.',
  ['inputs'],
  'all raster shapes up to a bound and tile-size rasters, both hemispheres, '
  'equator to 60 degrees, cells of 0.0002 to 0.1 degrees, not square',
  'No test covers it.',
  ['utilities/get_pixel_size_grid.py', 'utilities/blrb.py',
   'utilities/vincenty.py'],
  [('cell size', 'get_pixel_size'), ('interpolation', 'interpolate_grid'),
   ('distance', 'vinc_dist')],
  ['cell size grids'])

p('U02', 'Geodesic distances and positions are consistent and accurate',
  'The ellipsoidal distance between two points, a decimetre to 15000 km '
  'apart, is right to 5 centimetres, is the same in both directions, zero '
  'for the same point, and the two '
  'azimuths are those at the two ends. Going that distance along the azimuth '
  'from the first point arrives at the second, and intermediate points of a '
  'great circle are evenly spaced.',
  ['inputs'],
  'all pairs over a grid of latitudes and longitudes (equator, both '
  'hemispheres, across the date line, a metre to 15000 km), all azimuths of '
  'a compass rose',
  'No test covers it.',
  ['utilities/vincenty.py'],
  [('inverse problem', 'vinc_dist'), ('direct problem', 'vinc_pt'),
   ('great circle', 'GreatCircle')],
  ['distances, azimuths and positions'])

p('U03', 'Grid interpolation is exact at its nodes and for bilinear data',
  'Filling a grid by bilinear recursive bisection asks for values at cells '
  'of the grid only, fills every cell, and is exact for functions that are '
  'linear in row and column, for every grid shape and depth. With a deeper '
  'bisection the result is at least exact at all block corners.',
  ['inputs', 'configurations'],
  'all shapes up to 9 x 9 (thorough: 16 x 16) and depths 0 to 3 (where '
  'blocks are not empty), all origins, linear, bilinear and arbitrary '
  'functions',
  'No test covers it.',
  ['utilities/blrb.py'],
  [('interpolation', 'bilinear, interpolate_block'),
   ('bisection', 'subdivide, interpolate_grid')],
  ['grids'])

p('U04', 'The configuration named by the user is the one in effect',
  'After naming a configuration file its settings are in effect for the '
  'whole program, replacing values of any file named before, and settings '
  'it does not have keep the earlier values. Naming a file that does not '
  'exist is an error and changes nothing.',
  ['histories', 'configurations'],
  'all sequences of up to 3 (thorough: 4) operations: naming one of several '
  'files (overlapping, empty, missing), reading, changing a file',
  'Tests only use it to reach other code.',
  ['utilities/config.py'],
  [('reading', '_ConfigParser.set_config_file/_read_file')],
  ['values returned for settings'])

p('U05', 'Without MPI the program runs as a single master process',
  'When mpi4py is not installed, a communicator of size 1 and rank 0 takes '
  'its place whose barrier does nothing, scatter gives the only item and '
  'gather a list of the only item; when it is installed, it is used as it '
  'is. Work marked for the master runs exactly once with its arguments and '
  'result on rank 0, and does nothing on all other ranks, whatever the '
  'number of processes.',
  ['configurations', 'schedules'],
  'with and without mpi4py, 1 to 4 ranks, all sequences of up to 3 '
  'communicator operations, functions with results, arguments, exceptions',
  'One test checks attributes of the dummy.',
  [PA], [('fallback', 'attempt_parallel, DummyCommWorld'),
         ('master only', 'disable_on_workers')],
  ['calls and results per rank'])

p('U06', 'Singletons are created once, and logged calls stay transparent',
  'A class declared as singleton is instantiated exactly once and all '
  'callers get the same instance, for every interleaving of threads and for '
  'every instance, also one that counts as false. Logging the calls of a '
  'function changes neither its arguments, result nor exceptions, and '
  'reports the arguments and, only if it returns, success.',
  ['schedules', 'inputs'],
  'all interleavings of 2 threads (and 3 with up to 2 preemptions) through '
  'the first and later calls at line level; all call shapes with '
  'positional, keyword and default arguments',
  'No test covers it; a race shows only in particular interleavings.',
  ['utilities/meta.py'],
  [('double-checked creation', 'Singleton.__call__'),
   ('call logging', 'print_call, create_arg_string')],
  ['instances and constructor calls', 'log messages'])

p('U07', 'File helpers return what is in the files',
  'Arrays saved to a delimited text file are read back unchanged, in new '
  'folders as well as in the working directory, with any delimiter, format '
  'and header. The reported size, checksum, folder, name and time of a file '
  'are those of the file, whatever its size relative to the read size, and '
  'files that do not exist raise an IOError. A started log receives the '
  'messages of its level and above in the named file. The module, version '
  'and configuration file of a caller are those of the module at the asked '
  'level of the calls, by default of the running program, and a fatal error '
  'logs its lines and ends the program.',
  ['inputs', 'histories'],
  'all small array shapes and special values, delimiters, headers; file '
  'sizes around multiples of the read size; log levels and modes',
  'No test covers them except starting a log.',
  ['utilities/files.py'],
  [('text files', 'fl_save_file, fl_load_file'),
   ('file facts', 'fl_get_stat, fl_size, fl_mod_date'),
   ('log', 'fl_start_log, fl_log_fatal_error'),
   ('callers', 'fl_module_path, fl_module_name, fl_config_file, '
    'fl_program_version')],
  ['returned values and files'])

# ----------------------------------------------------------- preprocessing
p('R01', 'Each land-use area gets the settlement it overlaps most',
  'Joining settlements to land-use areas gives each area the attribute of '
  'the settlement with which it shares the largest area, and none if it '
  'touches no settlement, for any number and order of areas and settlements '
  'and any order in which the areas are processed. No area is lost, '
  'repeated or reordered, and other attributes stay.',
  ['inputs', 'schedules'],
  'all placements of up to 3 rectangles on a small lattice for both layers '
  '(ties left open), all orders of the layers',
  'No test covers preprocessing.',
  ['utilities/shapefiles.py'],
  [('join', 'shp_file.spatial_join')],
  ['attributes of the land-use areas'])

p('R02', 'Land-use areas get the category of settlement type and land use',
  'The preprocessed shapefile has every land-use area with geometry, with '
  'CAT = 100 x settlement code + land-use code: Major CBD 1, City 2, Urban 3, '
  'Large Town 4, Small Town 5, otherwise 0; Parkland 1, Primary Production '
  '2, Education 4, Residential 5, Water 6, Other 7, Commercial 8, Industrial '
  '9, Hospital/Medical 10, Transport 11, otherwise 0. The settlement type '
  'and other attributes and the shapes are kept, cut to the box of the crop '
  'mask if there is one, and the inputs are not changed.',
  ['inputs', 'configurations'],
  'all settlement types x land uses (known, unknown, missing), with and '
  'without crop mask, areas over several settlements and none',
  'No test covers preprocessing.',
  ['pre_process.py', 'utilities/shapefiles.py'],
  [('category', 'pre_process()')],
  ['the output shapefile'])

p('R03', 'Dissolving and cropping keep exactly the area they should',
  'Dissolving a layer by an attribute leaves one shape per value, covering '
  'exactly the union of the shapes with that value, whatever the number and '
  'order of shapes. Cropping leaves exactly the part of each shape inside '
  'the bounding box of the mask, with its own attributes and in the same '
  'order, dropping only shapes without area inside, and the result can be '
  'saved and read again.',
  ['inputs'],
  'all assignments of up to 4 (thorough: 5) rectangles on a lattice to up '
  'to 3 values incl. missing, all crop boxes on the lattice, multi-part '
  'shapes',
  'No test covers preprocessing.',
  ['utilities/shapefiles.py'],
  [('dissolve', 'shp_file.dissolve'), ('crop', 'shp_file.crop'),
   ('reading and writing', 'shp_file.read/save')],
  ['shapes and attributes'])

p('R04', 'Rasterising puts the category of an area in the cells it covers',
  'The raster made from a preprocessed shapefile has the grid, position and '
  'projection of the elevation raster and in each cell the category of the '
  'area that contains the cell centre (or another attribute, if one is '
  'named), and 0 (no data) where there is none. '
  'Categories up to 65535 are kept exactly, for every shape and resolution '
  'of the raster.',
  ['inputs', 'configurations'],
  'all placements of one or two rectangles on a small lattice, all raster '
  'shapes up to a bound, rectangular cells, categories 1 to 65535',
  'No test covers preprocessing.',
  ['pre_process.py', 'rasterize.py'],
  [('rasterising', 'pre_process.rasterize')],
  ['the GeoTIFF'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    print(len(P))
