WHY = {
 'W01': 'whether tiles overlap or leave a gap depends on rounding for one width, cell size and origin out of very many; a test takes one raster.',
 'W02': 'sizes at which the last tile is narrow, or at which half cells are rounded, are few and not those a test picks.',
 'W03': 'the cut, its rounding and the resampling of the land cover have to agree for each sub-extent and each pair of resolutions.',
 'W04': 'a lost or repeated tile needs a certain order of messages between certain numbers of ranks; a test sees one order.',
 'W05': 'which process lists, converts and joins which tile depends on the number of processes and on timing.',
 'W06': 'the files of a run must not depend on the schedule; races of file operations show in few schedules.',
 'W07': 'elevations that cancel in a sum or a check sum are single patterns out of all small tiles.',
 'W08': 'what a run finds in its output folder, and where it is started, are histories no test has.',
 'W09': 'a test cannot stop a run at each of its file operations and start it again.',
 'W10': 'each input may be bad in many ways, and fail at any of its accesses; the tests use good inputs only.',
 'W11': 'the effect of the buffer shows only when the same area is cut into tiles in different ways.',
 'W12': 'compares runs with one another; the error of one direction is not visible in a value a test expects.',
 'W13': 'no test makes a write fail, and each of the hundreds of operations of a run can be the first that does.',
 'W14': 'which process finds or makes the log folder first depends on the schedule; settings combine freely.',
 'T01': 'values depend on the class, its place in the table, and the unknown ones beside it.',
 'T02': 'the cells that count are different for each distance to each edge, each direction and each cell size.',
 'S01': 'values depend on the class, its place in the table, and no data and unknown ones beside it.',
 'S02': 'the cells that count are different for each distance to each edge, each direction and each kernel.',
 'S03': 'conditions on slope, facing, direction and value act together; thresholds are hit by single combinations.',
 'S04': 'slopes and facings of all patterns of neighbours, at edges and at the limits between sectors.',
 'G01': 'which cells are on a line through a cell is different for each shape and direction.',
 'G02': 'crests, feet, plateaus and edges can come in any order along a line.',
 'G03': 'the formulas have thresholds in height, slope and distance that interact.',
 'G04': 'smoothing, scaling and edges act on each small pattern; Tasmania only for tiles at its border.',
 'N01': 'positions are rounded; which cell size, origin and buffer gives the wrong row is not known in advance.',
 'N02': 'patterns of missing cells, files from before, descriptions with parts left out.',
 'C01': 'each of 24 files may lack data anywhere; tiles come in any order and size.',
 'C02': 'each of the 8 directions may be the largest, or without data, in any combination.',
 'C03': 'any subset of the 24 files may be missing or damaged.',
 'U01': 'the shape of a raster decides where the interpolation has its nodes.',
 'U02': 'errors of the series show for certain latitudes, azimuths and distances only.',
 'U03': 'each shape and depth gives other blocks.',
 'U04': 'what is in effect depends on the whole history of files named.',
 'U05': 'each rank of each world size takes another path.',
 'U06': 'two instances need a preemption at one of a few places.',
 'U07': 'file sizes at the multiples of the read size, and the arrays of awkward shape.',
 'R01': 'threads may end in any order, shapes overlap in any way.',
 'R02': 'all pairs of types and land uses, with each way to lie in a settlement or mask.',
 'R03': 'order of shapes and values decides how they are grouped; crossings with the mask have all forms.',
 'R04': 'each edge may run through, beside or around each cell centre.',
}
